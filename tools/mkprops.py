#!/usr/bin/env python3-vt
# Generates /verif/properties.jsonl (one place to edit the texts).
import json, os
D="include/boost/atomic/detail/"
def m(*a): return [{"name":n,"where":w} for n,w in a]
P=[]
def p(id,title,statement,over,text,why,files,state,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=x,meaning=x,where=files[0]) for x in state],mechanism=m(*mech),observe_at=observe,hook_needed=hook)))
ATOM=["atomic<T> / atomic_ref<T> / ipc_atomic<T> / ipc_atomic_ref<T> / atomic_flag member functions (value returned, value left in the object)"]
p("C01","Lock-free atomic operations are linearizable at every size",
  "Every operation (load, store, exchange, arithmetic, bitwise, compare-exchange) on a natively atomic object of 1, 2, 4, 8 or 16 bytes takes effect at one instant between its call and its return, for every integral, enum, bool, pointer and trivially copyable struct type. The values returned by all threads' operations and the final value are explained by some sequential order of those operations that respects real time; no update is lost, duplicated or torn.",
  ["schedules","histories","inputs","configurations"],
  "every interleaving (at machine-instruction granularity, with store buffering) of any threads performing any mix of operations, operand values and memory orders, on any type and object size with native atomic instructions, for each compiler and instruction-set baseline",
  "the API tests are single-threaded with a few operand values; the atomicity test runs two threads on a handful of types for a short time and only checks one write pattern, so no test covers mixed read-modify-write operations, all sizes or chosen interleavings",
  [D+"core_ops_gcc_atomic.hpp",D+"core_arch_ops_gcc_x86.hpp",D+"extra_ops_gcc_x86.hpp",D+"extra_ops_generic.hpp",D+"core_ops_cas_based.hpp",D+"cas_based_exchange.hpp",D+"extending_cas_based_arithmetic.hpp",D+"atomic_impl.hpp"],
  ["the atomic object's storage"],
  [("native atomic instructions / compiler intrinsics",D+"core_ops_gcc_atomic.hpp"),("16-byte operations through compare-and-swap loops",D+"core_arch_ops_gcc_x86.hpp")],ATOM)
p("C02","Lock-emulated atomic objects are linearizable for any type and size",
  "Operations on objects that have no native atomic instructions (odd sizes, sizes above the native maximum, or with native support disabled) also each take effect at one instant between call and return. No thread ever observes a value that is a mixture of two stored values, and no update is lost, even when many unrelated objects share the same internal lock and whatever the lock pool size.",
  ["schedules","histories","inputs","configurations"],
  "every interleaving of any threads and operations on objects of any size and type without native support, every placement of objects relative to each other, every lock-pool size and lock implementation",
  "fallback tests repeat the single-threaded API tests and a short two-thread store/load test; tearing inside a multi-word copy and lock-index mistakes need a preemption at a particular instruction and a particular placement",
  [D+"core_operations_emulated.hpp",D+"extra_ops_emulated.hpp",D+"lock_pool.hpp","src/lock_pool.cpp"],
  ["object storage","lock pool entry"],
  [("per-address lock around each operation",D+"core_operations_emulated.hpp"),("address-to-lock mapping",D+"lock_pool.hpp"),("lock implementation","src/lock_pool.cpp")],ATOM)
p("C03","All references to one object behave as a single atomic object",
  "Operations performed on the same object through different reference objects, through differently qualified or interprocess references, or by threads that create and drop their references at any time, are atomic with respect to each other exactly as if made through one atomic object. This holds for every referenced type the library accepts, including those it emulates with locks.",
  ["schedules","histories","programs","configurations"],
  "every interleaving of threads each using their own short-lived reference objects to shared objects, all referable types, sizes and alignments",
  "the tests for references are the single-threaded API tests and a short two-thread loop; they never mix reference objects with different lifetimes on lock-emulated objects under chosen interleavings",
  ["include/boost/atomic/atomic_ref.hpp","include/boost/atomic/ipc_atomic_ref.hpp",D+"atomic_ref_impl.hpp",D+"classify.hpp",D+"lock_pool.hpp"],
  ["the referenced object"],[("operations derived from the object's address and size only",D+"atomic_ref_impl.hpp")],ATOM)
p("C04","Compare-and-exchange succeeds exactly when it should and reports the truth",
  "A compare-exchange that succeeds replaced a value equal to the expected one with the desired one in a single atomic step; one that fails leaves the object unchanged and hands back the value it observed. The strong form fails only if the value really differed, the weak form may fail spuriously but only finitely often without interference, and for types with padding the padding bits never make the strong form fail forever.",
  ["schedules","inputs","histories","configurations"],
  "all expected/desired/current value combinations, including equal values and values differing only in one byte; all interleavings with concurrent writers; all types and sizes, including types with padding where the compiler lets the library clear it",
  "tests run compare-exchange single-threaded on a few values; what a failing compare-exchange reports while other threads write is only visible under particular interleavings",
  [D+"core_ops_gcc_atomic.hpp",D+"core_arch_ops_gcc_x86.hpp",D+"core_operations_emulated.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"bitwise_cast.hpp"],
  ["object storage","caller's expected value"],
  [("strong and weak compare-exchange","include/boost/atomic/atomic.hpp"),("padding clearing",D+"bitwise_cast.hpp")],ATOM)
p("C05","Extended operations report the outcome of their own atomic step",
  "Operations that modify and report (negate, complement, add, subtract and bitwise operations returning the new value, operations that test the new value for zero, bit test-and-modify) and operations that return nothing apply the documented change once, atomically, and report the result computed from the very value they replaced. The report is correct for every operand value and bit index, whatever other threads do at the same time.",
  ["schedules","inputs","histories"],
  "all operand values (including wrap-around, zero, all-ones, sign boundary) and bit indices, all integral types and sizes, all memory orders, all interleavings",
  "tests check these operations single-threaded on a few constants; confusion between old and new value, a flag taken from a second read, or a wrong-width flag shows only with concurrent writers or special operands",
  [D+"extra_ops_gcc_x86.hpp",D+"extra_ops_generic.hpp",D+"extra_ops_emulated.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp"],
  ["object storage"],[("architecture-specific read-modify-write with flags",D+"extra_ops_gcc_x86.hpp"),("generic versions",D+"extra_ops_generic.hpp")],ATOM)
p("C06","Floating-point atomics apply every update exactly once",
  "Atomic addition, subtraction, negation, exchange and compare-exchange on floating-point types are single atomic steps: each returns the value it replaced (or stored, as documented), and no concurrent update is lost or applied twice. Special values (signed zeros, infinities, NaNs, denormals) never make an operation loop forever or corrupt the object.",
  ["schedules","inputs","histories","configurations"],
  "all floating-point types including those with padding, all operand values including special ones, all interleavings, native and lock-emulated",
  "tests run floating-point operations single-threaded with a few ordinary values; retry loops are only entered under contention and only special values distinguish bitwise from value comparison",
  [D+"fp_ops_generic.hpp",D+"fp_ops_emulated.hpp",D+"extra_fp_ops_generic.hpp",D+"extra_fp_ops_emulated.hpp",D+"bitwise_fp_cast.hpp",D+"atomic_impl.hpp"],
  ["object storage"],[("compare-and-swap retry loops on the bit image",D+"fp_ops_generic.hpp")],ATOM)
p("C07","Released data is visible to whoever acquires it",
  "When a thread writes ordinary data and then performs a release (or stronger) operation, and another thread's acquire (or stronger) operation, possibly through a chain of read-modify-writes, a flag, a fence pair, a lock-emulated object or a completed wait, reads that effect, the second thread sees all the data, and the accesses are free of data races. Neither compiler nor processor may move the data accesses across the synchronising operations.",
  ["schedules","programs","configurations"],
  "every interleaving and permitted store delay, every pair of release and acquire operations the library offers (all operations, memory orders, sizes, fences, native and emulated, waits), every compiler optimisation the build enables",
  "the ordering tests cover only one store-buffering shape with 32-bit objects; a missing barrier or a wrong memory order is invisible unless a particular interleaving or compiler reordering happens, which repeated runs on one machine rarely show",
  [D+"core_ops_gcc_atomic.hpp",D+"core_arch_ops_gcc_x86.hpp",D+"extra_ops_gcc_x86.hpp",D+"gcc_atomic_memory_order_utils.hpp",D+"fence_operations.hpp",D+"core_operations_emulated.hpp","src/lock_pool.cpp","include/boost/atomic/fences.hpp"],
  ["atomic object plus the ordinary data it guards"],[("memory order translation",D+"gcc_atomic_memory_order_utils.hpp"),("inline assembly clobbers",D+"extra_ops_gcc_x86.hpp"),("lock acquire/release","src/lock_pool.cpp")],
  ["ordinary data read after the acquire","happens-before between the accesses"])
p("C08","Sequentially consistent operations and fences have one total order",
  "All sequentially consistent operations on any objects, of any sizes, native or lock-emulated, appear to all threads in one common order consistent with each thread's program order. Sequentially consistent fences between weaker operations restore the same guarantee.",
  ["schedules","programs","configurations"],
  "every interleaving and store delay permitted by the machine for programs made of sequentially consistent stores, loads, read-modify-writes and fences over two or more objects",
  "the tests contain one store-buffering loop over 32-bit objects; other store-like operations, sizes, fences between relaxed operations and multi-reader shapes are never exercised, and a weakened store fails only when the store is still buffered",
  [D+"core_ops_gcc_atomic.hpp",D+"core_arch_ops_gcc_x86.hpp",D+"fence_ops_gcc_atomic.hpp",D+"fence_arch_ops_gcc_x86.hpp",D+"core_operations_emulated.hpp","include/boost/atomic/fences.hpp"],
  ["several atomic objects"],[("full-barrier stores and read-modify-writes",D+"core_ops_gcc_atomic.hpp"),("full fence",D+"fence_arch_ops_gcc_x86.hpp")],
  ["values read by all threads (no cycle)"])
p("C09","A wait never returns while the value is still the old one",
  "An untimed wait returns only a value that differs from the one passed in, and that the object really held at some moment during the wait. Spurious wake-ups, signals interrupting the wait, wake-ups meant for others and failures inside the waiting machinery are never visible to the caller.",
  ["schedules","fault_sequences","histories","configurations"],
  "all interleavings of waiters, writers and notifiers on all object types and sizes (native, generic and emulated waiting), with any sequence of spurious wake-ups, interrupted system calls, unsupported calls and allocation failures",
  "tests use a few real threads with sleeps; spurious and interrupted wake-ups are never injected and the comparison after a wake-up is only wrong in rare interleavings",
  [D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp","src/lock_pool.cpp",D+"futex.hpp"],
  ["waited-on object","list of blocked waiters"],[("re-check loop around blocking",D+"wait_ops_generic.hpp"),("condition variable and mutex on futexes or pthreads","src/lock_pool.cpp")],
  ["value returned by wait()"])
p("C10","No wake-up is lost: notified waiters always finish",
  "If the value is changed away from what a thread waits for and stays changed, and a notify follows, then notify-all lets every such waiter finish and each notify-one lets at least one finish (as long as no other thread waits on the object for the new value), within a bounded number of further steps. This holds no matter where the change and the notify fall relative to a thread entering the wait, for plain and timed waits alike, and no thread stays blocked for ever or only until its timeout.",
  ["schedules","fault_sequences","histories","configurations"],
  "all interleavings of any numbers of waiters (plain and timed), writers and notifiers, on all object types and sizes and all waiting implementations, with interrupted calls, spurious wake-ups, delayed threads and failed allocations",
  "wait tests start threads with sleeps so the waiter is always asleep before the notify; the window between the waiter's check and its going to sleep is never hit on purpose, and one stress test covers a single shape",
  [D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp","src/lock_pool.cpp",D+"futex.hpp",D+"atomic_flag_impl.hpp",D+"atomic_impl.hpp"],
  ["waited-on object","waiter counts and wake-up counters","requeued waiters"],[("check-then-block under the lock or by the kernel",D+"wait_ops_generic.hpp"),("notify requeues blocked threads onto the lock","src/lock_pool.cpp")],
  ["each wait() returns; end state has no blocked thread"])
p("C11","Waiters and notifications on different objects do not interfere",
  "A notify on one object neither consumes nor misdirects a wake-up belonging to another object, even when both share internal resources, and any number of objects may be waited on at once while waiters come and go in any order. Every waiter is woken by notifications to its own object.",
  ["schedules","histories","configurations"],
  "any number of objects whose addresses collide internally, waiters arriving and leaving in any order, growth and shrinkage of internal tables, every available table-search implementation",
  "no test waits on more than a couple of objects at once, so colliding objects, table growth, removal from the middle and search beyond the first few entries are never exercised",
  ["src/lock_pool.cpp","src/find_address_sse2.cpp","src/find_address_sse41.cpp",D+"lock_pool.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp"],
  ["per-lock list of wait states"],[("list of wait states with search, growth, swap-with-last removal","src/lock_pool.cpp"),("vectorised search","src/find_address_sse41.cpp")],
  ["each waiter on each object returns after its own notify"])
p("C12","Timed waits honour their deadline and report the outcome truthfully",
  "A timed wait reports a timeout only if its deadline has passed on the clock it was given and the value returned still equals the old one; otherwise it returns a different value with no timeout reported. If nothing changes, it returns within a bounded time after the deadline, whatever the clock, the deadline (also in the past or before the clock's epoch), adjustments of the system clock, interruptions or missing kernel features.",
  ["schedules","fault_sequences","inputs","configurations"],
  "all deadlines and durations whose distance from now the clock's duration type can represent (zero, negative, coarse units, far future), steady, system and user-defined clocks, jumps of the adjustable clock in both directions, interrupted and unsupported system calls, all interleavings with writers and notifiers, all waiting implementations",
  "tests use a few real durations with generous margins on an undisturbed clock; clock jumps, interrupted calls, kernels without absolute timeouts and a change racing with the expiry are never produced",
  [D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp",D+"chrono.hpp","include/boost/atomic/wait_result.hpp","include/boost/atomic/posix_clock_traits_fwd.hpp",D+"has_posix_clock_traits.hpp","src/lock_pool.cpp"],
  ["waited-on object","clocks"],[("absolute and relative timeouts, fallbacks",D+"wait_ops_futex.hpp"),("duration rounding",D+"chrono.hpp")],
  ["wait_result value and timeout flag against the simulated clocks"])
p("C13","Running out of memory only slows waiting down",
  "When memory for the waiting machinery cannot be allocated, at any allocation and any number of times, waits, timed waits, notifications and all other operations still give correct results and still finish, only by less efficient means. No such failure is reported, crashes, blocks others or leaves damage behind once memory is available again.",
  ["fault_sequences","schedules","histories"],
  "every subset of allocations failing, at every point of every interleaving of waiters, writers and notifiers on colliding and non-colliding objects",
  "no test makes an allocation fail; the recovery path is never executed",
  ["src/lock_pool.cpp",D+"lock_pool.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp"],
  ["list of wait states"],[("null wait state and polling","src/lock_pool.cpp")],["waits return, values correct, no invalid memory access"])
p("C14","Waiting memory is never misused, stays bounded and is released at exit",
  "The memory behind waiting is never read or written after it is released nor outside its bounds, and its amount is bounded by the greatest number of objects waited on simultaneously, not by how many waits were made. At normal process exit all of it is released, and waits, notifications and other operations made by threads or destructors still running at that time remain correct.",
  ["schedules","histories","crash_points"],
  "every interleaving of waits, notifications and exit-time clean-up, with clean-up happening at any point while threads still wait, arrive and leave",
  "no test inspects this memory, and none performs waits during or after exit-time clean-up",
  ["src/lock_pool.cpp",D+"once_flag.hpp"],
  ["list of wait states, spare entries, clean-up flag"],[("pooling of spare entries","src/lock_pool.cpp"),("exit-time clean-up","src/lock_pool.cpp")],["every allocation, release and access of that memory"])
p("C15","Lock-free operations never wait for other threads and are re-entrant",
  "An operation (waits and notifications aside) on an object that reports itself lock-free finishes by its thread's own steps within a bounded number of them when left alone, even if every other thread is suspended or killed at any instruction inside an operation on the same or any other object. Therefore such operations can also be used from a signal handler that interrupts an operation of the same thread, with both operations still atomic.",
  ["schedules","crash_points","programs","configurations"],
  "every operation and type reported lock-free, every point at which other threads are suspended, killed, or at which the same thread is interrupted by a handler that uses the same objects",
  "the tests only print or compare the reported constants; no test suspends a thread inside an operation or re-enters from a handler",
  [D+"core_ops_gcc_atomic.hpp",D+"core_arch_ops_gcc_x86.hpp",D+"caps_arch_gcc_x86.hpp",D+"caps_gcc_atomic.hpp","include/boost/atomic/capabilities.hpp",D+"atomic_impl.hpp"],
  ["object storage"],[("capability reporting versus implementation chosen","include/boost/atomic/capabilities.hpp")],["operation completes and result is atomic; no lock is touched"])
p("C16","Interprocess atomics stay atomic across differently mapped memory",
  "Operations made by different processes that map the same shared memory at different addresses are atomic with respect to each other, for every operation and type the interprocess classes accept. They depend on nothing outside the shared object: no process-local state takes part.",
  ["schedules","histories","configurations"],
  "every interleaving of operations from several simulated processes with different mapping addresses and separate private memory, all interprocess types and operations",
  "the interprocess tests run in a single process on ordinary memory with one address per object, so any dependence on the address or on process-local state is invisible to them",
  ["include/boost/atomic/ipc_atomic.hpp","include/boost/atomic/ipc_atomic_ref.hpp","include/boost/atomic/ipc_atomic_flag.hpp",D+"classify.hpp",D+"core_operations.hpp"],
  ["object in shared memory"],[("interprocess classes restricted to address-free operations",D+"atomic_impl.hpp")],ATOM)
p("C17","Interprocess waits are woken from other processes and survive crashes",
  "A thread waiting through the interprocess classes is woken by a change and notification made in another process, whatever addresses the memory is mapped at, and timed interprocess waits keep their deadline. A process that is killed at any instant inside any operation, wait or notification never blocks the operations of the surviving processes.",
  ["schedules","crash_points","fault_sequences","configurations"],
  "every interleaving of waiters and notifiers in different simulated processes, every crash point of one of them, all interprocess types and sizes",
  "tests wait and notify within one process, where a process-private wake-up also works, and never kill a participant",
  [D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"wait_operations.hpp","include/boost/atomic/ipc_atomic.hpp","include/boost/atomic/ipc_atomic_ref.hpp","include/boost/atomic/ipc_atomic_flag.hpp"],
  ["object in shared memory","kernel wait queues keyed by shared page or by process address"],[("shared (not private) kernel wait keys",D+"wait_ops_futex.hpp"),("polling where no native wait exists",D+"wait_ops_generic.hpp")],["waits return; surviving processes' operations complete"])
p("C18","Operations touch no memory outside their object",
  "No operation reads for the purpose of writing back, or writes, any byte outside the object it is applied to: neighbouring atomic or ordinary objects modified concurrently never lose an update, and memory around the object is never changed. For references this includes objects placed at the very end of accessible memory.",
  ["schedules","inputs","configurations"],
  "every operation, type, size and position of an object among concurrently modified neighbours, including arrays of small atomics and objects at the edge of accessible memory",
  "tests use isolated objects; a write that is one byte too wide puts back a stale neighbour only if the neighbour changes in between",
  [D+"core_ops_gcc_atomic.hpp",D+"core_arch_ops_gcc_x86.hpp",D+"extra_ops_gcc_x86.hpp",D+"core_operations_emulated.hpp",D+"storage_traits.hpp",D+"bitwise_cast.hpp"],
  ["object storage and its neighbours"],[("operand width of native instructions",D+"extra_ops_gcc_x86.hpp"),("copies of exactly the object size",D+"core_operations_emulated.hpp")],["every memory access made during an operation; neighbours' values"])
p("C19","Emulated operations never deadlock and always make progress",
  "Operations on lock-emulated objects, waits and notifications on any objects finish within a bounded number of steps once scheduling is fair, whatever the contention: no two of them can block each other for ever, even if all objects share one internal lock. A thread blocked in a wait never prevents operations on other objects or on the same object.",
  ["schedules","fault_sequences","configurations"],
  "every interleaving of any number of threads contending for one or several internal locks, in both lock implementations, mixed with waits and notifications, with interrupted and spuriously returning system calls",
  "tests never contend for a lock between more than two threads and never make blocked lock acquisitions overlap with notifications, which is where a wake-up of a blocked locker can be lost",
  ["src/lock_pool.cpp",D+"lock_pool.hpp",D+"wait_ops_emulated.hpp"],
  ["lock word with waiter indication"],[("spin-then-block lock","src/lock_pool.cpp"),("notify transfers waiters to the lock","src/lock_pool.cpp")],["all threads finish; no thread blocked at the end"])
p("C20","The atomic flag builds correct locks and one-time gates",
  "At most one of any number of concurrent test-and-set operations on a clear flag reports that it was clear, until the flag is cleared again; clear-then-notify always lets a thread blocked on a set flag continue. A lock or one-time gate built from the flag with acquire and release orders gives mutual exclusion and makes the protected data visible.",
  ["schedules","histories","configurations"],
  "every interleaving of any threads using test-and-set, test, clear, wait and notify on process-local and interprocess flags, native and emulated",
  "flag tests are single-threaded apart from one notify test with sleeps",
  ["include/boost/atomic/atomic_flag.hpp","include/boost/atomic/ipc_atomic_flag.hpp",D+"atomic_flag_impl.hpp"],
  ["flag storage"],[("test-and-set, clear, wait",D+"atomic_flag_impl.hpp")],["critical sections do not overlap; data written inside is seen"])
p("C21","The guarantees hold on the other operating systems' waiting primitives",
  "Built on the waiting primitives of FreeBSD, DragonFly BSD, NetBSD, OpenBSD, macOS or Windows, or with nothing but basic compiler intrinsics, the library keeps the same promises: operations are linearizable, a wait returns a value different from the old one, no notified thread stays blocked, a timed wait reports a timeout only after its deadline and then ends, interprocess objects work across mappings, and locks of emulated objects neither deadlock nor admit two threads, whatever interruptions, early returns and limits the system's calls have.",
  ["schedules","fault_sequences","configurations"],
  "every interleaving of any threads and processes, every interruption and error the systems' calls may return, timeouts of any length, every supported generation of these interfaces",
  "tests run on one operating system at a time, and on each only with the schedules and results of system calls that happen to occur; the error paths, timeout limits and early wake-ups of these calls are hardly ever taken",
  [D+"wait_ops_freebsd_umtx.hpp",D+"wait_ops_dragonfly_umtx.hpp",D+"wait_ops_darwin_ulock.hpp",D+"wait_ops_futex.hpp",D+"wait_ops_windows.hpp",D+"futex.hpp","src/lock_pool.cpp","src/wait_on_address.cpp",D+"core_ops_gcc_sync.hpp"],
  ["kernel wait queues keyed by address","lock state of the pool"],[("compare-and-block loops with relative or absolute timeouts",D+"wait_ops_freebsd_umtx.hpp"),("slim reader/writer locks and condition variables in the pool","src/lock_pool.cpp")],["as for C09, C10, C12, C16, C17 and C19"])
p("C22","The guarantees hold on AArch64 with its weak memory ordering",
  "Compiled for AArch64, with or without the LSE and RCpc extensions, through compiler intrinsics or the library's own instruction sequences, every operation is atomic (no torn or lost value, including the value a failed compare-exchange of 16 bytes reports), released data is visible to whoever acquires it, sequentially consistent operations and fences have one total order, internal locks protect what they guard, waits and notifications work, and no operation changes a variable of the caller other than the object and the expected value, whatever reordering of loads and stores the processor is permitted.",
  ["schedules","histories","inputs","configurations"],
  "every interleaving, every delay and reordering of stores and every stale load the architecture's memory model permits, every spuriously failing store-exclusive, all sizes from 1 to 16 bytes and lock-emulated objects, all memory orders",
  "the tests run on x86 here, where neither weak ordering nor failing exclusive stores exist; even on the processor itself reorderings are rare and a torn 16-byte value needs a store between two halves of a load",
  [D+"core_arch_ops_gcc_aarch64.hpp",D+"extra_ops_gcc_aarch64.hpp",D+"ops_gcc_aarch64_common.hpp",D+"fence_arch_ops_gcc_aarch64.hpp",D+"core_ops_gcc_atomic.hpp","src/lock_pool.cpp"],
  ["object storage","exclusive reservation"],[("load-exclusive/store-exclusive loops and LSE instructions",D+"core_arch_ops_gcc_aarch64.hpp"),("lock acquisition and release orders","src/lock_pool.cpp")],["as for C01, C02, C07, C08, C09, C10 and C19"])
p("C23","The guarantees hold on 64-bit PowerPC with its weak memory ordering",
  "Compiled for 64-bit PowerPC, with or without byte and halfword reservations, through compiler intrinsics or the library's own instruction sequences, every operation is atomic and gives the documented result for every value of every size (including values narrower than their storage), a compare-exchange whose expected value equals the current one eventually succeeds, released data is visible to whoever acquires it, sequentially consistent operations and fences have one total order, internal locks protect what they guard and waits and notifications work, whatever reordering of loads and stores the processor is permitted and whenever a reservation is lost.",
  ["schedules","histories","inputs","configurations"],
  "every interleaving, every delay and reordering of stores and every stale load the memory model permits among multi-copy atomic executions, every lost reservation, all sizes from 1 to 16 bytes and lock-emulated objects, all memory orders",
  "the tests run on x86 here, where neither weak ordering nor reservations exist; missing barriers and stale upper register bits show only with particular schedules, code generation and values",
  [D+"core_arch_ops_gcc_ppc.hpp",D+"extra_ops_gcc_ppc.hpp",D+"ops_gcc_ppc_common.hpp",D+"fence_arch_ops_gcc_ppc.hpp",D+"core_ops_gcc_atomic.hpp","src/lock_pool.cpp"],
  ["object storage","reservation"],[("lwarx/stwcx. loops with lwsync, sync and isync",D+"core_arch_ops_gcc_ppc.hpp"),("lock acquisition and release orders","src/lock_pool.cpp")],["as for C01, C02, C07, C08, C09, C10 and C19"])
# not claimed
p("C30","Constant initialisation",
  "Static atomic objects initialised with constants hold their value before any dynamic initialisation runs, and default construction gives the documented value.",
  ["programs"],"all types with a constant initialiser","a pure compile-time/start-up fact; tests cover some types",
  ["include/boost/atomic/atomic.hpp",D+"atomic_impl.hpp"],["object storage"],[("constexpr constructors",D+"atomic_impl.hpp")],["initial value"])
p("C31","Unsupported types are rejected at compile time",
  "Types that are not trivially copyable, function types and types not lock-free for interprocess use are rejected by the compiler rather than misbehaving.",
  ["programs"],"all type arguments","a property of the type system; compile-fail tests sample it",
  ["include/boost/atomic/atomic.hpp","include/boost/atomic/ipc_atomic.hpp"],[],[("static assertions","include/boost/atomic/atomic.hpp")],["compiler diagnostics"])
p("C32","Capability macros, constants and functions agree",
  "What the capability macros, the always-lock-free constants and the run-time queries say about lock-freedom and native waiting is mutually consistent for each type.",
  ["configurations"],"all types and target configurations","a pure function of the build configuration; lock-free tests sample one configuration",
  ["include/boost/atomic/capabilities.hpp"],[],[("macros","include/boost/atomic/capabilities.hpp")],["macro and constant values"])
p("C33","The guarantees hold on every supported processor and compiler",
  "Everything stated for this library holds equally in its back ends for 32-bit ARM, 32-bit PowerPC, Alpha and SPARC processors and for the Microsoft compiler.",
  ["configurations","schedules"],"all supported processors and compilers other than gcc and clang on x86-64","tests run on whichever machine is at hand",
  [D+"core_arch_ops_gcc_aarch64.hpp",D+"core_arch_ops_gcc_arm.hpp",D+"core_arch_ops_gcc_alpha.hpp",D+"core_ops_windows.hpp"],
  [],[("per-target back ends",D+"core_arch_operations.hpp")],["as for the other properties"])
for q in P:
    assert len(q["title"])<=80,q["title"]
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for q in P: jsonschema.validate(q,s)
print(len(P))
