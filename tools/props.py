# Which simulations decide which property.
HARNESS = ["common.cpp", "lin.cpp", "wait.cpp", "timed.cpp", "bucket.cpp", "prog.cpp", "contend.cpp", "pub.cpp", "flag.cpp", "sc.cpp"]
class J:
    """variant, wrapped type groups ("group:flavor group:flavor"), scenario, options, share of the time, other sut/ sources"""
    def __init__(self, variant, groups, scn, opts="", weight=1.0, extra=()):
        self.variant = variant; self.groups = [tuple(map(int, g.split(":"))) for g in groups.split()]; self.scn = scn
        self.opts = opts.split(); self.weight = weight; self.extra = list(extra)
class P:
    """jobs; note; seconds of simulation (quick, thorough); ignore: violation classes that belong to other properties"""
    def __init__(self, jobs, note, quick=15, thorough=600, assumptions=None, real=None, stub=None, ignore="", assume=None):
        if ignore:
            for j in jobs: j.opts.append("ignore=" + ignore)
        self.jobs = jobs; self.note = note; self.quick = quick; self.thorough = thorough
        self.assumptions = (assume or ASSUME) + (assumptions or []); self.real = real or REAL; self.stub = stub or STUB
ASSUME = ["x86-64 Linux, gcc 13 and clang 18 code generation; back ends for other processors are not executed (AArch64: see C22, PowerPC: C23)",
    "memory behaves like x86-TSO: locked instructions and fences as atomic steps, plain stores possibly delayed in a per-thread FIFO buffer",
    "an unaligned or multi-word access is split only where the code issues several instructions"]
REAL = ["boost/atomic headers and src/*.cpp as compiled by the named compiler with optimisation, every machine instruction"]
STUB = ["thread scheduler, store buffer, futex/pthread, clocks, allocator, atexit (simulated)"]
def groups(fl, gs="0 1 2 3 4 5 6 7 8 9"): return " ".join("%s:%d" % (g, fl) for g in gs.split())
def lit(gs): return ["fence.cpp"] + ["litmus.cpp -DGROUP=%s -DFLAVOR=%s" % tuple(g.split(":")) for g in gs.split()]   # compiled programs around operations of these groups
def JL(variant, gs, scn, opts="", weight=1.0): return J(variant, gs, scn, opts, weight, lit(gs))
NOPAD = "0 1 2 3 4 5 6 7"
NOTE = "Seeded search over schedules, not exhaustive. Trusts the simulator's models of the processor (x86-TSO at instruction granularity) and kernel. "
LIVE = "lost-wakeup,deadlock,no-progress"
def os_jobs():
    r = []
    for v in "freebsd freebsd8 freebsd7 dragonfly darwin16 darwin19 darwin20 openbsd openbsd6 netbsd windows sync".split():
        g = groups(0, "0 2 3 8") + " 2:2 3:2"; j = lambda scn, opts, w: r.append(J(v, g, scn, opts, w))
        j("wait", "fl=0", 2); j("wait", "fl=0 oom=1 nat=0", 0.3); j("bucket", "fl=0 near=1", 1); j("contend", "fl=0", 0.7); j("lin", "fl=0", 0.5); j("wait", "fl=9 ipc=1", 1); j("timed", "fl=9 ipc=1 near=1 pt=1", 1)
        # only these two pass absolute times to the system; the others are late if the system clock is set forward during the wait
        if v == "netbsd": j("timed", "fl=0 near=1", 1.5)
        elif v == "freebsd": j("timed", "fl=0 near=1 nat=1", 1); j("timed", "fl=0 near=1 pt=1", 1)
        else: j("timed", "fl=0 near=1 pt=1", 1.5)
    return r
def arm_jobs():
    r = []; A = "0 1 2 3 4 5 6 7 8"; j = lambda v, g, scn, opts, w: r.append(JL(v, g, scn, opts, w) if scn in ("pub", "sc", "flag") else J(v, g, scn, opts, w))
    g1 = groups(0, A) + " 10:0 2:1 3:1 8:1"; g2 = groups(0, "0 2 3 4 6 10") + " 2:2 3:2 4:2 3:3"; gf = groups(0, "0 2 3 4 6 8 10")
    j("arm64arch", g1, "lin", "", 2); j("arm64", g1, "lin", "", 1.5); j("arm64archlse", g1, "lin", "", 1); j("arm64archv84", g1, "lin", "", 1); j("arm64lse", g2, "lin", "", 0.5); j("arm64fb", gf, "lin", "", 0.7); j("arm64pt", gf, "lin", "", 0.5)
    j("arm64arch", g1, "pub", "", 2); j("arm64", g1, "pub", "", 1); j("arm64archlse", g1, "pub", "", 1); j("arm64archv84", g1, "pub", "", 1); j("arm64fb", gf, "pub", "", 1); j("arm64pt", gf, "pub", "", 0.5)
    j("arm64arch", g1, "sc", "", 1.5); j("arm64arch", g1, "sc", "glue=1", 1); j("arm64", g1, "sc", "", 1); j("arm64archlse", g1, "sc", "", 1); j("arm64archv84", g1, "sc", "", 1); j("arm64fb", gf, "sc", "", 1)
    j("arm64", g1, "wait", "", 1.5); j("arm64archlse", g1, "wait", "", 0.7); j("arm64fb", gf, "wait", "", 1); j("arm64pt", gf, "wait", "", 0.5); j("arm64fb", gf, "timed", "", 0.5); j("arm64", g1, "timed", "", 0.5)
    j("arm64pool1", groups(0, "0 2 3 4 8"), "bucket", "pool=1", 1); j("arm64pool1", groups(0, "0 2 3 4 8"), "contend", "", 1); j("arm64fb", gf, "contend", "", 1)
    j("arm64arch", g1, "prog", "", 0.7); j("arm64archlse", g1, "prog", "", 0.5); j("arm64fb", gf, "flag", "", 0.5); j("arm64arch", g1, "flag", "", 0.7)
    j("arm64lse", g2, "lin", "fl=9 ipc=1", 0.7); j("arm64lse", g2, "wait", "fl=9 ipc=1", 0.5)
    return r
def ppc_jobs():
    r = []; j = lambda v, g, scn, opts, w: r.append(JL(v, g, scn, opts, w) if scn in ("pub", "sc", "flag") else J(v, g, scn, opts, w))
    g1 = groups(0, "0 1 2 3 4 5 6 7 8") + " 10:0 0:1 2:1 3:1 8:1"; gf = groups(0, "0 1 2 3 4 6 8 10"); gi = groups(2, "0 1 2 3") + " 0:3 2:3 3:3"
    j("ppc64arch", g1, "lin", "", 2); j("ppc64archp7", g1, "lin", "", 2); j("ppc64", g1, "lin", "", 1); j("ppc64fb", gf, "lin", "", 0.5); j("ppc64pt", gf, "lin", "", 0.3)
    j("ppc64arch", g1, "pub", "", 2.5); j("ppc64archp7", g1, "pub", "", 1.5); j("ppc64", g1, "pub", "", 1); j("ppc64fb", gf, "pub", "", 1); j("ppc64pt", gf, "pub", "", 0.3)
    j("ppc64arch", g1, "sc", "", 1.5); j("ppc64arch", g1, "sc", "glue=1", 1); j("ppc64archp7", g1, "sc", "", 1); j("ppc64", g1, "sc", "", 0.7); j("ppc64fb", gf, "sc", "", 1)
    j("ppc64arch", g1, "wait", "", 1); j("ppc64archp7", g1, "wait", "", 1); j("ppc64fb", gf, "wait", "", 1); j("ppc64pt", gf, "wait", "", 0.3); j("ppc64fb", gf, "timed", "", 0.4); j("ppc64arch", g1, "timed", "", 0.4)
    j("ppc64pool1", gf, "bucket", "pool=1", 1); j("ppc64pool1", gf, "contend", "", 1); j("ppc64fb", gf, "contend", "", 0.7)
    j("ppc64arch", g1, "prog", "", 0.7); j("ppc64archp7", g1, "prog", "", 0.5); j("ppc64fb", gf, "flag", "", 0.4); j("ppc64arch", g1, "flag", "", 0.5)
    j("ppc64", gi, "lin", "fl=9 ipc=1", 0.5); j("ppc64", gi, "wait", "fl=9 ipc=1", 0.4)
    return r
PROPS = {
 "C01": P([
    J("sb", groups(0), "lin", "lf=1 fl=0", 3), J("base", groups(0, "0 1 2 3 5 6 7 9"), "lin", "lf=1 fl=0", 1),
    J("clang", groups(0, NOPAD), "lin", "lf=1 fl=0", 1.5), J("cx16", groups(0, "4 6 7 9"), "lin", "lf=1 fl=0", 1),
    J("arch", groups(0, "0 1 2 3 5"), "lin", "lf=1 fl=0", 1)],
    NOTE + "Histories of 2-4 threads with up to 8 operations each on 1-2 objects are checked for linearizability against independent bit-exact models."),
 "C02": P([
    J("fallback", groups(0, "0 2 4 5 6 7 8 9"), "lin", "lf=0 fl=0", 2), J("base", groups(0, "4 7 8"), "lin", "lf=0 fl=0", 1),
    J("pthread", groups(0, "8"), "lin", "lf=0 fl=0", 1), J("pthreadcw", groups(0, "1 3 8"), "lin", "lf=0 fl=0", 1),
    J("pool1", groups(0, "4 8"), "lin", "lf=0 fl=0", 1), J("pool4", groups(0, "4 8"), "lin", "lf=0 fl=0", 1), J("sb", groups(0, "8"), "lin", "lf=0 fl=0", 1)],
    NOTE + "As C01 for lock-emulated objects, with futex and POSIX lock pools of 1, 4 and 256 locks, stalls, EINTR and spurious wake-ups."),
 "C03": P([
    J("sb", groups(1) + " " + groups(3, "0 1 2 3 4 5 7"), "lin", "fl=1 mixref=1", 3), J("sb", groups(3, "0 1 2 3 4 5 7"), "lin", "fl=3 mixref=1", 1),
    J("base", groups(1, "0 2 3 5 6 8 9"), "lin", "fl=1", 1), J("clang", groups(1, "1 2 4 5 7 8"), "lin", "fl=1", 1), J("fallback", groups(1, "0 2 4 6 8 9"), "lin", "fl=1", 1), J("pthread", groups(1, "8"), "lin", "fl=1", 0.5)],
    NOTE + "Each operation is made through a freshly constructed reference (plain, volatile, const, copied, interprocess); histories must be linearizable and the referenced memory must hold the final value."),
 "C04": P([
    J("sb", groups(0) + " " + groups(1, "2 4 8 9"), "lin", "mix=2", 3), J("base", groups(0, "0 1 3 4 5 6 9"), "lin", "mix=2", 1), J("clang", groups(0, "0 1 2 3 4 7"), "lin", "mix=2", 1),
    J("cx16", groups(0, "4 7 9"), "lin", "mix=2", 1), J("arch", groups(0, "0 1 2 3"), "lin", "mix=2", 1), J("fallback", groups(0, "2 4 6 8 9"), "lin", "mix=2", 1), J("pthread", groups(0, "8"), "lin", "mix=2", 0.5)],
    NOTE + "Compare-exchange heavy mix incl. padding garbage; the weak form gets 64 attempts without interference."),
 "C05": P([
    J("sb", groups(0, "0 1 2 3 4 5") + " " + groups(1, "2"), "lin", "mix=3 cls=1", 3), J("base", groups(0, "0 1 2 3 5"), "lin", "mix=3 cls=1", 1), J("clang", groups(0, "0 1 2 3 4 5"), "lin", "mix=3 cls=1", 1.5),
    J("cx16", groups(0, "4"), "lin", "mix=3 cls=1", 1), J("arch", groups(0, "0 1 2 3 5"), "lin", "mix=3 cls=1", 1), J("fallback", groups(0, "0 2 3 4 5"), "lin", "mix=3 cls=1", 1)],
    NOTE + "Extended-operation mix over all operand patterns, bit indices and immediate operands."),
 "C06": P([
    J("sb", groups(0, "6") + " " + groups(1, "6"), "lin", "cls=2", 3), J("base", groups(0, "6"), "lin", "cls=2", 1), J("clang", groups(0, "6"), "lin", "cls=2", 1.5), J("cx16", groups(0, "6"), "lin", "cls=2", 1),
    J("fallback", groups(0, "6") + " " + groups(1, "6"), "lin", "cls=2", 1), J("pthreadcw", groups(0, "6"), "lin", "cls=2", 0.5)],
    NOTE + "float, double and long double incl. signed zeros, infinities and NaN operands (negation of NaN excluded: its sign is unspecified by the hardware models used)."),
 "C07": P([
    JL("sb", groups(0, "0 1 2 3 4 5 6 7 8 10") + " " + groups(1, "2 3 8"), "pub", "", 3), JL("clang", groups(0, "0 1 2 3 4 5 6 7 8 10"), "pub", "", 1.5), JL("base", groups(0, "0 2 3 5 7 8 10"), "pub", "", 1), JL("arch", groups(0, "0 1 2 3 10"), "pub", "", 1),
    JL("fallback", groups(0, "0 2 4 6 8 10"), "pub", "", 1), JL("pthread", groups(0, "0 3 8 10"), "pub", "", 0.7),
    JL("r", groups(0, "0 1 2 3 5 6 7 8 10") + " " + groups(1, "2 3 8"), "pub", "race=1", 3), JL("rfb", groups(0, "0 2 4 6 8 10"), "pub", "race=1", 2), JL("rpt", groups(0, "0 3 8 10"), "pub", "race=1", 1),
    JL("sb", groups(0, "0 1 2 3 4 5 6 7 8 10") + " " + groups(1, "2 3 8"), "sc", "glue=1", 2), JL("clang", groups(0, "0 1 2 3 4 5 6 7 8 10"), "sc", "glue=1", 1), JL("fallback", groups(0, "0 2 4 6 8 10"), "sc", "glue=1", 0.5)],
    NOTE + "Data accesses and the operation are compiled together in one function; the data read after an acquiring operation whose result proves that it follows the release must be the data published. Compiler reordering is exercised as the two compilers do it here; in the happens-before builds (-fsanitize=thread with our own runtime) every pair of conflicting accesses not ordered by the operations is reported whatever the schedule. In a further shape (sc with glue) all threads make read-modify-writes of one object, also ones that do not change it, between weaker operations on others; each synchronises with the next, so only sequentially consistent outcomes are possible. Operations made by inline assembly are release/acquire there as their annotations say.", ignore=LIVE),
 "C08": P([
    J("sb", groups(0) + " 10:0 " + groups(1, "2 3 8"), "sc", "", 3, lit(groups(0, "0 1 2 3 4 5 6 7 8 10") + " " + groups(1, "2 3 8"))), J("base", groups(0, "0 2 3 5 7 8 9 10"), "sc", "", 1, lit(groups(0, "0 2 3 5 7 8 10"))), JL("clang", groups(0, "0 1 2 3 4 5 6 7 8 10"), "sc", "", 1.5),
    JL("arch", groups(0, "0 1 2 3 10"), "sc", "", 1), J("cx16", groups(0, "4 6 7 9"), "sc", "", 1), JL("fallback", groups(0, "0 2 4 6 8 10"), "sc", "", 1), JL("pthread", groups(0, "0 3 8 10"), "sc", "", 0.7)],
    NOTE + "Programs of 2-4 threads over 2-4 objects of different sizes, lock-free and emulated mixed, of sequentially consistent operations and of weaker ones with sequentially consistent fences between them, under delayed stores; all total orders are searched for one that explains every result and the final values. Compiler reordering only in the shape operation, fence, load of another object.", ignore=LIVE),
 "C09": P([
    J("sb", groups(0, "0 1 2 3 4 6 7 8 10") + " " + groups(1, "2 3 8"), "wait", "", 3), J("base", groups(0, "0 2 3 5 7 8 9"), "wait", "", 1.5), J("clang", groups(0, "0 1 2 3 4 5 7 8"), "wait", "", 1),
    J("fallback", groups(0, "0 2 4 5 6 8 9 10"), "wait", "", 1), J("pthread", groups(0, "0 1 3 8 10"), "wait", "", 1), J("pthreadcw", groups(0, "1 3 8"), "wait", "", 1),
    J("sb", groups(0, "0 1 2 3 4 6 7 8") + " " + groups(1, "2 3 8"), "wait", "oom=1 nat=0", 1)],
    NOTE + "Waits (plain and timed) are loads of a value different from the old one in the linearizability check, under EINTR, spurious wake-ups, stalls, missing kernel features and allocation failures.", ignore=LIVE),
 "C10": P([
    J("sb", groups(0, "0 1 2 3 4 6 7 8 10") + " " + groups(1, "2 3 8"), "wait", "", 3), J("base", groups(0, "0 2 3 5 7 8 9"), "wait", "", 1.5), J("clang", groups(0, "0 1 2 3 4 5 7 8"), "wait", "", 1),
    J("fallback", groups(0, "0 2 4 5 6 8 9 10"), "wait", "", 1), J("pthread", groups(0, "0 1 3 8 10"), "wait", "", 1), J("pthreadcw", groups(0, "1 3 8"), "wait", "", 1), J("pool1", groups(0, "0 2 3 4 8"), "wait", "", 1)],
    NOTE + "After a final change and its notifications every waiter must finish without its (hours away) deadline; with k notify_one at least k of the waiters finish; blocked-for-ever threads are detected exactly.", ignore="wait-result,early-return,cas-no-progress"),
 "C11": P([
    J("pool1", groups(0, "0 2 3 4 8"), "bucket", "pool=1", 2), J("sse2", groups(0, "0 2 3 8"), "bucket", "pool=1", 1.5), J("pool4", groups(0, "1 2 3 4 8"), "bucket", "pool=4", 1.5), J("base", groups(0, "0 2 3 5 7 8 9"), "bucket", "", 1),
    J("sb", groups(0, "0 1 2 3 4 6 7 8") + " " + groups(1, "2 3 8"), "bucket", "", 1), J("clang", groups(0, "0 1 2 3 4 5 7 8"), "bucket", "", 1), J("fallback", groups(0, "0 2 4 5 6 8 9"), "bucket", "", 1),
    J("pthread", groups(0, "0 1 3 8"), "bucket", "", 1), J("pthreadcw", groups(0, "1 3 8"), "bucket", "", 1)],
    NOTE + "Up to 39 objects waited on at once, most of them in the same lock, some with the same low 32 address bits; in rounds started from rest the waiters of each object are counted after its notifications.", ignore="memory-bound,exit-leak"),
 "C12": P([
    J("sb", groups(0, "0 1 2 3 4 6 7 8 10") + " " + groups(1, "2 3 8") + " 2:2 3:2 0:2 1:2 2:3", "timed", "", 3), J("base", groups(0, "0 2 3 5 7 8 9"), "timed", "", 1), J("clang", groups(0, "0 1 2 3 4 5 7 8"), "timed", "", 1),
    J("fallback", groups(0, "0 2 4 5 6 8 9 10"), "timed", "", 1), J("pthread", groups(0, "0 1 3 8"), "timed", "pt=1", 1), J("pthreadcw", groups(0, "1 3 8"), "timed", "", 1),
    J("sb", groups(0, "0 1 2 3 4 6 7 8") + " " + groups(1, "2 3 8") + " 2:2 3:2 0:2 1:2 2:3", "timed", "oom=1", 1)],
    NOTE + "Deadlines past, near and years away on six clocks (steady, system, POSIX-traits and unrelated user clocks), clock adjustments, EINTR, spurious wake-ups, kernels without FUTEX_WAIT_BITSET, allocation failures; a wait may end at most 3 ms of simulated time after its deadline.", ignore="wait-result,lost-wakeup,deadlock"),
 "C13": P([
    J("sb", groups(0, "0 1 2 3 4 6 7 8") + " " + groups(1, "2 3 8"), "wait", "oom=1 nat=0", 3), J("base", groups(0, "0 2 3 5 7 8 9"), "wait", "oom=1 nat=0", 1), J("fallback", groups(0, "0 2 4 5 6 8 9"), "wait", "oom=1", 1),
    J("pthread", groups(0, "0 1 3 8"), "wait", "oom=1", 1), J("pthreadcw", groups(0, "1 3 8"), "wait", "oom=1", 1), J("pool1", groups(0, "0 2 3 4 8"), "wait", "oom=1 nat=0", 1), J("pool4", groups(0, "1 2 3 4 8"), "wait", "oom=1 nat=0", 1)],
    NOTE + "Every allocation made by the waiting machinery may fail (4 failure rates, optionally ending before the finale)."),
 "C14": P([
    J("pool1", groups(0, "0 2 3 4 8"), "bucket", "pool=1", 2), J("sse2", groups(0, "0 2 3 8"), "bucket", "pool=1", 1), J("pool4", groups(0, "1 2 3 4 8"), "bucket", "pool=4", 1), J("base", groups(0, "0 2 3 5 7 8 9"), "bucket", "", 1),
    J("clang", groups(0, "0 1 2 3 4 5 7 8"), "bucket", "", 1), J("fallback", groups(0, "0 2 4 5 6 8 9"), "bucket", "", 1), J("pthread", groups(0, "0 1 3 8"), "bucket", "", 1),
    J("pool1", groups(0, "0 2 3 4 8"), "bucket", "pool=1 oom=1", 1), J("pthread", groups(0, "0 1 3 8"), "bucket", "oom=1", 1), J("sb", groups(0, "0 1 2 3 4 6 7 8") + " " + groups(1, "2 3 8"), "bucket", "oom=1", 1)],
    NOTE + "Every allocation has red zones and is never reused after release within a run; block counts are compared with the number of objects waited on at once; the process may exit at any moment and go on running threads."),
 "C15": P([
    J("sb", groups(0, "0 1 2 3 4 5 6 7 8 9 10"), "prog", "", 3), J("sb", groups(1, "2 3 4 8"), "prog", "", 1), J("base", groups(0, "0 2 3 5 6 7 8"), "prog", "", 1), J("clang", groups(0, "0 1 2 3 4 5 6 7"), "prog", "", 1.5),
    J("cx16", groups(0, "4 6 7 9"), "prog", "", 1), J("arch", groups(0, "0 1 2 3 5"), "prog", "", 1), J("pthread", groups(0, "0 1 3 8"), "prog", "", 0.7)],
    NOTE + "Lock-free operations with other threads killed at any instruction, with all other threads suspended (at most 300 memory accesses per operation allowed, no blocking call) and with a signal handler running operations on the same objects at any instruction; other threads also use lock-emulated objects."),
 "C16": P([
    J("sb", groups(2, "0 1 2 3 4 5 6 7 9 10") + " " + groups(3, "0 1 2 3 4 5 7"), "lin", "fl=9 ipc=1", 3), J("base", groups(2, "0 2 3 5 6 7 9"), "lin", "fl=9 ipc=1", 1), J("clang", groups(2, "0 1 2 3 4 5 7"), "lin", "fl=9 ipc=1", 1.5),
    J("cx16", groups(2, "4 6 7 9"), "lin", "fl=9 ipc=1", 1), J("arch", groups(2, "0 1 2 3 5"), "lin", "fl=9 ipc=1", 1)],
    NOTE + "Three simulated processes with their own copy of the library's static data and heap map the objects at different addresses; processes are killed at any instruction. Operations whose process was killed may or may not have taken effect."),
 "C17": P([
    J("sb", groups(2, "0 1 2 3 4 6 7 10") + " " + groups(3, "2 3"), "wait", "fl=9 ipc=1", 3), J("sb", groups(2, "0 1 2 3 4 6 7 10") + " " + groups(3, "2 3"), "timed", "fl=9 ipc=1", 2), J("base", groups(2, "0 2 3 5 7"), "wait", "fl=9 ipc=1", 1), J("clang", groups(2, "0 1 2 3 4 7"), "wait", "fl=9 ipc=1", 1),
    J("clang", groups(2, "0 1 2 3 4 7"), "timed", "fl=9 ipc=1", 1), J("cx16", groups(2, "4 7"), "wait", "fl=9 ipc=1", 0.7)],
    NOTE + "Waiters and notifiers in three simulated processes with different mappings and separate library state; futexes keyed by page or by process as the call asks; processes killed at any instruction, also while asleep.", ignore="wait-result"),
 "C18": P([
    J("sb", groups(0) + " " + groups(1), "lin", "edge=1", 3), J("base", groups(0, "0 2 3 5 6 7 8 9") + " " + groups(1, "2 8"), "lin", "edge=1", 1), J("clang", groups(0) + " " + groups(1, "2 7 8"), "lin", "edge=1", 1.5),
    J("cx16", groups(0, "4 6 7 9"), "lin", "edge=1", 1), J("arch", groups(0, "0 1 2 3 5"), "lin", "edge=1", 1), J("fallback", groups(0, "0 2 4 5 6 7 8 9") + " " + groups(1, "2 8"), "lin", "edge=1", 1)],
    NOTE + "Objects packed as tightly as their alignment allows, at the first or last byte of accessible memory, with the adjacent bytes changed by another thread; every write of an operation is compared with the object's bounds.", ignore="not-linearizable,cas-no-progress"),
 "C19": P([
    J("pool1", groups(0, "0 2 3 4 8"), "contend", "", 2), J("pool4", groups(0, "1 2 3 4 8"), "contend", "", 1), J("fallback", groups(0, "0 2 4 5 6 7 8 9"), "contend", "", 2), J("pthread", groups(0, "0 1 3 8"), "contend", "", 1),
    J("pthreadcw", groups(0, "1 3 8"), "contend", "", 1), J("sse2", groups(0, "0 2 3 8"), "contend", "", 1), J("base", groups(0, "0 2 3 4 5 7 8 9"), "contend", "", 1)],
    NOTE + "Many threads contend for one or a few internal locks, with threads blocked in waits on objects of the same lock, stalled lock holders, EINTR, spurious and delayed wake-ups; blocked-for-ever threads are detected exactly, progress is bounded once scheduling is fair."),
 "C20": P([
    JL("sb", "10:0 10:2", "flag", "", 2), JL("sb", "10:2", "flag", "ipc=1 fl=9", 1), JL("base", "10:0 10:2", "flag", "", 1), JL("clang", "10:0 10:2", "flag", "", 1), JL("arch", "10:0", "flag", "", 0.7), JL("fallback", "10:0", "flag", "", 1), JL("pthread", "10:0", "flag", "", 1), JL("pool1", "10:0", "flag", "", 0.5),
    JL("r", "10:0 10:2", "flag", "race=1", 1), JL("rfb", "10:0", "flag", "race=1", 1), JL("rpt", "10:0", "flag", "race=1", 0.7),
    J("sb", "10:0 10:2", "lin", "cls=10", 0.7), J("sb", "10:2", "lin", "cls=10 ipc=1 fl=9", 0.5), J("clang", "10:0 10:2", "lin", "cls=10", 0.5), J("fallback", "10:0", "lin", "cls=10", 0.7),
    J("sb", "10:0 10:2", "wait", "cls=10", 1), J("sb", "10:2", "wait", "cls=10 ipc=1 fl=9", 0.7), J("base", "10:0", "wait", "cls=10", 0.5), J("clang", "10:0 10:2", "wait", "cls=10", 0.5), J("fallback", "10:0", "wait", "cls=10", 1), J("pthread", "10:0", "wait", "cls=10", 0.7), J("fallback", "10:0", "timed", "cls=10", 0.5)],
    NOTE + "Spin, wait and timed-wait locks and gates compiled from the flag; mutual exclusion, data visibility and progress; flag histories linearizable; waits and notifications of flags."),
 "C21": P(os_jobs(),
    NOTE + "The library is compiled as for FreeBSD (before 8, 8, 14), DragonFly, macOS (10.12, 10.15, 11), OpenBSD (before 7.1, 7.4), NetBSD and Windows, and as for a processor and compiler with nothing but the __sync intrinsics, from stub system headers with the real library headers and sources, and runs against models of those systems' waiting primitives, written from their manuals. "
    "The machine code is x86-64 code and the C library is that of Linux.", quick=30, assumptions=["the models of the other systems' primitives (compare and block, wake one or all, relative or absolute timeouts, error codes, interruptions, address-space-private or shared keys) are right"],
    stub=STUB + ["_umtx_op, umtx_sleep, __ulock_wait, futex, WaitOnAddress, SRW locks and condition variables, system headers (simulated)"]),
 "C22": P(arm_jobs(),
    NOTE.replace("(x86-TSO at instruction granularity)", "(AArch64 ordering as described)") + "The library is compiled for AArch64 (8.0, 8.1 with LSE, 8.4 with RCpc), through the compiler's intrinsics and through the library's own instruction sequences, and run by an interpreter that simulates out-of-order commit of stores, stale loads, exclusive reservations lost for no reason, and register-pair loads that are atomic only if their store succeeds. "
    "Load buffering (a load that sees a store later in program order of another thread's dependent chain) is not simulated. Linearizability is judged without real-time order, as relaxed operations promise.", quick=60,
    assume=["AArch64 code generated by clang 18, with x86-64 Linux library headers", "memory behaves like the simulated subset of the Armv8 model: one global order of committed stores, stores delayed and reordered, loads served from older states unless coherence, address dependencies, acquire/release or barriers forbid it; no load buffering",
        "a plain access of up to 8 aligned bytes is one step, wider ones are several"],
    real=["boost/atomic headers and src/lock_pool.cpp as compiled for AArch64 by clang 18 with optimisation, every machine instruction (interpreted)"], stub=STUB + ["the processor (interpreter)", "long double operations (left out)"]),
 "C23": P(ppc_jobs(),
    NOTE.replace("(x86-TSO at instruction granularity)", "(PowerPC ordering as described)") + "The library is compiled for 64-bit little-endian PowerPC (Power7 without and Power8 with byte and halfword reservations), through the compiler's intrinsics and through the library's own instruction sequences, and run by an interpreter that simulates out-of-order commit of stores, stale loads limited by sync, lwsync and branch-plus-isync, and reservations lost for no reason. "
    "Stores become visible to all other threads at once and load buffering is not simulated. Linearizability is judged without real-time order, as relaxed operations promise.", quick=60,
    assume=["little-endian 64-bit PowerPC code generated by clang 18, with x86-64 Linux library headers; 32-bit and big-endian PowerPC are not simulated", "memory behaves like the simulated subset of the Power model: one global order of committed stores (multi-copy atomic), stores delayed and reordered, loads served from older states unless coherence, address dependencies or barriers forbid it; no load buffering",
        "a plain access of up to 8 aligned bytes is one step, wider ones are several"],
    real=["boost/atomic headers and src/lock_pool.cpp as compiled for PowerPC by clang 18 with optimisation, every machine instruction (interpreted)"], stub=STUB + ["the processor (interpreter)", "long double operations (left out)"]),
}
NOT_APPLICABLE = {
 "C30": "A fact about compile-time constant initialisation: no schedule, clock, fault or other nondeterminism for a simulator to control.",
 "C31": "A fact about what compiles: nothing executes, so nothing can be simulated.",
 "C32": "Consistency of constants: the same in every execution, no schedule, clock, fault or history enters it.",
 "C33": "Needs code generators and models of processors (32-bit ARM, Alpha, SPARC) and of a compiler (MSVC) that are not simulated here; AArch64 is covered by C22, the other systems' primitives by C21.",
}
