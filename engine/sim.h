// Deterministic simulator: public interface used by harness code.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>

namespace sim {

enum { MAXF = 48, SBN = 24, MAXPROC = 3 };

// kinds of choices (trace entries)
enum Kind { K_PREEMPT, K_NEXT, K_DRAIN, K_DRAINO, K_EINTR, K_SPUR, K_DELAY, K_WAKEORD, K_OOM, K_JUMP, K_STALL, K_KILL, K_SIG, K_ADV, K_LATE, K_ENOSYS, K_STALE, K_SPURX, NKIND };
extern const char* const kind_name[NKIND];

// per-run configuration chosen by the scenario (probabilities are out of 65536)
struct Config {
    uint32_t p[NKIND];          // probability of a non-default choice
    int strategy;               // 0 random geometric, 1 PCT-like
    uint32_t mean_gap;          // mean number of accesses between preemptions
    bool tso;                   // simulate store buffers
    bool no_wait_bitset;        // kernel without FUTEX_WAIT_BITSET
    uint64_t step_ns;           // simulated time per access
    uint64_t fair_after;        // steps after which scheduling becomes fair and faults stop
    uint64_t max_steps;         // steps after which the run is a liveness violation
    int64_t max_jump;           // largest jump of the adjustable clock
    bool spin_yield;            // pause always yields
    bool kill_process;          // a kill ends all threads of the process
    int cpu_level;              // 0 none 1 sse2 2 sse4.1 (address search implementation)
};
extern Config cfg;

struct Rng { uint64_t s; uint64_t next(); uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 32) * (uint64_t)n >> 32) : 0; } };
extern Rng wrng;                             // workload generation
inline uint32_t gen(uint32_t n) { return wrng.below(n); }
inline bool chance(uint32_t num, uint32_t den) { return gen(den) < num; }
bool dropped(int thread, int op);            // operation removed by the minimiser

// fibers
typedef void (*fiber_fn)(int arg);
int spawn(fiber_fn fn, int arg, int proc = 0);
void set_handler(int fiber, fiber_fn fn);    // signal handler that may interrupt the fiber anywhere
int self();
int signal_depth();
bool done(int fiber);
bool blocked(int fiber);                     // blocked in the kernel
bool killed(int fiber);
void wait_quiescent();                       // block until no other fiber can run and no timer is pending
void sleep_ns(uint64_t ns);                  // block the fiber for simulated time
void yield();
void set_daemon(int fiber);                  // may be left blocked at the end of the run
void stall_all_but(int fiber);               // suspend the others until release_all
void release_all();
void protect_from_stall(int fiber, bool on); // never chosen for stall/kill faults
void set_fair();                             // stop faults and schedule fairly from now on
bool is_fair();
uint64_t fiber_steps(int fiber);             // accesses made by the fiber

// time
uint64_t mono_now();                         // ns, CLOCK_MONOTONIC
int64_t real_now();                          // ns, CLOCK_REALTIME
int64_t real_offset_min();                   // extreme values of (real - mono) seen so far in this run
int64_t real_offset_max();
bool jumped_since(uint64_t mono);            // the system clock was adjusted at or after that moment
bool reached_within(bool real, int64_t deadline, uint64_t mono);   // the clock showed the deadline or later at some moment since
uint64_t reached_since(bool real, int64_t deadline);               // since when it has been doing so without interruption (~0: it does not)

uint64_t stamp();                            // next event number
uint64_t steps();

// memory
extern unsigned char* const ARENA;           // shared objects; 1 MB
extern unsigned char* const ARENA2;          // the same pages mapped elsewhere
extern unsigned char* const ARENA3;
extern unsigned char* const FARENA;          // other pages; same low 32 address bits as ARENA
enum { ARENA_SIZE = 16 << 20 };
void arena_use(size_t lo, size_t hi); void arena_use_at(void* lo, void* hi);        // declare a used range (cleared between runs)
void guard_page(size_t off, bool on);        // make the arena page inaccessible
struct HeapStat { uint64_t live_blocks, live_bytes, peak_blocks, allocs, fails; };
HeapStat heap_stat(int proc = -1);
void run_atexit(int proc);                   // called on a fiber: normal process exit
int atexit_count(int proc);
bool lib_address(const void* p);             // address belongs to the library's own static data or heap

// access monitor: during an operation, writes in [glo,ghi) but outside [lo,hi) are violations
void monitor(const void* lo, const void* hi, const void* glo, const void* ghi);
void monitor_off();
// no-lock monitor: while on, any access to the library's static data or heap, or a blocking call, is recorded
void lib_watch(bool on);
uint64_t lib_touches();                      // count since lib_watch(true)
uint64_t lib_blocks();                       // blocking calls made since lib_watch(true)

// plain accesses to the memory of a lock-free atomic object (inline assembly reads it ahead of a locked instruction) are not races
void race_atomic(const void* lo, const void* hi);

// result
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // verbose log
extern bool verbose;
void mix(uint64_t v);                        // add to the run's event hash
void mix_sig(uint64_t v);                    // add to the run's program signature
void probe(int id);                          // rare-condition probe (0..31)
void probe_name(int id, const char* name);

// scenario registry
struct Scenario { const char* name; void (*setup)(); void (*check)(); Scenario* next; };
void register_scenario(Scenario*);
struct Reg { Scenario s; Reg(const char* n, void (*su)(), void (*ch)()) { s = { n, su, ch, nullptr }; register_scenario(&s); } };
int64_t opt(const char* name, int64_t def);  // scenario options
std::string opts(const char* name, const char* def);

void default_config();                       // fills cfg with swarm-style random choices (uses wrng)
const char* variant();
bool weak_build();                           // the code under test was compiled for a processor with weak memory ordering
void finish_stores();                        // the calling thread's delayed stores reach memory
bool weak_memory();                          // this run simulates AArch64 memory ordering: no real-time order between threads
}
