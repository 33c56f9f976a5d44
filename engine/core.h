// Internal state shared by the fast path (hook.cpp) and the simulator proper.
#pragma once
#include <cstdint>
#include "sim.h"
enum { A_READ = 1, A_WRITE = 2, A_RMW = 3, A_LOCKED = 4, A_FENCE = 5, A_PAUSE = 6, A_UNKNOWN = 7 };
struct SBEnt { uint64_t a; uint32_t n; uint8_t old[32], nw[32]; };
enum FState { F_FREE, F_RUN, F_BLOCKED, F_QUIESCE, F_STALLED, F_DONE, F_KILLED };
enum BKind { B_NONE, B_FUTEX, B_SLEEP, B_MUTEX, B_COND, B_GUARD };
struct Fiber {
    void* rsp; int id; int state; int proc; uint64_t acc; uint64_t nextp;
    uint32_t cnt[sim::NKIND];
    SBEnt sb[sim::SBN]; int sbn;
    int err; int bkind; uint64_t key, key2; uint32_t bitset; bool has_deadline; bool deadline_real; int64_t deadline; // ns on its clock
    bool has_spur; uint64_t spur; int spur_res; int wake_res; bool timed_out; uint64_t bseq;
    uint64_t mon_lo, mon_hi, g_lo, g_hi; bool mon;
    bool libw; uint64_t libt, libb; bool daemon, prot;
    uint32_t prio; sim::fiber_fn fn; int arg; sim::fiber_fn handler; int sigdepth; uint64_t stall_until;
    uint32_t handlers_run;
};
struct Core {
    int active; bool tso; bool bad; int64_t countdown; uint64_t steps, base_steps; Fiber* cur;
    uint64_t heap_lo, heap_hi; uint64_t sut_lo, sut_hi, bss_lo, bss_hi; const char* badcls; uint64_t badaddr; uint32_t badkind;
    uint64_t locked, plain_stores, buffered;
};
extern "C" { extern Core C; extern uint8_t* const sim_shadow; 
int sim_hook_c(uint64_t kind, uint64_t addr); void sim_hook_slow(uint64_t kind, uint64_t addr); }
#define ARENA_BASE 0x100000000000ull
#define FARENA_BASE 0x0fff00000000ull
#define ARENA_END  0x1000f0000000ull
#define HEAP_BASE  0x100100000000ull
#define HEAP_SIZE  (32ull << 20)
#define SHADOW_BASE 0x100200000000ull
#define STACK_BASE 0x100300000000ull
#define STACK_SIZE (256ull << 10)
#define ARENA2_BASE 0x100040000000ull
#define ARENA3_BASE 0x100080000000ull
