// Deterministic simulator: fibers, scheduler, store buffers, kernel and libc models, replay, minimiser, main.
#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>

using namespace sim;
extern "C" {
Core C;
uint8_t* const sim_shadow = (uint8_t*)SHADOW_BASE;
void sim_swap(void** save, void* load);
void sim_entry();
void sim_sb_log(Fiber* f, uint32_t n, uint64_t a);
extern char __start_sutdata[] __attribute__((weak)), __stop_sutdata[] __attribute__((weak));
extern char __start_sutbss[] __attribute__((weak)), __stop_sutbss[] __attribute__((weak));
extern int sim_cpu_level_dummy;
}
void tsan_reset();                 // race detector (tsan.cpp)
void tsan_switch(int);
void tsan_spawn(int parent, int child);
void tsan_mutex_acquire(uint64_t key);
void tsan_mutex_release(uint64_t key);
void tsan_free(uint64_t a, uint64_t n);
void tsan_access(uint64_t a, uint32_t n, bool write);
extern bool tsan_present;
extern "C" { extern const int sim_a64_mode __attribute__((weak)); }
static const bool a64_present = &sim_a64_mode != nullptr;
namespace a64 {                    // AArch64 machine (arm64.inc)
static bool used, weak;
static void reset(); static void drain(Fiber*); static void barrier(Fiber*); static void sees_all(Fiber*); static void maybe_commit(Fiber*); static void interrupted(Fiber*); static void drain_everyone();
static bool copy(void* d, const void* s, size_t n, int dir);
}
static uint64_t phys(uint64_t a) {
    if (a >= ARENA_BASE && a < ARENA_BASE + ARENA_SIZE) return a - ARENA_BASE;
    if (a >= ARENA2_BASE && a < ARENA2_BASE + ARENA_SIZE) return a - ARENA2_BASE;
    if (a >= ARENA3_BASE && a < ARENA3_BASE + ARENA_SIZE) return a - ARENA3_BASE;
    if (a >= FARENA_BASE && a < FARENA_BASE + ARENA_SIZE) return a - FARENA_BASE + (1ull << 40);
    return ~0ull;
}

namespace sim {
Config cfg; Rng wrng; static Rng srng; bool verbose = false;
unsigned char* const ARENA = (unsigned char*)ARENA_BASE;
unsigned char* const ARENA2 = (unsigned char*)ARENA2_BASE;
unsigned char* const ARENA3 = (unsigned char*)ARENA3_BASE;
unsigned char* const FARENA = (unsigned char*)FARENA_BASE;
const char* const kind_name[NKIND] = { "preempt", "next", "drain", "drain_other", "eintr", "spurious", "delay", "wake_order", "alloc_fail", "clock_jump", "stall", "kill", "signal", "advance", "late", "enosys", "stale", "spurious_stxr" };

uint64_t Rng::next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t mix64(uint64_t a, uint64_t b) { Rng r{ a * 0x9e3779b97f4a7c15ull ^ (b + 0x632be59bd9b4e019ull) }; r.next(); return r.next(); }

static Fiber F[MAXF]; static int NF; static Fiber mainf;
static uint64_t cur_seed;
static uint64_t now_base; static int64_t rt_off, rt_min, rt_max;
static uint64_t seqno, evhash, progsig; static bool fair; static uint64_t blockseq;
struct Jump { uint64_t at; int64_t off; };                       // offset in force until the jump at mono time `at`
static std::vector<Jump> jumps;
static bool replaying;
struct TE { uint8_t f; uint8_t k; uint64_t idx; uint32_t v; };
static std::vector<TE> trace;                                  // decisions taken in this run
struct TK { uint64_t h; };
static std::unordered_map<uint64_t, uint32_t> rmap;            // replay decisions
static std::vector<uint64_t> rpre[MAXF]; static size_t rprei[MAXF];
static std::vector<std::pair<int,int>> drops;
static uint64_t tk(int f, int k, uint64_t idx) { return ((uint64_t)f << 56) | ((uint64_t)k << 48) | (idx & 0xffffffffffffull); }
// statistics over all runs
static uint64_t st_kind[NKIND], st_probe[32]; static uint64_t st_steps, st_switch, st_simns, st_runs, st_nontrivial, st_fair; static const char* probe_names[32];
static uint64_t run_switches, run_faults;
static std::vector<uint8_t> sigbits(1 << 22); // 32M-bit map of schedule signatures
// violation of the current run
static bool viol; static std::string vcls, vmsg; static bool ignored_end; static uint64_t st_ignored;
static jmp_buf crash_jb; static volatile bool in_run;
static uint64_t heap_next; static std::map<uint64_t, std::pair<uint32_t,int>> blocks; // addr -> size, proc
static HeapStat hs[MAXPROC];
static std::vector<void(*)()> atex[MAXPROC];
static std::vector<std::pair<unsigned char*,size_t>> used;
static std::vector<uint8_t> snap_data, snap_bss, pdata[MAXPROC]; static int curproc;
static std::vector<size_t> guards;
static int stall_keep = -1;
static std::map<std::string,std::string> options;
static Scenario* scenarios;
void register_scenario(Scenario* s) { s->next = scenarios; scenarios = s; }
int64_t opt(const char* n, int64_t d) { auto i = options.find(n); return i == options.end() ? d : atoll(i->second.c_str()); }
std::string opts(const char* n, const char* d) { auto i = options.find(n); return i == options.end() ? d : i->second; }
const char* variant() { static std::string v; v = opts("variant", "?"); return v.c_str(); }
static uint64_t sutsize() { return (__stop_sutdata - __start_sutdata); }
static uint64_t bsssize() { return (__stop_sutbss - __start_sutbss); }

void mix(uint64_t v) { evhash = (evhash ^ v) * 0x100000001b3ull; evhash ^= evhash >> 29; }
void mix_sig(uint64_t v) { progsig = (progsig ^ v) * 0x100000001b3ull; progsig ^= progsig >> 31; }
uint64_t stamp() { return ++seqno; }
uint64_t steps() { return C.steps; }
void probe(int id) { st_probe[id]++; }
void probe_name(int id, const char* n) { probe_names[id] = n; }
int self() { return C.cur ? C.cur->id : -1; }
int signal_depth() { return C.cur ? C.cur->sigdepth : 0; }
bool dropped(int t, int o) { for (auto& d : drops) if (d.first == t && d.second == o) return true; return false; }
uint64_t mono_now() { return now_base + (C.steps - C.base_steps) * cfg.step_ns; }
static void advance_to(uint64_t t) { uint64_t n = mono_now(); if (t > n) { now_base += t - n; } }
int64_t real_now() { return (int64_t)mono_now() + rt_off; }
bool jumped_since(uint64_t m0) { return !jumps.empty() && jumps.back().at >= m0; }
bool reached_within(bool real, int64_t d, uint64_t m0) {
    int64_t n = (int64_t)mono_now(); if (!real) return n >= d;
    for (auto& j : jumps) if (j.at >= m0 && (int64_t)j.at + j.off >= d) return true;
    return n + rt_off >= d;
}
uint64_t reached_since(bool real, int64_t d) {
    int64_t n = (int64_t)mono_now(), off = real ? rt_off : 0; if (n + off < d) return ~0ull;
    int64_t cross = d - off;                               // where the present offset crosses the deadline
    if (real) for (size_t i = jumps.size(); i-- > 0;) { int64_t at = (int64_t)jumps[i].at; if (cross > at) break; if (at + jumps[i].off < d) { cross = at; break; } cross = d - jumps[i].off; }
    return cross < 0 ? 0 : (uint64_t)cross;
}
int64_t real_offset_min() { return rt_min; }
int64_t real_offset_max() { return rt_max; }
void note(const char* fmt, ...) { if (!verbose) return; va_list a; va_start(a, fmt); printf("  [%6llu t%d] ", (unsigned long long)C.steps, self()); vprintf(fmt, a); printf("\n"); va_end(a); fflush(stdout); }

[[noreturn]] static void end_run();
void fail(const char* cls, const char* fmt, ...) {
    char b[1600]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    auto ig = options.find("ignore");       // classes that belong to another property: the run ends without a verdict
    if (ig != options.end() && ("," + ig->second + ",").find("," + std::string(cls) + ",") != std::string::npos) { if (!viol && !ignored_end) { ignored_end = true; st_ignored++; note("run ends: %s (not judged here): %s", cls, b); } }
    else if (!viol) { viol = true; vcls = cls; vmsg = b; note("VIOLATION %s: %s", cls, b); }
    if (in_run && C.cur != &mainf) end_run();
    longjmp(crash_jb, 2);
}

static uint32_t choose(Fiber* f, int k, uint32_t n) {
    uint32_t c = f->cnt[k]++;
    uint32_t v = 0;
    if (replaying) { auto i = rmap.find(tk(f->id, k, c)); if (i != rmap.end()) v = i->second; if (v >= n) v = n ? n - 1 : 0; if (!cfg.p[k]) v = 0; }
    else if (n > 1 && cfg.p[k] && (srng.next() & 0xffff) < cfg.p[k]) v = 1 + srng.below(n - 1);
    if (v) { trace.push_back({ (uint8_t)f->id, (uint8_t)k, c, v }); st_kind[k]++; if (k >= K_EINTR) run_faults++; mix((uint64_t)k << 40 | (uint64_t)f->id << 32 | v); }
    return v;
}

// choice made at a decision point of fiber f: keyed by its access index so that replay need not visit the same other points
static uint32_t choose_at(Fiber* f, int k, uint32_t sub, uint32_t n) {
    uint64_t idx = f->acc * 16 + sub; uint32_t v = 0;
    if (replaying) { auto i = rmap.find(tk(f->id, k, idx)); if (i != rmap.end()) v = i->second; if (v >= n) v = n ? n - 1 : 0; if (!cfg.p[k]) v = 0; }
    else if (n > 1 && cfg.p[k] && (srng.next() & 0xffff) < cfg.p[k]) v = 1 + srng.below(n - 1);
    if (v) { trace.push_back({ (uint8_t)f->id, (uint8_t)k, idx, v }); st_kind[k]++; if (k >= K_EINTR) run_faults++; mix((uint64_t)k << 40 | (uint64_t)f->id << 32 | v); }
    return v;
}

// ---- store buffers
static inline void wr(uint64_t a, const uint8_t* s, uint32_t n) { memcpy((void*)a, s, n); }
static void sb_undo(Fiber* f);
static void sb_suspend(Fiber* f) {
    if (!f->sbn) return;
    uint32_t keep = fair ? 0 : choose(f, K_DRAIN, f->sbn + 1);
    if (f->state == F_DONE || f->state == F_KILLED) keep = 0;
    int drop = f->sbn - (int)keep;
    if (drop > 0) { memmove(&f->sb[0], &f->sb[drop], sizeof(SBEnt) * keep); f->sbn = keep; }
    sb_undo(f);
}
static void sb_resume(Fiber* f) { for (int i = 0; i < f->sbn; ++i) { SBEnt& e = f->sb[i]; memcpy(e.old, (void*)e.a, e.n); wr(e.a, e.nw, e.n); } }
static void swap_proc(int p);
static void sb_undo(Fiber* f) { for (int i = f->sbn - 1; i >= 0; --i) { SBEnt& e = f->sb[i]; memcpy(e.nw, (void*)e.a, e.n); wr(e.a, e.old, e.n); } }
static void sb_commit_other(Fiber* f, int k) {     // f is suspended; commit its k oldest stores
    Fiber* me = C.cur != f ? C.cur : nullptr;      // the running fiber's own buffered stores stay on top in its view
    if (me && me->sbn) sb_undo(me);
    int sp = curproc; if (f->proc != curproc) swap_proc(f->proc);
    for (int i = 0; i < k; ++i) wr(f->sb[i].a, f->sb[i].nw, f->sb[i].n);
    if (sp != curproc) swap_proc(sp);
    memmove(&f->sb[0], &f->sb[k], sizeof(SBEnt) * (f->sbn - k)); f->sbn -= k;
    if (me && me->sbn) sb_resume(me);
}

static void swap_proc(int p) {
    if (p == curproc) return;
    uint64_t n = sutsize(), m = bsssize();
    if (pdata[curproc].size() != n + m) pdata[curproc].resize(n + m);
    memcpy(pdata[curproc].data(), __start_sutdata, n); memcpy(pdata[curproc].data() + n, __start_sutbss, m);
    memcpy(__start_sutdata, pdata[p].data(), n); memcpy(__start_sutbss, pdata[p].data() + n, m);
    curproc = p;
}

static inline bool runnable(Fiber* f) { return f->state == F_RUN; }

// varying, so that no loop can stay in step with the scheduler
static int fair_quantum() { return 16 + (int)((C.steps * 0x9e3779b97f4a7c15ull ^ C.steps >> 3) * 0xbf58476d1ce4e5b9ull >> 58); }
static void set_countdown(Fiber* f) {
    if (replaying) {
        if (fair) { C.countdown = fair_quantum(); return; }
        auto& v = rpre[f->id]; size_t& i = rprei[f->id];
        while (i < v.size() && v[i] <= f->acc) ++i;
        C.countdown = i < v.size() ? (int64_t)(v[i] - f->acc) : (int64_t)1 << 20;
        int64_t tofair = (int64_t)cfg.fair_after - (int64_t)C.steps; if (tofair < 1) tofair = 1; if (C.countdown > tofair) C.countdown = tofair;
        return;
    }
    if (fair) { C.countdown = fair_quantum(); return; }
    if (cfg.mean_gap == 0) C.countdown = 1 << 20;
    else if (cfg.mean_gap == 1) C.countdown = 1;
    else {
        // geometric-like: exponential with integer arithmetic
        uint64_t r = srng.next(); uint32_t lead = 0; while (!(r & 1) && lead < 20) { r >>= 1; ++lead; }
        uint32_t base = (uint32_t)(lead * cfg.mean_gap * 7 / 10);
        C.countdown = 1 + base + srng.below(cfg.mean_gap * 7 / 10 + 1);
    }
    int64_t tofair = (int64_t)cfg.fair_after - (int64_t)C.steps; if (tofair < 1) tofair = 1; if (C.countdown > tofair) C.countdown = tofair;
}

static void timers() {
    uint64_t n = mono_now(); int64_t rn = (int64_t)n + rt_off;
    for (int i = 0; i < NF; ++i) {
        Fiber* f = &F[i];
        if (f->state == F_STALLED && !fair && f->stall_until && f->stall_until <= n && stall_keep < 0) { f->state = F_RUN; f->stall_until = 0; continue; }
        if (f->state != F_BLOCKED) continue;
        if (f->has_spur && f->spur <= n) { f->state = F_RUN; f->wake_res = f->spur_res; f->has_spur = false; note("t%d spurious wake (%d)", i, f->spur_res); continue; }
        if (f->has_deadline && f->deadline <= (f->deadline_real ? rn : (int64_t)n)) { f->state = F_RUN; f->wake_res = -ETIMEDOUT; f->timed_out = true; if (f->bkind != B_SLEEP) probe(29); }
    }
}
// next timer in mono ns, or UINT64_MAX
static uint64_t next_timer() {
    uint64_t best = ~0ull;
    for (int i = 0; i < NF; ++i) {
        Fiber* f = &F[i];
        if (f->state == F_STALLED && f->stall_until && stall_keep < 0) best = std::min(best, f->stall_until);
        if (f->state != F_BLOCKED) continue;
        if (f->has_spur) best = std::min(best, f->spur);
        if (f->has_deadline) { int64_t d = f->deadline_real ? f->deadline - rt_off : f->deadline; if (d < 0) d = 0; best = std::min(best, (uint64_t)d); }
    }
    return best;
}

static void enter_fair() { if (fair) return; fair = true; a64::drain_everyone(); st_fair++; note("fair phase"); for (int i = 0; i < NF; ++i) { Fiber* f = &F[i]; if (f->state == F_STALLED) f->state = F_RUN; f->stall_until = 0; if (f != C.cur && f->sbn) { sb_commit_other(f, f->sbn); } } C.tso = false; stall_keep = -1; C.countdown = fair_quantum();
    if (C.cur && C.cur != &mainf) C.cur->sbn = 0; }
void set_fair() { enter_fair(); }
bool is_fair() { return fair; }
bool weak_build() { return a64_present; }
void finish_stores() { a64::drain(C.cur); }
bool weak_memory() { return a64_present && cfg.tso; }

static void switch_to(Fiber* n) {
    Fiber* o = C.cur;
    if (o == n) { set_countdown(n); return; }
    o->err = errno;
    sb_suspend(o);
    if (n->proc != curproc) swap_proc(n->proc);
    sb_resume(n);
    if (verbose) note("switch t%d@%llu -> t%d@%llu", o->id, (unsigned long long)o->acc, n->id, (unsigned long long)n->acc);
    C.cur = n; run_switches++; st_switch++;
    mix(((uint64_t)n->id << 32) ^ o->acc ^ ((uint64_t)o->id << 48));
    set_countdown(n);
    if (tsan_present) tsan_switch(n->id);
    sim_swap(&o->rsp, n->rsp);
    errno = C.cur->err;
}

[[noreturn]] static void end_run() {
    C.active = 0; Fiber* o = C.cur; C.cur = &mainf;
    sim_swap(&o->rsp, mainf.rsp);
    __builtin_unreachable();
}

static void check_limits() {
    if (!fair && C.steps >= cfg.fair_after) enter_fair();
    if (C.steps >= cfg.max_steps) {
        std::string s; for (int i = 0; i < NF; ++i) { char b[96]; snprintf(b, sizeof b, " t%d:%s", i, F[i].state == F_RUN ? "running" : F[i].state == F_BLOCKED ? "blocked" : F[i].state == F_DONE ? "done" : F[i].state == F_KILLED ? "killed" : F[i].state == F_QUIESCE ? "waiting-for-quiescence" : "stalled"); s += b; }
        fail("no-progress", "not finished after %llu steps (%llu of them scheduled fairly without faults):%s", (unsigned long long)C.steps, (unsigned long long)(cfg.max_steps - cfg.fair_after), s.c_str());
    }
}

// pick the next fiber to run when the current one cannot continue (or yields); never returns null (ends the run instead)
static Fiber* pick_next(Fiber* cur, bool yielding) {
    for (;;) {
        timers();
        Fiber* cand[MAXF]; int n = 0;
        for (int d = 1; d <= NF; ++d) { Fiber* f = &F[(cur->id + d) % NF]; if (runnable(f) && !(yielding && f == cur)) cand[n++] = f; }
        if (n) {
            if (fair) { return cand[0]; }
            if (!replaying && cfg.strategy == 1 && n > 1) {
                // highest priority
                int b = 0; for (int i = 1; i < n; ++i) if (cand[i]->prio > cand[b]->prio) b = i;
                uint32_t c = cur->cnt[K_NEXT]++;
                if (b) { trace.push_back({ (uint8_t)cur->id, K_NEXT, c, (uint32_t)cand[b]->id + 1 }); mix(b); st_kind[K_NEXT]++; }
                return cand[b];
            }
            uint32_t v = choose(cur, K_NEXT, NF + 1);
            if (v && runnable(&F[v - 1]) && !(yielding && &F[v - 1] == cur)) return &F[v - 1];
            return cand[0];
        }
        if (yielding && runnable(cur)) {
            // nobody else can run now: let time pass if someone is waiting for it
            uint64_t t = next_timer();
            if (t != ~0ull && !fair && choose(cur, K_ADV, 2)) { advance_to(t); continue; }
            return cur;
        }
        uint64_t t = next_timer();
        if (t != ~0ull && stall_keep < 0 && t > mono_now() + 5000000) {   // an indefinite stall ends rather than outlasting a distant timer
            bool rel = false; for (int i = 0; i < NF; ++i) if (F[i].state == F_STALLED) { F[i].state = F_RUN; F[i].stall_until = 0; rel = true; }
            if (rel) continue;
        }
        if (t != ~0ull) { C.steps += 10; C.base_steps += 10; advance_to(t); check_limits(); continue; }
        bool again = false;
        for (int i = 0; i < NF; ++i) if (F[i].state == F_STALLED && stall_keep < 0) { F[i].state = F_RUN; F[i].stall_until = 0; again = true; }
        if (again) continue;
        for (int i = 0; i < NF && !again; ++i) if (F[i].state == F_QUIESCE) { F[i].state = F_RUN; again = true; }
        if (again) continue;
        for (int i = 0; i < NF; ++i) if (F[i].state == F_STALLED) { F[i].state = F_RUN; F[i].stall_until = 0; again = true; stall_keep = -1; }
        if (again) continue;
        bool all = true; std::string s;
        for (int i = 0; i < NF; ++i) if (F[i].state != F_DONE && F[i].state != F_KILLED && !F[i].daemon) { all = false; char b[80]; snprintf(b, sizeof b, " t%d (blocked on %s %llx)", i, F[i].bkind == B_FUTEX ? "futex" : F[i].bkind == B_MUTEX ? "mutex" : F[i].bkind == B_COND ? "condition" : "?", (unsigned long long)F[i].key); s += b; }
        if (!all) fail("deadlock", "threads blocked for ever:%s", s.c_str());
        end_run();
    }
}

static void draws_for_others(Fiber* f) {
    if (a64::weak && !fair) a64::maybe_commit(f);
    if (!C.tso || fair) return;
    for (int i = 0; i < NF; ++i) { Fiber* o = &F[i]; if (o != f && o->sbn && o->state != F_DONE) { uint32_t v = choose_at(f, K_DRAINO, i, o->sbn + 1); if (v) sb_commit_other(o, v); } }
}

static void clock_jump(Fiber* f) {
    if (fair || !cfg.p[K_JUMP]) { if (!replaying) return; }
    uint32_t v = choose_at(f, K_JUMP, 0, 16);
    if (v) {
        static const int64_t mag[8] = { 1, 1000, 1000000, 50000000, 1000000000, 60000000000ll, 3600000000000ll, 86400000000000ll };
        int64_t j = mag[v & 7]; if (v & 8) j = -j; if (cfg.max_jump && (j > cfg.max_jump || -j > cfg.max_jump)) j = j > 0 ? cfg.max_jump : -cfg.max_jump;
        if (real_now() + j > 1000000000) { jumps.push_back({ mono_now(), rt_off }); rt_off += j; rt_min = std::min(rt_min, rt_off); rt_max = std::max(rt_max, rt_off); note("system clock jumps by %lld ns", (long long)j); timers(); }
    }
}

static void run_signal(Fiber* f) {
    note("signal delivered to t%d", f->id);
    f->sbn = 0; f->sigdepth++; f->handlers_run++; int e = errno; fiber_fn h = f->handler; bool m = f->mon; f->mon = false; uint64_t ml = f->mon_lo, mh = f->mon_hi, gl = f->g_lo, gh = f->g_hi; bool lw = f->libw; f->libw = false; a64::interrupted(f);
    h(f->arg);
    a64::interrupted(f);
    f->mon = m; f->libw = lw; f->mon_lo = ml; f->mon_hi = mh; f->g_lo = gl; f->g_hi = gh;
    f->sbn = 0; f->sigdepth--; errno = e;
}

// the process f belongs to is killed: f and, if asked for, all other threads of the process that are not protected
static void kill_now(Fiber* f) {
    note("t%d killed", f->id); f->state = F_KILLED; f->sbn = 0; a64::drain(f); st_kind[K_KILL]++;
    if (cfg.kill_process) for (int i = 0; i < NF; ++i) { Fiber* o = &F[i]; if (o != f && o->proc == f->proc && !o->prot && o->state != F_DONE && o->state != F_KILLED) { if (o->sbn) sb_commit_other(o, o->sbn); a64::drain(o); o->state = F_KILLED; o->sbn = 0; note("t%d killed (same process)", i); } }
    switch_to(pick_next(f, false));
}
// scheduling decision point in the current fiber; the instruction has not been executed yet
static void decision(Fiber* f, bool pause) {
    check_limits();
    timers();
    if (fair) {
        if (pause || C.countdown <= 0) switch_to(pick_next(f, true)); 
        set_countdown(C.cur);
        return;
    }
    draws_for_others(f);
    clock_jump(f);
    if (replaying) {
        bool here = rmap.count(tk(f->id, K_PREEMPT, f->acc)) != 0;
        if (here) {
            uint32_t v = rmap[tk(f->id, K_PREEMPT, f->acc)]; trace.push_back({ (uint8_t)f->id, K_PREEMPT, f->acc, v }); st_kind[K_PREEMPT]++;
            uint32_t op = v >> 8, arg = v & 255;
            if (op == 1 && arg < (uint32_t)NF && runnable(&F[arg])) switch_to(&F[arg]);
            else if (op == 2 && cfg.p[K_SIG] && f->handler && f->sigdepth < 1) { st_kind[K_SIG]++; set_countdown(f); run_signal(f); }
            else if (op == 3 && cfg.p[K_STALL] && !f->prot) { f->state = F_STALLED; f->stall_until = arg == 255 ? 0 : mono_now() + (cfg.step_ns ? cfg.step_ns : 1) * (16ull << arg); st_kind[K_STALL]++; note("t%d stalled", f->id); f->sbn = 0; a64::drain(f); switch_to(pick_next(f, false)); }
            else if (op == 4 && cfg.p[K_KILL] && !f->prot) kill_now(f);
            else if (op == 5 && cfg.p[K_ADV]) { uint64_t t = next_timer(); if (t != ~0ull) { advance_to(t + arg); timers(); } }
        }
        else if (pause) switch_to(pick_next(f, true));
        set_countdown(C.cur);
        return;
    }
    if (C.countdown <= 0 || pause) {
        uint32_t v = 0;
        auto rec = [&](uint32_t vv) { trace.push_back({ (uint8_t)f->id, K_PREEMPT, f->acc, vv }); mix(vv ^ f->acc << 20); st_kind[K_PREEMPT]++; };
        if (f->handler && f->sigdepth < 1 && cfg.p[K_SIG] && (srng.next() & 0xffff) < cfg.p[K_SIG]) {
            rec(2 << 8); st_kind[K_SIG]++; run_faults++; set_countdown(f); run_signal(f); set_countdown(C.cur); return;
        }
        if (!f->prot && !f->sigdepth && cfg.p[K_KILL] && (srng.next() & 0xffff) < cfg.p[K_KILL]) { rec(4 << 8); run_faults++; kill_now(f); return; }
        if (!f->prot && !f->sigdepth && cfg.p[K_STALL] && (srng.next() & 0xffff) < cfg.p[K_STALL]) { uint32_t a = srng.below(14); if (srng.below(4) == 0) a = 255; rec(3 << 8 | a); st_kind[K_STALL]++; run_faults++; note("t%d stalled", f->id); f->state = F_STALLED; f->stall_until = a == 255 ? 0 : mono_now() + (cfg.step_ns ? cfg.step_ns : 1) * (16ull << a); f->sbn = 0; a64::drain(f); switch_to(pick_next(f, false)); set_countdown(C.cur); return; }
        if (cfg.p[K_ADV] && (srng.next() & 0xffff) < cfg.p[K_ADV]) { uint64_t t = next_timer(); if (t != ~0ull) { uint32_t a = srng.below(4); rec(5 << 8 | a); run_faults++; st_kind[K_ADV]++; advance_to(t + a); timers(); } else if (pause) rec(6 << 8); set_countdown(f); return; }
        Fiber* cand[MAXF]; int n = 0; for (int i = 0; i < NF; ++i) if (runnable(&F[i]) && &F[i] != f) cand[n++] = &F[i];
        if (!n) { if (pause) switch_to(pick_next(f, true)); else set_countdown(f); return; }
        Fiber* t = nullptr;
        if (cfg.strategy == 1) {
            // priority based: at change points the current thread drops to the lowest priority
            uint32_t lo = ~0u; for (int i = 0; i < NF; ++i) lo = std::min(lo, F[i].prio);
            if (!pause || srng.below(4) == 0) f->prio = lo ? lo - 1 : 0;
            Fiber* b = f; for (int i = 0; i < n; ++i) if (cand[i]->prio > b->prio) b = cand[i];
            if (pause && b == f && srng.below(8) == 0) b = cand[srng.below(n)];
            t = b;
        } else {
            if (pause && !cfg.spin_yield && C.countdown > 0) { t = f; }
            else t = cand[srng.below(n)];
        }
        if (t != f) { v = 1 << 8 | (uint32_t)t->id; rec(v); switch_to(t); }
        else { if (pause) { // replay default for pause is "yield": record that we stayed
                v = 6 << 8; rec(v); }
            set_countdown(f); }
        return;
    }
    set_countdown(f);
}

} // namespace sim

extern "C" void sim_hook_slow(uint64_t kind, uint64_t a) {
    Fiber* f = C.cur; uint32_t t = kind & 0xff, n = (uint32_t)(kind >> 8);
    if (C.bad) {
        C.bad = false;
        uint64_t blk = 0; uint32_t sz = 0;
        if (a >= HEAP_BASE) { auto i = blocks.upper_bound(a); if (i != blocks.begin()) { --i; blk = i->first; sz = i->second.first; } }
        if (!strcmp(C.badcls, "heap-misuse")) fail(C.badcls, "%s of %u byte(s) at %llx outside any live block (nearest block below: %llx, %u bytes)", t == A_READ ? "read" : "write", n, (unsigned long long)a, (unsigned long long)blk, sz);
        fail(C.badcls, "write of %u byte(s) at object offset %lld (object is %lld bytes)", n, (long long)(a - f->mon_lo), (long long)(f->mon_hi - f->mon_lo));
    }
    if (C.countdown <= 0 || t == A_PAUSE) decision(f, t == A_PAUSE);
    f = C.cur;
    if (t == A_WRITE || t == A_RMW) { if (C.tso) { C.plain_stores++; sim_sb_log(f, n, a); } }
    else if (t >= A_LOCKED) { C.locked++; f->sbn = 0; }
}

// A scheduling point raised by the models (a library or system call).
static void model_point(uint32_t t = A_FENCE) {
    if (!C.active) return;
    Fiber* f = C.cur; C.steps++; f->acc++;
    if (--C.countdown <= 0 || t == A_PAUSE) decision(f, t == A_PAUSE);
    timers();
    C.cur->sbn = 0; if (t != A_READ) a64::barrier(C.cur);
}
static void touch(uint64_t a, uint32_t n, uint32_t t) {
    if (sim_hook_c(t | (uint64_t)n << 8, a)) sim_hook_slow(t | (uint64_t)n << 8, a);
}

namespace sim {
static void block(Fiber* f) { // f->bkind etc. set up
    if (!C.active) fail("deadlock", "an operation made while no other thread runs blocks");
    f->state = F_BLOCKED; f->sbn = 0; f->bseq = ++blockseq; if (f->libw) f->libb++;
    a64::drain(f);
    switch_to(pick_next(f, false));
    a64::sees_all(f);
    f->has_deadline = false; f->has_spur = false; f->bkind = B_NONE;
}
static void maybe_spur(Fiber* f, int res) {
    if (fair) return;
    uint32_t v = choose(f, K_SPUR, 3);
    if (v) { uint32_t d = choose(f, K_DELAY, 16); f->has_spur = true; f->spur_res = v == 1 ? 0 : res; f->spur = mono_now() + (cfg.step_ns ? cfg.step_ns : 1) * (1ull << d); }
}
void sleep_ns(uint64_t ns) { Fiber* f = C.cur; f->bkind = B_SLEEP; f->key = 0; f->has_deadline = true; f->deadline_real = false; f->deadline = (int64_t)(mono_now() + ns); f->wake_res = 0; f->has_spur = false; block(f); }
void yield() { Fiber* f = C.cur; if (f && C.active) switch_to(pick_next(f, true)); }
void wait_quiescent() { Fiber* f = C.cur; f->state = F_QUIESCE; f->sbn = 0; a64::drain(f); switch_to(pick_next(f, false)); a64::sees_all(f); }
bool done(int i) { return F[i].state == F_DONE; }
bool blocked(int i) { return F[i].state == F_BLOCKED; }
bool killed(int i) { return F[i].state == F_KILLED; }
void set_daemon(int i) { F[i].daemon = true; }
void set_handler(int i, fiber_fn h) { F[i].handler = h; }
void protect_from_stall(int i, bool on) { F[i].prot = on; }
uint64_t fiber_steps(int i) { return F[i].acc; }
void stall_all_but(int k) { stall_keep = k; a64::drain_everyone(); for (int i = 0; i < NF; ++i) if (i != k && F[i].state == F_RUN) { F[i].state = F_STALLED; F[i].stall_until = 0; if (F[i].sbn) sb_commit_other(&F[i], F[i].sbn); } }
void release_all() { stall_keep = -1; for (int i = 0; i < NF; ++i) if (F[i].state == F_STALLED) { F[i].state = F_RUN; F[i].stall_until = 0; } }
void monitor(const void* lo, const void* hi, const void* glo, const void* ghi) { Fiber* f = C.cur; if (!f) return; f->mon_lo = (uint64_t)lo; f->mon_hi = (uint64_t)hi; f->g_lo = (uint64_t)glo; f->g_hi = (uint64_t)ghi; f->mon = true; }
void monitor_off() { if (C.cur) C.cur->mon = false; }
void lib_watch(bool on) { Fiber* f = C.cur; f->libw = on; if (on) f->libt = f->libb = 0; }
uint64_t lib_touches() { return C.cur->libt; }
uint64_t lib_blocks() { return C.cur->libb; }
bool lib_address(const void* p) { uint64_t a = (uint64_t)p; return (a >= HEAP_BASE && a < HEAP_BASE + HEAP_SIZE) || (a >= C.sut_lo && a < C.sut_hi) || (a >= C.bss_lo && a < C.bss_hi); }
void arena_use(size_t lo, size_t hi) { used.push_back({ ARENA + lo, hi - lo }); }
void arena_use_at(void* lo, void* hi) { used.push_back({ (unsigned char*)lo, (size_t)((char*)hi - (char*)lo) }); }
void guard_page(size_t off, bool on) { mprotect(ARENA + off, 4096, on ? PROT_NONE : PROT_READ | PROT_WRITE); if (on) guards.push_back(off); }
HeapStat heap_stat(int p) { if (p >= 0) return hs[p]; HeapStat t{}; for (int i = 0; i < MAXPROC; ++i) { t.live_blocks += hs[i].live_blocks; t.live_bytes += hs[i].live_bytes; t.peak_blocks += hs[i].peak_blocks; t.allocs += hs[i].allocs; t.fails += hs[i].fails; } return t; }
int atexit_count(int p) { return (int)atex[p].size(); }
void run_atexit(int p) { while (!atex[p].empty()) { auto h = atex[p].back(); atex[p].pop_back(); h(); } }

extern "C" void sim_fiber_main() {
    Fiber* f = C.cur;
    f->fn(f->arg);
    f->sbn = 0; a64::drain(f); f->state = F_DONE; note("t%d done", f->id);
    switch_to(pick_next(f, false));
    abort();
}
int spawn(fiber_fn fn, int arg, int proc) {
    if (NF >= MAXF) { fprintf(stderr, "too many fibers\n"); _exit(3); }
    if (tsan_present && NF >= 12) { fprintf(stderr, "too many fibers\n"); _exit(3); }
    Fiber* f = &F[NF]; memset((void*)f, 0, sizeof *f); f->id = NF++; f->state = F_RUN; f->fn = fn; f->arg = arg; f->proc = proc;
    f->prio = 1000 + srng.below(1000);
    uint8_t* top = (uint8_t*)(STACK_BASE + (uint64_t)(f->id + 1) * STACK_SIZE);
    memset(top - 20480, (int)(mix64(cur_seed, 100 + f->id) & 0xff), 20480);
    void** sp = (void**)(top - 128); // ABI: at function entry (after call) rsp % 16 == 8
    *sp = nullptr;
    *--sp = (void*)&sim_entry; for (int i = 0; i < 6; ++i) *--sp = nullptr;
    f->rsp = sp;
    if (C.active) { if (tsan_present) tsan_spawn(C.cur->id, f->id); a64::barrier(C.cur); }
    a64::sees_all(f);
    return f->id;
}
}

// ================= AArch64
#include "arm64.inc"

// ================= memory functions
extern "C" {
void* sim_memcpy(void* d, const void* s, size_t n) {
    if (a64_present && a64::copy(d, s, n, 1)) return d;
    if (!C.active) return memcpy(d, s, n);
    if (tsan_present) { tsan_access((uint64_t)s, n, false); tsan_access((uint64_t)d, n, true); }
    uint8_t* dd = (uint8_t*)d; const uint8_t* ss = (const uint8_t*)s;
    while (n) { size_t k = n >= 8 ? 8 : n >= 4 ? 4 : n >= 2 ? 2 : 1; uint8_t tmp[8]; touch((uint64_t)ss, k, A_READ); memcpy(tmp, ss, k); touch((uint64_t)dd, k, A_WRITE); memcpy(dd, tmp, k); dd += k; ss += k; n -= k; }
    return d;
}
void* sim_memmove(void* d, const void* s, size_t n) {
    if (a64_present && a64::copy(d, s, n, (uint64_t)d <= (uint64_t)s || (uint64_t)d >= (uint64_t)s + n ? 1 : -1)) return d;
    if (!C.active) return memmove(d, s, n);
    if ((uint64_t)d <= (uint64_t)s || (uint64_t)d >= (uint64_t)s + n) return sim_memcpy(d, s, n);
    if (tsan_present) { tsan_access((uint64_t)s, n, false); tsan_access((uint64_t)d, n, true); }
    while (n) { size_t k = n % 8 ? 1 : 8; n -= k; uint8_t tmp[8]; touch((uint64_t)s + n, k, A_READ); memcpy(tmp, (const uint8_t*)s + n, k); touch((uint64_t)d + n, k, A_WRITE); memcpy((uint8_t*)d + n, tmp, k); }
    return d;
}
void* sim_memset(void* d, int c, size_t n) {
    if (a64_present) { uint8_t t[64]; memset(t, c, sizeof t); uint8_t* p = (uint8_t*)d; for (size_t m = n; m;) { size_t k = m > 64 ? 64 : m; a64::copy(p, t, k, 1); p += k; m -= k; } return d; }
    if (!C.active) return memset(d, c, n);
    if (tsan_present) tsan_access((uint64_t)d, n, true);
    uint8_t* dd = (uint8_t*)d; while (n) { size_t k = n >= 8 ? 8 : 1; touch((uint64_t)dd, k, A_WRITE); memset(dd, c, k); dd += k; n -= k; }
    return d;
}
int sim_memcmp(const void* a, const void* b, size_t n) {
    if (a64_present) { const uint8_t *x = (const uint8_t*)a, *y = (const uint8_t*)b; while (n) { size_t k = n >= 8 ? 8 : 1; uint8_t p[8], q[8]; a64::copy(p, x, k, 1); a64::copy(q, y, k, 1); int r = memcmp(p, q, k); if (r) return r; x += k; y += k; n -= k; } return 0; }
    if (!C.active) return memcmp(a, b, n);
    if (tsan_present) { tsan_access((uint64_t)a, n, false); tsan_access((uint64_t)b, n, false); }
    const uint8_t *x = (const uint8_t*)a, *y = (const uint8_t*)b;
    while (n) { size_t k = n >= 8 ? 8 : 1; uint8_t p[8], q[8]; touch((uint64_t)x, k, A_READ); memcpy(p, x, k); touch((uint64_t)y, k, A_READ); memcpy(q, y, k); int r = memcmp(p, q, k); if (r) return r; x += k; y += k; n -= k; }
    return 0;
}
int sim_bcmp(const void* a, const void* b, size_t n) { return sim_memcmp(a, b, n); }

static void* heap_alloc(size_t n, size_t al, bool nothrow_fail_ok, bool zero) {
    if (!C.active) { void* p = nullptr; if (posix_memalign(&p, al < 16 ? 16 : al, n ? n : 1)) abort(); if (zero) memset(p, 0, n); return p; }
    model_point(A_READ);
    Fiber* f = C.cur; HeapStat& h = hs[f->proc]; if (f->libw) f->libt++;
    h.allocs++;
    if (nothrow_fail_ok && !fair && choose(f, K_OOM, 2)) { h.fails++; note("allocation of %zu bytes fails", n); return nullptr; }
    if (al < 16) al = 16;
    uint64_t a = (heap_next + 32 + al - 1) & ~(uint64_t)(al - 1);
    if (a + n + 64 > HEAP_BASE + HEAP_SIZE) fail("heap-exhausted", "more than %llu bytes allocated in one run", (unsigned long long)HEAP_SIZE);
    heap_next = a + ((n + 15) & ~15ull);
    for (uint64_t i = 0; i < n; i += 8) sim_shadow[(a + i - HEAP_BASE) >> 3] = n - i >= 8 ? 8 : (uint8_t)(n - i);
    memset((void*)a, zero ? 0 : 0xa5 ^ (int)(a >> 4), n);
    blocks[a] = { (uint32_t)n, f->proc }; h.live_blocks++; h.live_bytes += n; h.peak_blocks = std::max(h.peak_blocks, h.live_blocks);
    note("alloc %zu -> %llx", n, (unsigned long long)a);
    return (void*)a;
}
static void heap_free(void* p) {
    if (!p) return;
    uint64_t a = (uint64_t)p;
    if (a < HEAP_BASE || a >= HEAP_BASE + HEAP_SIZE) { if (!C.active) { free(p); return; } fail("heap-misuse", "release of %p which was not allocated", p); }
    if (C.active) model_point(A_READ);
    auto i = blocks.find(a);
    if (i == blocks.end()) { if (C.active) fail("heap-misuse", "release of %p which is not a live block (double release?)", p); return; }
    uint32_t n = i->second.first; int pr = i->second.second;
    if (C.active && pr != C.cur->proc) fail("heap-misuse", "release of another process's block");
    if (C.active && tsan_present) tsan_access(a, n, true);
    for (uint64_t k = 0; k < n; k += 8) sim_shadow[(a + k - HEAP_BASE) >> 3] = 0xfd;
    memset(p, 0xdb, n);
    // pending stores of other threads into the block must not resurrect later: they are diagnosed when they were issued
    hs[pr].live_blocks--; hs[pr].live_bytes -= n; blocks.erase(i);
    note("free %llx", (unsigned long long)a);
}
void* sim_malloc(size_t n) { return heap_alloc(n, 16, true, false); }
void* sim_calloc(size_t a, size_t b) { return heap_alloc(a * b, 16, true, true); }
void* sim_realloc(void* p, size_t n) { if (!p) return sim_malloc(n); auto i = blocks.find((uint64_t)p); void* q = sim_malloc(n); if (!q) return nullptr; if (i != blocks.end()) memcpy(q, p, std::min<size_t>(n, i->second.first)); heap_free(p); return q; }
void sim_free(void* p) { heap_free(p); }
int sim_posix_memalign(void** r, size_t al, size_t n) { void* p = heap_alloc(n, al, true, false); if (!p) return ENOMEM; *r = p; return 0; }
void* sim_aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al, true, false); }
void* sim_new(size_t n) { return heap_alloc(n, 16, false, false); }
void* sim_new_nt(size_t n, const void*) { return heap_alloc(n, 16, true, false); }
void* sim_new_al(size_t n, size_t al) { return heap_alloc(n, al, false, false); }
void* sim_new_al_nt(size_t n, size_t al, const void*) { return heap_alloc(n, al, true, false); }
void sim_delete(void* p) { heap_free(p); }
int sim_atexit(void (*f)()) { if (!C.active) return 0; model_point(A_READ); atex[C.cur->proc].push_back(f); note("atexit handler registered"); return 0; }
struct CxaEnt { void (*f)(void*); void* a; };
int sim_cxa_atexit(void (*f)(void*), void* a, void*) { (void)a; return sim_atexit((void(*)())f); }
int sim_cxa_guard_acquire(uint64_t* g) {
    if (!C.active) { return *(uint8_t*)g ? 0 : 1; }
    for (;;) { model_point(); if (*(uint8_t*)g) return 0; if (((uint8_t*)g)[1] == 0) { ((uint8_t*)g)[1] = 1; return 1; } yield(); }
}
void sim_cxa_guard_release(uint64_t* g) { if (C.active) model_point(); *(uint8_t*)g = 1; ((uint8_t*)g)[1] = 0; }
void sim_cxa_guard_abort(uint64_t* g) { ((uint8_t*)g)[1] = 0; }
[[noreturn]] void sim_assert_fail(const char* e, const char* file, unsigned line, const char*) { const char* s = strrchr(file, '/'); fail("assertion", "%s:%u: %s", s ? s + 1 : file, line, e); }
[[noreturn]] void sim_abort() { fail("abort", "abort() called"); }
[[noreturn]] void sim_terminate() { fail("abort", "std::terminate() called"); }

// ================= clocks
static bool get_clock(clockid_t id, int64_t& ns) {
    switch (id) { case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI: ns = real_now(); return true;
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME: case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: ns = (int64_t)mono_now(); return true; }
    return false;
}
int sim_clock_gettime(clockid_t id, struct timespec* ts) {
    if (C.active) model_point(A_READ);
    int64_t ns; if (!get_clock(id, ns)) { errno = EINVAL; return -1; }
    ts->tv_sec = ns / 1000000000; ts->tv_nsec = ns % 1000000000; return 0;
}
int sim_gettimeofday(struct timeval* tv, void*) { struct timespec ts; sim_clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t sim_time(time_t* t) { struct timespec ts; sim_clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int64_t sim_steady_now() { if (C.active) model_point(A_READ); return (int64_t)mono_now(); }
int64_t sim_system_now() { if (C.active) model_point(A_READ); return real_now(); }
static int do_sleep(int64_t ns, struct timespec* rem) {
    if (!C.active) return 0;
    model_point();
    Fiber* f = C.cur;
    if (!fair && choose(f, K_EINTR, 2)) { if (rem) { rem->tv_sec = ns / 1000000000; rem->tv_nsec = ns % 1000000000; } return EINTR; }
    sleep_ns(ns < 0 ? 0 : (uint64_t)ns); return 0;
}
int sim_nanosleep(const struct timespec* r, struct timespec* rem) { if (r->tv_nsec < 0 || r->tv_nsec > 999999999 || r->tv_sec < 0) { errno = EINVAL; return -1; } int e = do_sleep(r->tv_sec * 1000000000ll + r->tv_nsec, rem); if (e) { errno = e; return -1; } return 0; }
int sim_clock_nanosleep(clockid_t id, int flags, const struct timespec* r, struct timespec* rem) {
    int64_t ns = r->tv_sec * 1000000000ll + r->tv_nsec; if (flags & TIMER_ABSTIME) { int64_t n; if (!get_clock(id, n)) return EINVAL; ns -= n; if (ns <= 0) return 0; }
    return do_sleep(ns, rem);
}
int sim_usleep(unsigned u) { int e = do_sleep((int64_t)u * 1000, nullptr); if (e) { errno = e; return -1; } return 0; }
int sim_sched_yield() { if (C.active) { model_point(A_PAUSE); } return 0; }

// ================= futex
static uint64_t fkey(uint64_t a, bool priv) {
    uint64_t p = phys(a);
    if (priv) return (1ull << 62) | ((uint64_t)C.cur->proc << 56) | a;
    if (p != ~0ull) return (1ull << 61) | p;
    return (1ull << 60) | ((uint64_t)C.cur->proc << 56) | a;
}
static int fwake(uint64_t key, uint32_t n, uint32_t bitset) {
    int woken = 0;
    while (n) {
        Fiber* cand[MAXF]; int c = 0;
        for (int i = 0; i < NF; ++i) if (F[i].state == F_BLOCKED && F[i].bkind == B_FUTEX && F[i].key == key && (F[i].bitset & bitset)) cand[c++] = &F[i];
        if (!c) break;
        std::sort(cand, cand + c, [](Fiber* a, Fiber* b) { return a->bseq < b->bseq; });
        uint32_t v = fair || c == 1 ? 0 : choose(C.cur, K_WAKEORD, c);
        cand[v]->state = F_RUN; cand[v]->wake_res = 0; --n; ++woken;
    }
    return woken;
}
static long futex(uint64_t a, int op, uint32_t val, uint64_t a4, uint64_t addr2, uint32_t val3) {
    Fiber* f = C.cur; bool priv = op & FUTEX_PRIVATE_FLAG, rt = op & FUTEX_CLOCK_REALTIME; int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    model_point(); f = C.cur;
    if (f->libw) f->libt++;
    if (a & 3) return -EINVAL;
    bool valid = phys(a) != ~0ull || lib_address((void*)a) || (a >= STACK_BASE && a < STACK_BASE + MAXF * STACK_SIZE);
    if (!valid) { if (cmd == FUTEX_WAKE) return 0; return -EFAULT; }
    if (a >= HEAP_BASE && a < HEAP_BASE + HEAP_SIZE) { uint8_t s = sim_shadow[(a - HEAP_BASE) >> 3]; if (cmd != FUTEX_WAKE && (s == 0 || s > 8)) fail("heap-misuse", "futex operation %d on released memory %llx", cmd, (unsigned long long)a); }
    uint64_t key = fkey(a, priv);
    switch (cmd) {
    case FUTEX_WAIT: case FUTEX_WAIT_BITSET: {
        if (cmd == FUTEX_WAIT_BITSET) { if (cfg.no_wait_bitset) { st_kind[K_ENOSYS]++; return -ENOSYS; } if (val3 == 0) return -EINVAL; }
        if (cmd == FUTEX_WAIT && rt) return -ENOSYS;
        const struct timespec* ts = (const struct timespec*)a4; int64_t d = 0;
        if (ts) { if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return -EINVAL;
            if (cmd == FUTEX_WAIT) d = ts->tv_sec > 4600000000ll ? INT64_MAX : ts->tv_sec * 1000000000ll + ts->tv_nsec + (int64_t)mono_now();   // clocks stay below 4.5e18 ns: later is never
            else d = ts->tv_sec > (rt ? 8000000000ll : 4600000000ll) ? INT64_MAX : ts->tv_sec * 1000000000ll + ts->tv_nsec; }
        if (*(volatile uint32_t*)a != val) return -EAGAIN;
        if (!fair && choose(f, K_EINTR, 2)) return -EINTR;
        f->bkind = B_FUTEX; f->key = key; f->bitset = cmd == FUTEX_WAIT ? ~0u : val3; f->has_deadline = ts != nullptr && d < INT64_MAX; f->deadline_real = rt; f->deadline = d; f->wake_res = 0; f->timed_out = false;
        maybe_spur(f, -EINTR); probe(26);
        note("futex wait %llx val %u%s", (unsigned long long)a, val, ts ? " (timed)" : "");
        block(f);
        note("futex wait %llx returns %d", (unsigned long long)a, f->wake_res);
        return f->wake_res; }
    case FUTEX_WAKE: { int n = fwake(key, val > 0x7fffffff ? 1 : val, ~0u); note("futex wake %llx (%d woken)", (unsigned long long)a, n); return n; }
    case FUTEX_WAKE_BITSET: return val3 ? fwake(key, val, val3) : -EINVAL;
    case FUTEX_CMP_REQUEUE: if (*(volatile uint32_t*)a != val3) return -EAGAIN; // fallthrough
    case FUTEX_REQUEUE: {
        if ((int)val < 0 || (int)a4 < 0) return -EINVAL;
        if (addr2 & 3) return -EINVAL;
        uint64_t key2 = fkey(addr2, priv); int n = fwake(key, val, ~0u); uint32_t lim = (uint32_t)a4; int q = 0;
        if (key2 == key && cmd == FUTEX_REQUEUE) {}
        for (;;) { if (!lim) break; Fiber* cand[MAXF]; int c = 0; for (int i = 0; i < NF; ++i) if (F[i].state == F_BLOCKED && F[i].bkind == B_FUTEX && F[i].key == key && key != key2) cand[c++] = &F[i];
            if (!c) break; std::sort(cand, cand + c, [](Fiber* x, Fiber* y) { return x->bseq < y->bseq; }); uint32_t v = fair || c == 1 ? 0 : choose(C.cur, K_WAKEORD, c); cand[v]->key = key2; cand[v]->bseq = ++blockseq; ++q; --lim; probe(30); }
        note("futex requeue %llx -> %llx (%d woken, %d requeued)", (unsigned long long)a, (unsigned long long)addr2, n, q);
        return n + q; }
    }
    return -ENOSYS;
}
long sim_syscall(long nr, ...) {
    va_list ap; va_start(ap, nr); uint64_t a[7]; for (int i = 0; i < 7; ++i) a[i] = va_arg(ap, uint64_t); va_end(ap);
    if (nr == 166) { nr = SYS_futex; if (((int)a[1] & 127) == FUTEX_REQUEUE || ((int)a[1] & 127) == FUTEX_CMP_REQUEUE) a[3] = a[5]; a[5] = a[6]; }     // NetBSD __futex: timeout and val2 apart
    if (!C.active) {    // the harness prepares or inspects objects
        if (!in_run || nr != SYS_futex) { fprintf(stderr, "syscall %ld outside simulation\n", nr); _exit(3); }
        int cmd = (int)a[1] & 127; if (cmd != FUTEX_WAIT && cmd != FUTEX_WAIT_BITSET) return 0;
        if (*(volatile uint32_t*)a[0] != (uint32_t)a[2]) errno = EAGAIN; else if (a[3]) errno = ETIMEDOUT; else fail("deadlock", "an operation made while no other thread runs blocks");
        return -1; }
    long r;
    if (nr == SYS_futex) r = futex(a[0], (int)a[1], (uint32_t)a[2], a[3], a[4], (uint32_t)a[5]);
    else if (nr == SYS_sched_yield) { sim_sched_yield(); r = 0; }
    else if (nr == SYS_gettid) r = 1000 + C.cur->id;
    else if (nr == SYS_getpid) r = 100 + C.cur->proc;
    else r = -ENOSYS;
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}
int sim_getpid() { return C.active ? 100 + C.cur->proc : 100; }

// ================= pthread
struct SimMutex { int32_t owner; uint32_t rec; };               // overlays pthread_mutex_t
struct SimCond { uint32_t magic; int32_t clock; uint32_t nwait; };
static int simlock_(pthread_mutex_t* m, bool tr) {
    model_point(); SimMutex* s = (SimMutex*)m; Fiber* f = C.cur; if (f->libw) f->libt++;
    while (s->owner) {
        if (s->owner == f->id + 1) { if (tr) return EBUSY; fail("lock-misuse", "thread locks a mutex it already owns (self-deadlock)"); }
        if (tr) return EBUSY;
        f->bkind = B_MUTEX; f->key = (uint64_t)m; probe(28); block(f);
    }
    s->owner = f->id + 1; if (tsan_present) tsan_mutex_acquire((uint64_t)m); return 0;
}
static void wake_mutex(uint64_t m) { Fiber* c[MAXF]; int n = 0; for (int i = 0; i < NF; ++i) if (F[i].state == F_BLOCKED && F[i].bkind == B_MUTEX && F[i].key == m && F[i].proc == C.cur->proc) c[n++] = &F[i]; if (n) { std::sort(c, c + n, [](Fiber* a, Fiber* b) { return a->bseq < b->bseq; }); uint32_t v = fair || n == 1 ? 0 : choose(C.cur, K_WAKEORD, n); c[v]->state = F_RUN; } }
static void munlock_raw(pthread_mutex_t* m) { C.cur->sbn = 0; a64::barrier(C.cur); SimMutex* s = (SimMutex*)m; if (s->owner != C.cur->id + 1) fail("lock-misuse", "thread unlocks a mutex it does not own"); if (tsan_present) tsan_mutex_release((uint64_t)m); s->owner = 0; wake_mutex((uint64_t)m); }
int sim_pthread_mutex_lock(pthread_mutex_t* m) { return simlock_(m, false); }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { return simlock_(m, true); }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { munlock_raw(m); model_point(); return 0; }
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { memset((void*)m, 0, sizeof *m); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t* m) { if (((SimMutex*)m)->owner) fail("lock-misuse", "locked mutex destroyed"); return 0; }
int sim_pthread_condattr_init(pthread_condattr_t* a) { *(int*)a = CLOCK_REALTIME; return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t*) { return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t* a, clockid_t c) { if (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC) return EINVAL; *(int*)a = c; return 0; }
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { SimCond* s = (SimCond*)c; memset((void*)c, 0, sizeof *c); s->magic = 0xc04d; s->clock = a ? *(int*)a : CLOCK_REALTIME; return 0; }
int sim_pthread_cond_destroy(pthread_cond_t* c) { SimCond* s = (SimCond*)c; if (s->magic != 0xc04d) fail("lock-misuse", "destroying a condition variable that is not initialised"); for (int i = 0; i < NF; ++i) if (F[i].state == F_BLOCKED && F[i].bkind == B_COND && F[i].key == (uint64_t)c) fail("lock-misuse", "condition variable destroyed while a thread waits on it"); s->magic = 0xdead; return 0; }
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts, int clock) {
    SimCond* s = (SimCond*)c; model_point(); Fiber* f = C.cur;
    touch((uint64_t)c, 8, A_READ);
    if (s->magic != 0xc04d && s->magic != 0) fail("lock-misuse", "waiting on a condition variable that is not initialised or was destroyed");
    if (((SimMutex*)m)->owner != f->id + 1) fail("lock-misuse", "condition wait without owning the mutex");
    int64_t d = 0; if (ts) { if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL; if (ts->tv_sec < 0) d = 0; else d = ts->tv_sec > (clock == CLOCK_REALTIME ? 8000000000ll : 4600000000ll) ? INT64_MAX : ts->tv_sec * 1000000000ll + ts->tv_nsec; }
    munlock_raw(m);
    f->bkind = B_COND; f->key = (uint64_t)c; f->has_deadline = ts && d < INT64_MAX; f->deadline_real = clock == CLOCK_REALTIME; f->deadline = d; f->wake_res = 0; f->timed_out = false;
    maybe_spur(f, 0); probe(27);
    block(f);
    int r = f->wake_res == -ETIMEDOUT ? ETIMEDOUT : 0;
    simlock_(m, false);
    return r;
}
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, nullptr, 0); }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cwait(c, m, ts, ((SimCond*)c)->clock); }
int sim_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (k != CLOCK_REALTIME && k != CLOCK_MONOTONIC) return EINVAL; return cwait(c, m, ts, k); }
static int csignal(pthread_cond_t* c, bool all) {
    model_point(); touch((uint64_t)c, 8, A_READ); SimCond* s = (SimCond*)c; if (s->magic != 0xc04d && s->magic != 0) fail("lock-misuse", "signalling a condition variable that is not initialised or was destroyed");
    for (;;) { Fiber* cd[MAXF]; int n = 0; for (int i = 0; i < NF; ++i) if (F[i].state == F_BLOCKED && F[i].bkind == B_COND && F[i].key == (uint64_t)c && F[i].proc == C.cur->proc) cd[n++] = &F[i];
        if (!n) break; std::sort(cd, cd + n, [](Fiber* a, Fiber* b) { return a->bseq < b->bseq; }); uint32_t v = fair || n == 1 ? 0 : choose(C.cur, K_WAKEORD, n); cd[v]->state = F_RUN; cd[v]->wake_res = 0; if (!all) break; }
    return 0;
}
int sim_pthread_cond_signal(pthread_cond_t* c) { return csignal(c, false); }
int sim_pthread_cond_broadcast(pthread_cond_t* c) { return csignal(c, true); }
int sim_pthread_once(pthread_once_t* o, void (*fn)()) { for (;;) { model_point(); if (*o == 2) return 0; if (*o == 0) { *o = 1; fn(); *o = 2; return 0; } yield(); } }
unsigned long sim_pthread_self() { return C.active ? 1 + C.cur->id : 1; }
int sim_pthread_spin_init(volatile int* l, int) { *l = 0; return 0; }
int sim_pthread_spin_lock(volatile int* l) { for (;;) { model_point(); if (!*l) { *l = 1; return 0; } model_point(A_PAUSE); } }
int sim_pthread_spin_trylock(volatile int* l) { model_point(); if (!*l) { *l = 1; return 0; } return EBUSY; }
int sim_pthread_spin_unlock(volatile int* l) { model_point(); C.cur->sbn = 0; a64::barrier(C.cur); *l = 0; return 0; }
#include "os.inc"
// the same functions under the further names objcopy needs (one target per renamed symbol)
void sim_delete_1(void* p) __attribute__((alias("sim_delete")));
void sim_delete_2(void* p) __attribute__((alias("sim_delete")));
void sim_delete_3(void* p) __attribute__((alias("sim_delete")));
void sim_delete_4(void* p) __attribute__((alias("sim_delete")));
void sim_delete_5(void* p) __attribute__((alias("sim_delete")));
void sim_delete_6(void* p) __attribute__((alias("sim_delete")));
void sim_delete_7(void* p) __attribute__((alias("sim_delete")));
void sim_delete_8(void* p) __attribute__((alias("sim_delete")));
void sim_delete_9(void* p) __attribute__((alias("sim_delete")));
void* sim_new_1(size_t n) __attribute__((alias("sim_new")));
void* sim_new_nt_1(size_t n, const void*) __attribute__((alias("sim_new_nt")));
void* sim_new_al_1(size_t n, size_t al) __attribute__((alias("sim_new_al")));
void* sim_new_al_nt_1(size_t n, size_t al, const void*) __attribute__((alias("sim_new_al_nt")));
} // extern C

// ================= run control
namespace sim {
static const Scenario* scen;
static void cpu_guard(int on) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = on ? 6 : 0; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
static void on_crash(int sig, siginfo_t* si, void*) {
    if (!in_run) { fprintf(stderr, "signal %d outside a run, address %p\n", sig, si->si_addr); _exit(3); }
    char b[128]; if (sig == SIGVTALRM) { vcls = "hang"; snprintf(b, sizeof b, "no memory access for several seconds of CPU time"); }
    else { vcls = "crash"; snprintf(b, sizeof b, "signal %d (address %p)", sig, sig == SIGSEGV ? si->si_addr : nullptr); }
    if (!viol) { viol = true; vmsg = b; } 
    C.active = 0; longjmp(crash_jb, 3);
}
static std::vector<uint8_t> init_data, init_bss;
static void reset_world() {
    C.active = 0;
    for (auto& r : used) memset(r.first, 0, r.second);
    used.clear();
    for (auto g : guards) mprotect(ARENA + g, 4096, PROT_READ | PROT_WRITE);
    guards.clear();
    if (heap_next > HEAP_BASE) memset(sim_shadow, 0, ((heap_next - HEAP_BASE) >> 3) + 64);
    heap_next = HEAP_BASE + 4096; blocks.clear(); memset(hs, 0, sizeof hs);
    for (auto& a : atex) a.clear();
    memcpy(__start_sutdata, init_data.data(), init_data.size()); memcpy(__start_sutbss, init_bss.data(), init_bss.size());
    curproc = 0; for (int p = 1; p < MAXPROC; ++p) { pdata[p].resize(init_data.size() + init_bss.size()); memcpy(pdata[p].data(), init_data.data(), init_data.size()); memcpy(pdata[p].data() + init_data.size(), init_bss.data(), init_bss.size()); }
    NF = 0; trace.clear(); jumps.clear(); seqno = 0; evhash = 0xcbf29ce484222325ull; progsig = 0x9e3779b9; fair = false; blockseq = 0; viol = false; ignored_end = false; vcls.clear(); vmsg.clear();
    stall_keep = -1; C.steps = C.base_steps = 0; C.bad = false; run_switches = run_faults = 0;
    if (tsan_present) tsan_reset();
    a64::reset();
}
void default_config() {
    memset(&cfg, 0, sizeof cfg);
    static const uint32_t gaps[] = { 1, 2, 3, 5, 8, 13, 20, 40, 80, 200 };
    cfg.mean_gap = gaps[gen(10)]; cfg.strategy = chance(1, 3); if (cfg.strategy) cfg.mean_gap = 5 + gen(60);
    cfg.p[K_NEXT] = 40000; cfg.p[K_WAKEORD] = chance(1, 2) ? 0 : 30000; cfg.spin_yield = chance(1, 2);
    cfg.p[K_DRAIN] = 50000; cfg.p[K_DRAINO] = chance(1, 2) ? 4000 : 20000;
    cfg.tso = false; cfg.step_ns = 10; cfg.fair_after = 20000; cfg.max_steps = 120000; cfg.cpu_level = gen(3);
    if (a64_present) { static const uint32_t st[] = { 2000, 8000, 20000, 40000 }, sx[] = { 0, 3000, 20000 }; cfg.p[K_STALE] = st[gen(4)]; cfg.p[K_DRAIN] = st[gen(4)] + 10000; cfg.p[K_SPURX] = sx[gen(3)]; }
}
static void run_body() {
    reset_world();
    wrng.s = mix64(cur_seed, 1); srng.s = mix64(cur_seed, 2);
    default_config();
    now_base = 1000000000ull + mix64(cur_seed, 3) % 1000000000000ull; rt_off = 1700000000000000000ll - (int64_t)now_base + (int64_t)(mix64(cur_seed, 4) % 1000000000ull); rt_min = rt_max = rt_off;
    memset((void*)&mainf, 0, sizeof mainf); mainf.id = 63; C.cur = &mainf;
    in_run = true;
    scen->setup();
    if (NF) {
        C.tso = cfg.tso && !tsan_present && !a64_present; a64::weak = cfg.tso && a64_present; for (int i = 0; i < NF; ++i) a64::sees_all(&F[i]); C.active = 1;
        for (auto& i : rprei) i = 0;
        // first fiber
        int first = 0; { Fiber tmp; memset((void*)&tmp, 0, sizeof tmp); tmp.id = 62; uint32_t v = choose(&tmp, K_NEXT, NF + 1); if (v) first = v - 1; }
        C.cur = &F[first]; if (F[first].proc != curproc) swap_proc(F[first].proc); set_countdown(C.cur); if (tsan_present) tsan_switch(first);
        sim_swap(&mainf.rsp, F[first].rsp);
        C.active = 0; C.cur = &mainf;
        // finish: drain all buffers
        for (int i = 0; i < NF; ++i) if (F[i].sbn) sb_commit_other(&F[i], F[i].sbn);
        a64::drain_everyone(); if (curproc) swap_proc(0);
        if (!viol && !ignored_end) scen->check();
    }
}
struct Result { bool viol; std::string cls, msg; uint64_t hash, steps; };
static Result one_run(uint64_t seed, bool rep, const std::vector<TE>* tr) {
    cur_seed = seed; replaying = rep; rmap.clear(); for (auto& v : rpre) v.clear();
    if (rep) { for (auto& t : *tr) { rmap[tk(t.f, t.k, t.idx)] = t.v; if (t.f < MAXF) { if (t.k == K_PREEMPT) rpre[t.f].push_back(t.idx); else if (t.k == K_DRAINO || t.k == K_JUMP) rpre[t.f].push_back(t.idx / 16); } } for (auto& v : rpre) std::sort(v.begin(), v.end()); }
    int j = setjmp(crash_jb);
    if (j == 0) { cpu_guard(1); run_body(); }
    if (C.active) C.active = 0;
    in_run = false;
    for (auto g : guards) mprotect(ARENA + g, 4096, PROT_READ | PROT_WRITE);
    guards.clear();
    mix(C.steps); mix(seqno); if (viol) for (char c : vcls) mix(c);
    return { viol, vcls, vmsg, evhash, C.steps };
}
static void write_replay(const char* path, const std::string& head, uint64_t seed, const std::vector<TE>& tr, const Result& r, bool full) {
    FILE* f = fopen(path, "w"); if (!f) { perror(path); _exit(3); }
    fprintf(f, "%s", head.c_str()); fprintf(f, "seed %llu\n", (unsigned long long)seed);
    for (auto& d : drops) fprintf(f, "drop %d %d\n", d.first, d.second);
    fprintf(f, "mode %s\n", full ? "record" : "trace");
    for (auto& t : tr) fprintf(f, "t %d %s %llu %u\n", t.f, kind_name[t.k], (unsigned long long)t.idx, t.v);
    fprintf(f, "class %s\nhash %016llx\nmessage %s\n", r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str());
    fclose(f);
}
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static bool minimise(uint64_t seed, std::vector<TE>& tr, Result& res, double budget) {
    double t0 = wall(); uint64_t runs = 0; std::string cls = res.cls;
    auto test = [&](const std::vector<TE>& t, Result& out) { ++runs; Result r = one_run(seed, true, &t); if (r.viol && r.cls == cls) { out = r; return true; } return false; };
    Result r; if (!test(tr, r)) return false;
    res = r; tr = trace;
    // drop operations
    bool changed = true; 
    while (changed && wall() - t0 < budget) {
        changed = false;
        for (int t = 0; t < MAXF && wall() - t0 < budget; ++t) for (int o = 0; o < 12; ++o) {
            if (dropped(t, o)) continue;
            auto save = drops; drops.push_back({ t, o }); std::vector<TE> keep = tr;
            if (test(tr, r)) { res = r; if (trace.size() <= tr.size()) tr = trace; changed = true; } else drops = save;
        }
        if (cls == "hang") break;
        // ddmin over the trace
        size_t chunk = tr.size() / 2; if (!chunk) chunk = 1;
        while (!tr.empty() && wall() - t0 < budget) {
            bool any = false;
            for (size_t i = 0; i < tr.size() && wall() - t0 < budget;) {
                std::vector<TE> c(tr.begin(), tr.begin() + i); if (i + chunk < tr.size()) c.insert(c.end(), tr.begin() + i + chunk, tr.end());
                if (test(c, r) && trace.size() <= c.size()) { res = r; tr = trace; any = true; changed = true; } else i += chunk;
            }
            if (chunk == 1) { if (!any) break; } else chunk = (chunk + 1) / 2;
        }
    }
    // remove drops that were not needed (operations that do not exist)
    for (size_t i = 0; i < drops.size();) { auto save = drops; drops.erase(drops.begin() + i); uint64_t h = res.hash; if (test(tr, r) && r.hash == h) { res = r; } else { drops = save; ++i; } }
    test(tr, r); res = r; tr = trace;
    return true;
}

static int kindof(const char* n) { for (int i = 0; i < NKIND; ++i) if (!strcmp(n, kind_name[i])) return i; return -1; }
static void setup_memory() {
    int fd = memfd_create("arena", 0); if (fd < 0) { // sandboxed: fall back to a temporary file
        char t[] = "/dev/shm/simarenaXXXXXX"; fd = mkstemp(t); unlink(t); }
    if (ftruncate(fd, ARENA_SIZE)) { perror("ftruncate"); _exit(3); }
    for (uint64_t a : { ARENA_BASE, ARENA2_BASE, ARENA3_BASE }) if (mmap((void*)a, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap arena"); _exit(3); }
    auto mm = [](uint64_t a, uint64_t n) { if (mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) { perror("mmap"); _exit(3); } };
    mm(FARENA_BASE, ARENA_SIZE); mm(HEAP_BASE, HEAP_SIZE); mm(SHADOW_BASE, HEAP_SIZE / 8 + 4096);
    for (int i = 0; i < MAXF; ++i) mm(STACK_BASE + i * STACK_SIZE + 4096, STACK_SIZE - 4096);
    C.heap_lo = HEAP_BASE; C.sut_lo = (uint64_t)__start_sutdata; C.sut_hi = (uint64_t)__stop_sutdata; C.bss_lo = (uint64_t)__start_sutbss; C.bss_hi = (uint64_t)__stop_sutbss;
    init_data.assign((uint8_t*)__start_sutdata, (uint8_t*)__stop_sutdata); init_bss.assign((uint8_t*)__start_sutbss, (uint8_t*)__stop_sutbss);
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 128 << 10; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGVTALRM, SIGTRAP }) sigaction(s, &sa, nullptr);
}
}

int main(int argc, char** argv) {
    if (argc < 2) { fprintf(stderr, "usage: sim run|replay ...\n"); return 3; }
    setup_memory();
    probe_name(26, "thread blocked in futex wait"); probe_name(27, "thread blocked on condition variable"); probe_name(28, "thread blocked on mutex"); probe_name(29, "blocking wait ended by its deadline"); probe_name(30, "waiter requeued to another futex");
    std::string cmd = argv[1];
    std::map<std::string, std::string> arg; 
    if (cmd == "run") {
        for (int i = 2; i < argc; ++i) { std::string a = argv[i]; if (a.substr(0, 2) == "--" && i + 1 < argc) { arg[a.substr(2)] = argv[++i]; } else { auto e = a.find('='); options[a.substr(0, e)] = e == std::string::npos ? "1" : a.substr(e + 1); } }
        for (Scenario* s = scenarios; s; s = s->next) if (arg["scn"] == s->name) scen = s;
        if (!scen) { fprintf(stderr, "unknown scenario %s\n", arg["scn"].c_str()); return 3; }
        uint64_t seed = strtoull(arg["seed"].c_str(), 0, 10), first = strtoull(arg["first"].c_str(), 0, 10), n = strtoull(arg["runs"].c_str(), 0, 10);
        double limit = arg.count("time") ? atof(arg["time"].c_str()) : 1e9; double t0 = wall();
        bool twice = arg.count("twice"); bool hashes = arg.count("hashes");
        if (arg.count("verbose")) verbose = true;
        uint64_t rep_mismatch = 0; uint64_t done_runs = 0; std::vector<std::string> samples; bool bad = false;
        std::unordered_set<uint64_t> progs;
        uint64_t allhash = 0;
        for (uint64_t i = first; i < first + n && wall() - t0 < limit; ++i) {
            uint64_t rs = mix64(seed, i * 2 + 77);
            cpu_guard(1);
            Result r = one_run(rs, false, nullptr);
            done_runs++; st_runs++; st_steps += r.steps; st_simns += mono_now() - (1000000000ull + mix64(cur_seed, 3) % 1000000000000ull);
            if (run_switches >= 4 || run_faults) { st_nontrivial++; uint64_t h = evhash ^ progsig * 0x9e3779b97f4a7c15ull; h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; sigbits[(h & 0x1ffffff) >> 3] |= 1 << (h & 7); }
            allhash = mix64(allhash, r.hash);
            if (hashes) printf("HASH %llu %016llx %s\n", (unsigned long long)i, (unsigned long long)r.hash, r.viol ? r.cls.c_str() : "-");
            if (samples.size() < 3 && run_switches >= 4) { char b[300]; std::string t; int c = 0; for (auto& e : trace) { if (++c > 12) break; snprintf(b, sizeof b, "t%d %s@%llu=%u ", e.f, kind_name[e.k], (unsigned long long)e.idx, e.v); t += b; } snprintf(b, sizeof b, "index %llu seed %llu: %zu decisions, %llu steps, %llu switches: ", (unsigned long long)i, (unsigned long long)rs, trace.size(), (unsigned long long)C.steps, (unsigned long long)run_switches); samples.push_back(b + t); }
            if (twice) { std::vector<TE> tr = trace; Result r2 = one_run(rs, false, nullptr); Result r3 = one_run(rs, true, &tr); if (r2.hash != r.hash || r3.viol != r.viol || r3.steps != r.steps) { rep_mismatch++; if (arg.count("replay-out")) { std::string head = "simreplay 1\nscn " + std::string(scen->name) + "\n"; for (auto& o : options) head += "opt " + o.first + " " + o.second + "\n"; write_replay(arg["replay-out"].c_str(), head, rs, tr, r, false); } fprintf(stderr, "MISMATCH index %llu hash %llx %llx steps %llu %llu\n", (unsigned long long)i, (unsigned long long)r.hash, (unsigned long long)r2.hash, (unsigned long long)r.steps, (unsigned long long)r3.steps); } }
            if (r.viol && !hashes) {
                std::vector<TE> tr = trace; Result orig = r;
                // the same seed must fail the same way again
                Result r2 = one_run(rs, false, nullptr);
                if (!r2.viol || r2.cls != r.cls || (r2.hash != r.hash && r.cls != "hang" && r.cls != "crash")) { printf("UNSTABLE index %llu: %s then %s\n", (unsigned long long)i, r.cls.c_str(), r2.viol ? r2.cls.c_str() : "no violation"); bad = true; break; }
                std::string head = "simreplay 1\n"; head += "scn " + std::string(scen->name) + "\n"; for (auto& o : options) head += "opt " + o.first + " " + o.second + "\n";
                std::string path = arg["replay-out"];
                uint64_t n0 = tr.size();
                if (minimise(rs, tr, r, r.cls == "hang" ? 1 : 20)) write_replay(path.c_str(), head, rs, tr, r, false);
                else { drops.clear(); r = orig; write_replay(path.c_str(), head, rs, {}, r, true); }
                printf("FOUND index %llu seed %llu class %s decisions %llu minimised %zu file %s\nMESSAGE %s\n", (unsigned long long)i, (unsigned long long)rs, r.cls.c_str(), (unsigned long long)n0, tr.size(), path.c_str(), r.msg.c_str());
                bad = true; break;
            }
        }
        cpu_guard(0);
        printf("STAT runs %llu\nSTAT steps %llu\nSTAT switches %llu\nSTAT sim_ns %llu\nSTAT nontrivial %llu\nSTAT fair_phases %llu\nSTAT locked_ops %llu\nSTAT buffered_stores %llu\nSTAT runs_ending_in_another_propertys_violation %llu\nSTAT ends_at_unsupported_instruction %llu\nSTAT mismatches %llu\nSTAT wall_us %llu\n", (unsigned long long)done_runs, (unsigned long long)st_steps, (unsigned long long)st_switch, (unsigned long long)st_simns, (unsigned long long)st_nontrivial, (unsigned long long)st_fair, (unsigned long long)C.locked, (unsigned long long)C.buffered, (unsigned long long)st_ignored, (unsigned long long)a64::st_unsupported, (unsigned long long)rep_mismatch, (unsigned long long)((wall() - t0) * 1e6));
        for (int k = 0; k < NKIND; ++k) printf("KIND %s %llu\n", kind_name[k], (unsigned long long)st_kind[k]);
        for (int k = 0; k < 32; ++k) if (probe_names[k]) printf("PROBE %s %llu\n", probe_names[k], (unsigned long long)st_probe[k]);
        for (auto& s : samples) printf("SAMPLE %s\n", s.c_str());
        printf("ALLHASH %016llx\n", (unsigned long long)allhash);
        if (arg.count("sig-out")) { FILE* f = fopen(arg["sig-out"].c_str(), "wb"); if (f) { fwrite(sigbits.data(), 1, sigbits.size(), f); fclose(f); } }
        return bad ? 1 : rep_mismatch ? 4 : 0;
    }
    if (cmd == "replay") {
        FILE* f = fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 3; }
        if (argc > 3) verbose = true;
        char line[4096]; std::vector<TE> tr; uint64_t seed = 0; bool record = false; std::string cls, scn; uint64_t hash = 0;
        while (fgets(line, sizeof line, f)) {
            char a[512], b[2048]; int x, y; unsigned long long u; unsigned v;
            if (sscanf(line, "scn %511s", a) == 1) scn = a;
            else if (sscanf(line, "opt %511s %2047s", a, b) == 2) options[a] = b;
            else if (sscanf(line, "seed %llu", &u) == 1) seed = u;
            else if (sscanf(line, "drop %d %d", &x, &y) == 2) drops.push_back({ x, y });
            else if (sscanf(line, "mode %511s", a) == 1) record = !strcmp(a, "record");
            else if (sscanf(line, "t %d %511s %llu %u", &x, a, &u, &v) == 4) { int k = kindof(a); if (k < 0) return 3; tr.push_back({ (uint8_t)x, (uint8_t)k, u, v }); }
            else if (sscanf(line, "class %511s", a) == 1) cls = a;
            else if (sscanf(line, "hash %llx", &u) == 1) hash = u;
        }
        fclose(f);
        for (Scenario* s = scenarios; s; s = s->next) if (scn == s->name) scen = s;
        if (!scen) return 3;
        Result r = one_run(seed, !record, &tr);
        cpu_guard(0);
        if (!r.viol) { printf("REPLAY no violation\n"); return 0; }
        bool same = r.cls == cls && (r.hash == hash || cls == "hang" || cls == "crash");
        printf("REPLAY %s: %s\nREPLAY-%s hash %016llx\n", r.cls.c_str(), r.msg.c_str(), same ? "SAME" : "DIFFERENT", (unsigned long long)r.hash);
        return same ? 1 : 4;
    }
    if (cmd == "list") { for (Scenario* s = scenarios; s; s = s->next) printf("%s\n", s->name); return 0; }
    return 3;
}
