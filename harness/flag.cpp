// Scenario "flag": locks and one-time gates built from the atomic flag (programs in sut/litmus.inc). Oracles: critical sections
// made under the lock never overlap (the counter and its complement agree at every entry, no increment is lost, the data seen
// is that of the previous owner); whoever passes the gate sees it open and sees the data written before it was opened; nobody
// is blocked for ever, and once scheduling is fair everything ends within a bounded number of steps.
#include "common.h"
#include "litmus.h"
using namespace sim; using namespace h;
namespace {
const LitType* lt; const TypeInfo* t; size_t off, doff; int mode, n, total; struct W { int kind, iters, proc; } w[12];
const TypeInfo* type_of(const LitType* l) { for (TypeTab* x = g_types; x; x = x->next) for (int i = 0; i < x->n; ++i) if (!strcmp(x->t[i].name, l->name)) return &x->t[i]; return nullptr; }
unsigned char* base(int proc) { return proc == 1 ? ARENA2 : proc == 2 ? ARENA3 : ARENA; }
void locker(int i) { unsigned char* b = base(w[i].proc); note("t%d locks %d times, program %d", i, w[i].iters, w[i].kind); lt->crit[w[i].kind](b + off, (uint32_t*)(b + doff), w[i].iters); note("t%d has finished", i); probe(0); }
void opener(int) { unsigned char* b = base(w[0].proc); lt->crit[5](b + off, (uint32_t*)(b + doff), 0); note("gate opened"); }
void passer(int i) {
    unsigned char* b = base(w[i].proc); uint32_t* d = (uint32_t*)(b + doff); lt->crit[6](b + off, d, w[i].kind | i << 2); finish_stores(); note("t%d passed the gate, result %u", i, d[16 + i]); probe(1); mix(d[16 + i]);
    if (d[16 + i] == 3) fail("wait-result", "%s: a wait on the gate ended although it was closed", t->name);
    if (d[16 + i] != 1) fail("stale-data", "%s: the data written before the gate was opened is missing after it was passed (program %d)", t->name, w[i].kind);
}
void setup() {
    read_filter(); const LitType* c[64]; int nc = 0; for (LitType* l = g_lits; l; l = l->next) if (l->crit && filter_ok(type_of(l))) c[nc++] = l;
    if (!nc) { fprintf(stderr, "no types for this scenario\n"); _Exit(3); }
    for (int i = 1; i < nc; ++i) for (int j = i; j > 0 && strcmp(c[j - 1]->name, c[j]->name) > 0; --j) std::swap(c[j - 1], c[j]);
    lt = c[gen(nc)]; t = type_of(lt);
    bool race = opt("race", 0) != 0, ipc = opt("ipc", 0) != 0; cfg.tso = !race; for (const char* s = t->name; *s; ++s) mix_sig(*s);
    off = place(t, 64 + gen(64)); doff = (off + t->objsize + 3) / 4 * 4 + (chance(1, 2) ? 0 : 64); arena_use(0, doff + 256);
    for (size_t i = 0; i < doff + 256; ++i) ARENA[i] = (unsigned char)(0xc3 ^ i * 7);
    uint32_t* d = (uint32_t*)(ARENA + doff); d[0] = 0; d[1] = ~0u; d[2] = d[3] = 0;
    mode = chance(1, 3); n = 2 + gen(chance(1, 4) ? 6 : 3); total = 0; unsigned char v = mode;
    t->init(ARENA + off, &v); if (t->lockfree) race_atomic(ARENA + off, ARENA + off + t->objsize);
    bool spin = chance(1, 3), same = chance(1, 2); int k0 = spin ? gen(2) : 2 + gen(3);
    for (int i = 0; i < n; ++i) {
        w[i].kind = mode ? gen(4) : same ? k0 : spin ? (int)gen(2) : 2 + (int)gen(3); w[i].iters = 1 + gen(n > 4 ? 2 : 4); w[i].proc = ipc ? gen(3) : 0; mix_sig(w[i].kind + w[i].iters * 8 + w[i].proc * 64 + mode * 1000);
        if (!mode) total += w[i].iters;
        spawn(mode ? i ? passer : opener : locker, i, w[i].proc);
    }
    gaps(10 + 10 * (mode ? n : total)); cfg.no_wait_bitset = chance(1, 6);
    if (chance(1, 2)) cfg.p[K_EINTR] = 15000; if (chance(1, 2)) { cfg.p[K_SPUR] = 15000; cfg.p[K_DELAY] = 40000; }
    if (chance(1, 3)) cfg.p[K_STALL] = 2000; if (chance(1, 3)) cfg.p[K_ADV] = 3000; if (chance(1, 4)) cfg.p[K_OOM] = 20000;
    cfg.fair_after = 20000; cfg.max_steps = 160000; probe_name(0, "threads finished their critical sections"); probe_name(1, "threads passed the gate");
}
void check() {
    uint32_t* d = (uint32_t*)(ARENA + doff); if (mode) return;
    if (d[3]) fail("overlap", "%s: a thread entered a critical section and found it in use", t->name);
    if (d[0] != (uint32_t)total || d[1] != ~(uint32_t)total) fail("overlap", "%s: %d critical sections left the counter at %u and its complement at %u", t->name, total, d[0], ~d[1]);
    mix(d[0]);
}
Reg reg("flag", setup, check);
}
