// Fast path of the access hook. Compiled with -mgeneral-regs-only.
#include "core.h"
extern "C" {
// no library memcpy here: the interrupted code's vector registers are live
static inline void copyb(void* d, const void* s, uint64_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }

void sim_sb_log(Fiber* f, uint32_t n, uint64_t a) {
    if (n > 32 || n == 0) { f->sbn = 0; return; }
    if (f->sbn == sim::SBN) { copyb(&f->sb[0], &f->sb[1], (sim::SBN - 1) * sizeof(SBEnt)); --f->sbn; }
    SBEnt& e = f->sb[f->sbn++];
    e.a = a; e.n = n;
    if (n == 8) *(uint64_t*)e.old = *(volatile uint64_t*)a;
    else if (n == 4) *(uint32_t*)e.old = *(volatile uint32_t*)a;
    else copyb(e.old, (const uint8_t*)a, n);
    C.buffered++;
}

static inline int shadow_bad(uint64_t a, uint32_t n) {
    if (n == 0) n = 1;
    for (uint64_t x = a; x < a + n; x = (x & ~7ull) + 8) {
        uint8_t s = sim_shadow[(x - HEAP_BASE) >> 3];
        uint64_t last = (a + n - 1) < (x | 7) ? ((a + n - 1) & 7) : 7;
        if (s == 0 || s > 8 || last >= s) return 1;
    }
    return 0;
}

int sim_hook_c(uint64_t kind, uint64_t a) {
    if (!C.active) return 0;
    uint32_t t = kind & 0xff, n = (uint32_t)(kind >> 8);
    bool shared = (a >= FARENA_BASE && a < HEAP_BASE + HEAP_SIZE) || (a >= C.sut_lo && a < C.sut_hi) || (a >= C.bss_lo && a < C.bss_hi);
    if (t < A_LOCKED || t == A_UNKNOWN) { if (!shared) return 0; }
    Fiber* f = C.cur;
    C.steps++; f->acc++;
    if (shared) {
        bool heap = a >= HEAP_BASE && a < HEAP_BASE + HEAP_SIZE;
        if (heap && shadow_bad(a, n)) { C.bad = true; C.badcls = "heap-misuse"; C.badaddr = a; C.badkind = t; return 1; }
        if (f->mon && t != A_READ && a < f->g_hi && a + n > f->g_lo && (a < f->mon_lo || a + n > f->mon_hi)) { C.bad = true; C.badcls = "write-outside-object"; C.badaddr = a; C.badkind = t; return 1; }
        if (f->libw && (a >= HEAP_BASE || a < FARENA_BASE)) f->libt++;
    }
    if (--C.countdown <= 0 || t == A_PAUSE) return 1;
    if (t == A_WRITE || t == A_RMW) { if (C.tso) { C.plain_stores++; sim_sb_log(f, n, a); } }
    else if (t >= A_LOCKED) { C.locked++; f->sbn = 0; }
    return 0;
}
// the simulated processor's features (selects the address search implementation)
void sim_cpuid(uint32_t* r) { uint32_t fn = r[0]; r[0] = r[1] = r[2] = r[3] = 0; if (fn == 0) r[0] = sim::cfg.cpu_level ? 7 : 0; else if (fn == 1) { if (sim::cfg.cpu_level >= 1) r[3] |= 1u << 26; if (sim::cfg.cpu_level >= 2) r[2] |= 1u << 19; } }
}
