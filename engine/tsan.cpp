// Happens-before race detector behind the compiler's -fsanitize=thread interface. Linked into every simulator
// binary; does something only when the instrumented objects call it (tsan_present set by the build).
#include "core.h"
#include <cstring>
#include <cstdio>
#include <vector>
#include <unordered_map>
using namespace sim;
extern "C" { extern const int sim_tsan_mode __attribute__((weak)); }
bool tsan_present = &sim_tsan_mode != nullptr;
enum { TF = 12 };              // happens-before builds run at most this many fibers
typedef uint32_t VC[TF];
static VC vc[TF];            // thread clocks
static VC frel[TF];          // clock at last release fence
static VC facq[TF];          // accumulated by relaxed loads, joined by an acquire fence
static bool has_frel[TF];
struct Loc { VC rel; };
static std::unordered_map<uint64_t, Loc> locs;
struct BS { uint64_t addr; uint32_t gen; int8_t wf; uint32_t wc; uint32_t rc[TF], awc[TF], arc[TF]; };
enum { TBL = 1 << 15 };
static BS tbl[TBL]; static uint32_t gen_ = 1; static uint32_t fill;
static int narange;
static inline void join(VC a, const VC b) { for (int i = 0; i < TF; ++i) if (b[i] > a[i]) a[i] = b[i]; }
void tsan_reset() { narange = 0; memset(vc, 0, sizeof vc); memset(frel, 0, sizeof frel); memset(facq, 0, sizeof facq); memset(has_frel, 0, sizeof has_frel); for (int i = 0; i < TF; ++i) vc[i][i] = 1; locs.clear(); ++gen_; fill = 0; }
void tsan_switch(int) {}
void tsan_spawn(int p, int c) { join(vc[c], vc[p]); vc[p][p]++; }
static uint64_t canon(uint64_t a) { if (a >= ARENA2_BASE && a < ARENA2_BASE + ARENA_SIZE) return a - ARENA2_BASE + ARENA_BASE; if (a >= ARENA3_BASE && a < ARENA3_BASE + ARENA_SIZE) return a - ARENA3_BASE + ARENA_BASE; return a; }
void tsan_mutex_acquire(uint64_t k) { auto i = locs.find(k ^ (1ull << 63)); if (i != locs.end()) join(vc[C.cur->id], i->second.rel); }
void tsan_mutex_release(uint64_t k) { int t = C.cur->id; Loc& l = locs[k ^ (1ull << 63)]; join(l.rel, vc[t]); vc[t][t]++; }
static bool tracked(uint64_t a) { return (a >= FARENA_BASE && a < HEAP_BASE + HEAP_SIZE) || (a >= C.sut_lo && a < C.sut_hi) || (a >= C.bss_lo && a < C.bss_hi); }
static BS& slot(uint64_t a) {
    uint64_t h = (a * 0x9e3779b97f4a7c15ull) >> 49;
    for (;;) { BS& b = tbl[h]; if (b.gen != gen_) { if (++fill > TBL * 3 / 4) fail("internal", "race table full"); memset((void*)&b, 0, sizeof b); b.addr = a; b.gen = gen_; b.wf = -1; return b; } if (b.addr == a) return b; h = (h + 1) & (TBL - 1); }
}
static void report(uint64_t a, const char* what, int other, const char* ow) {
    const char* r = lib_address((void*)a) ? "the library's internal data" : "user data";
    fail("data-race", "%s by t%d not ordered with earlier %s by t%d on %s", what, C.cur->id, ow, other, r);
}
static struct { uint64_t lo, hi; } arange[4];
namespace sim { void race_atomic(const void* lo, const void* hi) { if (narange < 4) arange[narange++] = { (uint64_t)lo, (uint64_t)hi }; } }
static void access(uint64_t a, uint32_t n, bool write, bool atomic) {
    if (!C.active || !tracked(a)) return;
    for (int i = 0; i < narange; ++i) if (a >= arange[i].lo && a < arange[i].hi) { atomic = true; break; }
    int t = C.cur->id; const uint32_t* me = vc[t]; a = canon(a);
    for (uint32_t i = 0; i < n; ++i) {
        BS& b = slot(a + i);
        if (b.wf >= 0 && b.wf != t && b.wc > me[b.wf]) report(a, atomic ? "atomic access" : write ? "write" : "read", b.wf, "write");
        for (int o = 0; o < TF; ++o) { if (o == t) continue;
            if (write && b.rc[o] > me[o]) report(a, atomic ? "atomic write" : "write", o, "read");
            if (!atomic && b.awc[o] > me[o]) report(a, write ? "write" : "read", o, "atomic write");
            if (!atomic && write && b.arc[o] > me[o]) report(a, "write", o, "atomic read"); }
        if (atomic) { if (write) b.awc[t] = me[t]; else b.arc[t] = me[t]; }
        else if (write) { b.wf = t; b.wc = me[t]; } else b.rc[t] = me[t];
    }
}
void tsan_access(uint64_t a, uint32_t n, bool write) { access(a, n, write, false); }
void tsan_free(uint64_t, uint64_t) {}
static void point(uint64_t a, uint32_t n, uint32_t t) { if (sim_hook_c(t | (uint64_t)n << 8, a)) sim_hook_slow(t | (uint64_t)n << 8, a); }
static bool is_acq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
static bool is_rel(int o) { return o == 3 || o == 4 || o == 5; }
static void do_acquire(uint64_t a, int o) {
    int t = C.cur->id; auto i = locs.find(canon(a)); if (i == locs.end()) return;
    if (is_acq(o)) join(vc[t], i->second.rel); else join(facq[t], i->second.rel);
}
static void do_release(uint64_t a, int o, bool rmw) {
    int t = C.cur->id; Loc& l = locs[canon(a)];
    if (!rmw) memset(l.rel, 0, sizeof l.rel);
    if (is_rel(o)) { join(l.rel, vc[t]); vc[t][t]++; }
    else if (has_frel[t]) join(l.rel, frel[t]);
}
// order translation: bit 15 and up are hints
#define ORD(o) ((o) & 0x7fff)
template <class T> static T aload(volatile T* p, int o) { if (!C.active) return *p; point((uint64_t)p, sizeof(T), A_FENCE); access((uint64_t)p, sizeof(T), false, true); T v = *p; do_acquire((uint64_t)p, ORD(o)); return v; }
template <class T> static void astore(volatile T* p, T v, int o) { if (!C.active) { *p = v; return; } point((uint64_t)p, sizeof(T), A_FENCE); access((uint64_t)p, sizeof(T), true, true); do_release((uint64_t)p, ORD(o), false); *p = v; }
template <class T, class F> static T armw(volatile T* p, int o, F f) { if (!C.active) { T v = *p; *p = f(v); return v; } point((uint64_t)p, sizeof(T), A_FENCE); access((uint64_t)p, sizeof(T), true, true); T v = *p; do_acquire((uint64_t)p, ORD(o)); do_release((uint64_t)p, ORD(o), true); *p = f(v); return v; }
template <class T> static bool acas(volatile T* p, T* e, T d, int o, int fo) {
    if (C.active) point((uint64_t)p, sizeof(T), A_FENCE);
    T v = *p;
    if (v == *e) { if (C.active) { access((uint64_t)p, sizeof(T), true, true); do_acquire((uint64_t)p, ORD(o)); do_release((uint64_t)p, ORD(o), true); } *p = d; return true; }
    if (C.active) { access((uint64_t)p, sizeof(T), false, true); do_acquire((uint64_t)p, ORD(fo)); }
    *e = v; return false;
}
typedef unsigned __int128 u128;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(n) void __tsan_read##n(void* a) { point((uint64_t)a, n, A_READ); access((uint64_t)a, n, false, false); } \
 void __tsan_write##n(void* a) { point((uint64_t)a, n, A_WRITE); access((uint64_t)a, n, true, false); } \
 void __tsan_unaligned_read##n(void* a) { __tsan_read##n(a); } void __tsan_unaligned_write##n(void* a) { __tsan_write##n(a); } \
 void __tsan_volatile_read##n(void* a) { __tsan_read##n(a); } void __tsan_volatile_write##n(void* a) { __tsan_write##n(a); } \
 void __tsan_read_write##n(void* a) { __tsan_read##n(a); __tsan_write##n(a); } void __tsan_unaligned_read_write##n(void* a) { __tsan_read##n(a); __tsan_write##n(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { if (!n) return; point((uint64_t)a, 1, A_READ); access((uint64_t)a, n, false, false); }
void __tsan_write_range(void* a, unsigned long n) { if (!n) return; point((uint64_t)a, 1, A_WRITE); access((uint64_t)a, n, true, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { extern void* sim_memcpy(void*, const void*, size_t); return sim_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { extern void* sim_memmove(void*, const void*, size_t); return sim_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { extern void* sim_memset(void*, int, size_t); return sim_memset(d, c, n); }
#define AT(T, n) \
 T __tsan_atomic##n##_load(const volatile T* p, int o) { return aload((volatile T*)p, o); } \
 void __tsan_atomic##n##_store(volatile T* p, T v, int o) { astore(p, v, o); } \
 T __tsan_atomic##n##_exchange(volatile T* p, T v, int o) { return armw(p, o, [&](T) { return v; }); } \
 T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int o) { return armw(p, o, [&](T x) { return (T)(x + v); }); } \
 T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int o) { return armw(p, o, [&](T x) { return (T)(x - v); }); } \
 T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int o) { return armw(p, o, [&](T x) { return (T)(x & v); }); } \
 T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int o) { return armw(p, o, [&](T x) { return (T)(x | v); }); } \
 T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int o) { return armw(p, o, [&](T x) { return (T)(x ^ v); }); } \
 T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int o) { return armw(p, o, [&](T x) { return (T)~(x & v); }); } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T d, int o, int f) { return acas(p, e, d, o, f); } \
 int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T d, int o, int f) { return acas(p, e, d, o, f); } \
 T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T d, int o, int f) { acas(p, &e, d, o, f); return e; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64) AT(u128, 128)
void __tsan_atomic_thread_fence(int o) {
    if (!C.active) return; point(0, 0, A_FENCE); int t = C.cur->id; o = ORD(o);
    if (is_acq(o)) join(vc[t], facq[t]);
    if (o == 5) { Loc& l = locs[1]; join(vc[t], l.rel); join(l.rel, vc[t]); }
    if (is_rel(o)) { memcpy(frel[t], vc[t], sizeof(VC)); has_frel[t] = true; vc[t][t]++; }
}
void __tsan_atomic_signal_fence(int) {}
// annotations the library places around its inline assembly
void __tsan_acquire(void* a) { if (!C.active) return; int t = C.cur->id; auto i = locs.find(canon((uint64_t)a)); if (i != locs.end()) join(vc[t], i->second.rel); }
void __tsan_release(void* a) { if (!C.active) return; point((uint64_t)a, 1, A_FENCE); int t = C.cur->id; Loc& l = locs[canon((uint64_t)a)]; join(l.rel, vc[t]); vc[t][t]++; }
void AnnotateHappensBefore(const char*, int, void*) {}
void AnnotateHappensAfter(const char*, int, void*) {}
}
