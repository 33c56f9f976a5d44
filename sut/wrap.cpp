// Instrumented wrappers: one translation unit per (FLAVOR, GROUP).
#include <boost/atomic/atomic.hpp>
#include <boost/atomic/atomic_ref.hpp>
#include <boost/atomic/ipc_atomic.hpp>
#include <boost/atomic/ipc_atomic_ref.hpp>
#include <boost/atomic/atomic_flag.hpp>
#include <boost/atomic/ipc_atomic_flag.hpp>
#include <boost/atomic/capabilities.hpp>
#include <chrono>
#include <new>
#include <type_traits>
#include "ops.h"
#ifndef FLAVOR
#define FLAVOR 0
#endif
#ifndef GROUP
#define GROUP 2
#endif
namespace {
using boost::memory_order_seq_cst; using boost::memory_order_relaxed; using boost::memory_order_acquire; using boost::memory_order_release; using boost::memory_order_acq_rel;

// ---- clocks with and without POSIX traits
struct clk_mono { typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<clk_mono> time_point; static constexpr bool is_steady = true; static time_point now() noexcept { return time_point(duration(sim_user_clock(CK_MONO_TRAITS))); } };
struct clk_real_us { typedef std::chrono::microseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<clk_real_us> time_point; static constexpr bool is_steady = false; static time_point now() noexcept { return time_point(duration(sim_user_clock(CK_REAL_TRAITS_US))); } };
struct clk_plain_ms { typedef std::chrono::milliseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<clk_plain_ms> time_point; static constexpr bool is_steady = true; static time_point now() noexcept { return time_point(duration(sim_user_clock(CK_PLAIN_MS))); } };
struct clk_boot { typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<clk_boot> time_point; static constexpr bool is_steady = true; static time_point now() noexcept { return time_point(duration(sim_user_clock(CK_BOOT_TRAITS))); } };
inline timespec ns_to_ts(int64_t ns, int64_t off_s) noexcept { timespec t; int64_t s = ns / 1000000000, r = ns % 1000000000; if (r < 0) { r += 1000000000; --s; } t.tv_sec = s + off_s; t.tv_nsec = r; return t; }
}
namespace boost { namespace atomics {
template<> struct posix_clock_traits<clk_mono> { static constexpr clockid_t clock_id = CLOCK_MONOTONIC; static timespec to_timespec(clk_mono::time_point t) noexcept { return ns_to_ts(t.time_since_epoch().count(), MONO_TRAITS_OFF_S); } };
template<> struct posix_clock_traits<clk_real_us> { static constexpr clockid_t clock_id = CLOCK_REALTIME; static timespec to_timespec(clk_real_us::time_point t) noexcept { return ns_to_ts(std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(), 0); } };
template<> struct posix_clock_traits<clk_boot> { static constexpr clockid_t clock_id = CLOCK_BOOTTIME; static timespec to_timespec(clk_boot::time_point t) noexcept { return ns_to_ts(t.time_since_epoch().count(), 0); } };
} }
namespace {

enum E8 : unsigned char { e8a }; enum class E16 : short { a }; enum class E32 : int { a }; enum class E64 : unsigned long long { a };
template<unsigned N, unsigned AL = 1> struct alignas(AL) Sn { unsigned char d[N]; };
struct PadA { unsigned char a; uint32_t b; };          // 8 bytes, 3 padding
struct PadB { uint64_t a; unsigned char b; };          // 16 bytes, 7 padding
struct PadC { unsigned char a; uint16_t b; };          // 4 bytes, 1 padding
struct PadD { uint32_t a; uint64_t b; uint16_t c; };   // 24 bytes, emulated
struct S24 { uint64_t a, b, c; };
struct W40 { uint64_t w[5]; };
struct NT { unsigned a; NT() noexcept : a(0) {} explicit NT(unsigned x) noexcept : a(x) {} };   // not trivially default constructible

template<class T> inline T get(const unsigned char* p) { T v; __builtin_memcpy((void*)&v, p, sizeof(T)); return v; }
template<class T> inline void put(unsigned char* p, T const& v) { __builtin_memcpy(p, (const void*)&v, sizeof(T)); }
// An operand taken from a wider variable of the caller's, which the operation has no business changing
constexpr uint64_t above = 0xd3b15ca6e94f8a71ull;
template<class T, bool SMALL = (sizeof(T) <= 8)> struct Kept {
    uint64_t k; const unsigned char* p;
    inline __attribute__((always_inline)) explicit Kept(const unsigned char* q) : k(above), p(q) { __builtin_memcpy(&k, p, sizeof(T)); asm("" : "+r"(k)); }
    inline __attribute__((always_inline)) operator T() const { T v; __builtin_memcpy((void*)&v, &k, sizeof(T)); return v; }
    inline __attribute__((always_inline)) void check() const { uint64_t w = above; __builtin_memcpy(&w, p, sizeof(T)); asm("" : "+r"(w)); if (__builtin_expect(w != k, 0)) sim_user_changed(w, k); }
};
template<class T> struct Kept<T, false> {
    const unsigned char* p;
    inline __attribute__((always_inline)) explicit Kept(const unsigned char* q) : p(q) {}
    inline __attribute__((always_inline)) operator T() const { return get<T>(p); }
    inline void check() const {}
};

#if FLAVOR == 0
template<class T> using A = boost::atomic<T>;
#elif FLAVOR == 1
template<class T> using A = boost::atomic_ref<T>;
#elif FLAVOR == 2
template<class T> using A = boost::ipc_atomic<T>;
#else
template<class T> using A = boost::ipc_atomic_ref<T>;
#endif
constexpr bool is_ref = FLAVOR == 1 || FLAVOR == 3;
#if FLAVOR == 1 || FLAVOR == 3
#define OBJ(T, m) A<T> x(*static_cast<T*>(m))
#define CONV_(x) static_cast<T>(x)
#else
#define OBJ(T, m) A<T>& x = *static_cast<A<T>*>(m)
#define CONV_(x) static_cast<T>(x)
#endif

#define CASE_SC(OP, ...) case OP_##OP * 4 + 0: { constexpr auto MO = memory_order_seq_cst; (void)MO; __VA_ARGS__; } break;
#define CASE_RX(OP, ...) case OP_##OP * 4 + 1: { constexpr auto MO = memory_order_relaxed; (void)MO; __VA_ARGS__; } break;
#define CASE_MD(OP, M, ...) case OP_##OP * 4 + 2: { constexpr auto MO = M; (void)MO; __VA_ARGS__; } break;
#define CASE3(OP, M, ...) CASE_SC(OP, __VA_ARGS__) CASE_RX(OP, __VA_ARGS__) CASE_MD(OP, M, __VA_ARGS__)
#define CASE2(OP, ...) CASE_SC(OP, __VA_ARGS__) CASE_RX(OP, __VA_ARGS__)

template<class T> __attribute__((noinline)) void exec_core(void* m, const OpDesc* d, OpRes* r) {
    OBJ(T, m); const Kept<T> ka(d->a), kb(d->b);
    switch (d->op * 4 + d->mo) {
    CASE3(LOAD, memory_order_acquire, T v = x.load(MO); put(r->v, v))
    CASE3(STORE, memory_order_release, x.store(T(ka), MO))
    CASE3(XCHG, memory_order_acq_rel, T v = x.exchange(T(ka), MO); put(r->v, v))
    CASE_SC(CASW, T e = T(kb); r->ok = x.compare_exchange_weak(e, T(ka)); put(r->v, e))
    CASE_RX(CASW, T e = T(kb); r->ok = x.compare_exchange_weak(e, T(ka), MO, MO); put(r->v, e))
    CASE_MD(CASW, memory_order_acq_rel, T e = T(kb); r->ok = x.compare_exchange_weak(e, T(ka), MO, memory_order_acquire); put(r->v, e))
    CASE_SC(CASS, T e = T(kb); r->ok = x.compare_exchange_strong(e, T(ka)); put(r->v, e))
    CASE_RX(CASS, T e = T(kb); r->ok = x.compare_exchange_strong(e, T(ka), MO, MO); put(r->v, e))
    CASE_MD(CASS, memory_order_release, T e = T(kb); r->ok = x.compare_exchange_strong(e, T(ka), MO, memory_order_relaxed); put(r->v, e))
    CASE_SC(ASSIGN, x = T(ka))
    CASE_SC(CONV, T v = CONV_(x); put(r->v, v))
    }
    ka.check(); kb.check();
}
template<class T> struct tag {};
template<class X, class D> inline typename X::value_type do_wait_for(bool& tmo, X& x, typename X::value_type old, D dur, boost::memory_order) { auto r = x.wait_for(old, dur); tmo = r.timeout; return r.value; }
template<class T> __attribute__((noinline)) void exec_wait(void* m, const OpDesc* d, OpRes* r) {
    OBJ(T, m);
    T old = get<T>(d->b); r->tmo = false;
    using namespace std::chrono;
#define WF(D) { auto w = x.wait_for(old, D); r->tmo = w.timeout; put(r->v, T(w.value)); }
#define WU(CLK, D) { auto w = x.wait_until(old, CLK::time_point(D)); r->tmo = w.timeout; put(r->v, T(w.value)); }
    switch (d->op) {
    case OP_WAIT: if (d->mo == 0) put(r->v, T(x.wait(old))); else if (d->mo == 1) put(r->v, T(x.wait(old, memory_order_relaxed))); else put(r->v, T(x.wait(old, memory_order_acquire))); break;
    case OP_WAITFOR: switch (d->unit) {
        case 0: WF(nanoseconds(d->t)) break; case 1: WF(microseconds(d->t / 1000)) break; case 2: WF(milliseconds(d->t / 1000000)) break;
        case 3: WF(seconds(d->t / 1000000000)) break; case 4: WF(hours(d->t / 3600000000000ll)) break;
        case 6: { typedef duration<int, std::ratio<60> > dmin; WF(dmin((int)(d->t / 60000000000ll))) } break;
        default: { typedef duration<int, std::milli> dim; WF(dim((int)(d->t / 1000000))) } break; } break;
    case OP_WAITUNTIL: switch (d->clk) {
        case CK_STEADY: if (d->unit == 2) { auto w = x.wait_until(old, time_point<steady_clock, milliseconds>(milliseconds(d->t / 1000000))); r->tmo = w.timeout; put(r->v, T(w.value)); } else WU(steady_clock, steady_clock::duration(d->t)) break;
        case CK_SYSTEM: if (d->unit == 3) { auto w = x.wait_until(old, time_point<system_clock, seconds>(seconds(d->t / 1000000000))); r->tmo = w.timeout; put(r->v, T(w.value)); } else WU(system_clock, system_clock::duration(d->t)) break;
        case CK_MONO_TRAITS: WU(clk_mono, nanoseconds(d->t)) break;
        case CK_REAL_TRAITS_US: WU(clk_real_us, microseconds(d->t / 1000)) break;
        case CK_PLAIN_MS: WU(clk_plain_ms, milliseconds(d->t / 1000000)) break;
        case CK_BOOT_TRAITS: WU(clk_boot, nanoseconds(d->t)) break; } break;
    case OP_NOTIFY1: x.notify_one(); break;
    case OP_NOTIFYALL: x.notify_all(); break;
    }
}
template<class T> __attribute__((noinline)) void exec_arith(void* m, const OpDesc* d, OpRes* r) {   // integers
    OBJ(T, m); const Kept<T> ka(d->a);
    switch (d->op * 4 + d->mo) {
    CASE3(FADD, memory_order_acq_rel, put(r->v, T(x.fetch_add(T(ka), MO)))) CASE3(FSUB, memory_order_acq_rel, put(r->v, T(x.fetch_sub(T(ka), MO))))
    CASE2(FNEG, put(r->v, T(x.fetch_negate(MO))))
    CASE2(ADD, put(r->v, T(x.add(T(ka), MO)))) CASE2(SUB, put(r->v, T(x.sub(T(ka), MO)))) CASE2(NEG, put(r->v, T(x.negate(MO))))
    CASE2(OADD, x.opaque_add(T(ka), MO)) CASE2(OSUB, x.opaque_sub(T(ka), MO)) CASE2(ONEG, x.opaque_negate(MO))
    CASE2(TADD, r->ok = x.add_and_test(T(ka), MO)) CASE2(TSUB, r->ok = x.sub_and_test(T(ka), MO)) CASE2(TNEG, r->ok = x.negate_and_test(MO))
    CASE_SC(POSTINC, put(r->v, T(x++))) CASE_SC(PREINC, put(r->v, T(++x))) CASE_SC(POSTDEC, put(r->v, T(x--))) CASE_SC(PREDEC, put(r->v, T(--x)))
    CASE_SC(OPADD, put(r->v, T(x += T(ka)))) CASE_SC(OPSUB, put(r->v, T(x -= T(ka))))
    CASE_SC(ADD1, put(r->v, T(x.add(T(1))))) CASE_SC(SUB1, put(r->v, T(x.sub(T(1))))) CASE_SC(OADD1, x.opaque_add(T(1))) CASE_SC(OSUB1, x.opaque_sub(T(1)))
    CASE_SC(TADD1, r->ok = x.add_and_test(T(1))) CASE_SC(TSUB1, r->ok = x.sub_and_test(T(1)))
    }
    ka.check();
}
template<class T> __attribute__((noinline)) void exec_bits(void* m, const OpDesc* d, OpRes* r) {    // integers and enums
    OBJ(T, m); const Kept<T> ka(d->a);
    switch (d->op * 4 + d->mo) {
    CASE3(FAND, memory_order_acq_rel, put(r->v, T(x.fetch_and(T(ka), MO)))) CASE3(FOR, memory_order_acq_rel, put(r->v, T(x.fetch_or(T(ka), MO)))) CASE3(FXOR, memory_order_acq_rel, put(r->v, T(x.fetch_xor(T(ka), MO))))
    CASE2(FCPL, put(r->v, T(x.fetch_complement(MO))))
    CASE2(BAND, put(r->v, T(x.bitwise_and(T(ka), MO)))) CASE2(BOR, put(r->v, T(x.bitwise_or(T(ka), MO)))) CASE2(BXOR, put(r->v, T(x.bitwise_xor(T(ka), MO)))) CASE2(BCPL, put(r->v, T(x.bitwise_complement(MO))))
    CASE2(OAND, x.opaque_and(T(ka), MO)) CASE2(OOR, x.opaque_or(T(ka), MO)) CASE2(OXOR, x.opaque_xor(T(ka), MO)) CASE2(OCPL, x.opaque_complement(MO))
    CASE2(TAND, r->ok = x.and_and_test(T(ka), MO)) CASE2(TOR, r->ok = x.or_and_test(T(ka), MO)) CASE2(TXOR, r->ok = x.xor_and_test(T(ka), MO)) CASE2(TCPL, r->ok = x.complement_and_test(MO))
    CASE2(BTS, r->ok = x.bit_test_and_set(d->bit, MO)) CASE2(BTR, r->ok = x.bit_test_and_reset(d->bit, MO)) CASE2(BTC, r->ok = x.bit_test_and_complement(d->bit, MO))
    CASE_SC(BTS3, r->ok = x.bit_test_and_set(sizeof(T) * 8 - 1)) CASE_SC(BTR3, r->ok = x.bit_test_and_reset(3)) CASE_SC(BTC3, r->ok = x.bit_test_and_complement(3))
    CASE_SC(OPAND, put(r->v, T(x &= T(ka)))) CASE_SC(OPOR, put(r->v, T(x |= T(ka)))) CASE_SC(OPXOR, put(r->v, T(x ^= T(ka))))
    }
    ka.check();
}
template<class T> __attribute__((noinline)) void exec_ptr(void* m, const OpDesc* d, OpRes* r) {
    OBJ(T, m); std::ptrdiff_t a = (std::ptrdiff_t)d->t;
    switch (d->op * 4 + d->mo) {
    CASE3(FADD, memory_order_acq_rel, put(r->v, T(x.fetch_add(a, MO)))) CASE3(FSUB, memory_order_acq_rel, put(r->v, T(x.fetch_sub(a, MO))))
    CASE2(ADD, put(r->v, T(x.add(a, MO)))) CASE2(SUB, put(r->v, T(x.sub(a, MO)))) CASE2(OADD, x.opaque_add(a, MO)) CASE2(OSUB, x.opaque_sub(a, MO))
    CASE2(TADD, r->ok = x.add_and_test(a, MO)) CASE2(TSUB, r->ok = x.sub_and_test(a, MO))
    CASE_SC(POSTINC, put(r->v, T(x++))) CASE_SC(PREINC, put(r->v, T(++x))) CASE_SC(POSTDEC, put(r->v, T(x--))) CASE_SC(PREDEC, put(r->v, T(--x)))
    CASE_SC(OPADD, put(r->v, T(x += a))) CASE_SC(OPSUB, put(r->v, T(x -= a)))
    CASE_SC(ADD1, put(r->v, T(x.add(1)))) CASE_SC(SUB1, put(r->v, T(x.sub(1)))) CASE_SC(OADD1, x.opaque_add(1)) CASE_SC(OSUB1, x.opaque_sub(1)) CASE_SC(TADD1, r->ok = x.add_and_test(1)) CASE_SC(TSUB1, r->ok = x.sub_and_test(1))
    }
}
template<class T> __attribute__((noinline)) void exec_fp(void* m, const OpDesc* d, OpRes* r) {
    OBJ(T, m); T a = get<T>(d->a);
    switch (d->op * 4 + d->mo) {
    CASE3(FADD, memory_order_acq_rel, put(r->v, T(x.fetch_add(a, MO)))) CASE3(FSUB, memory_order_acq_rel, put(r->v, T(x.fetch_sub(a, MO)))) CASE2(FNEG, put(r->v, T(x.fetch_negate(MO))))
    CASE2(ADD, put(r->v, T(x.add(a, MO)))) CASE2(SUB, put(r->v, T(x.sub(a, MO)))) CASE2(NEG, put(r->v, T(x.negate(MO))))
    CASE2(OADD, x.opaque_add(a, MO)) CASE2(OSUB, x.opaque_sub(a, MO)) CASE2(ONEG, x.opaque_negate(MO))
    CASE_SC(OPADD, put(r->v, T(x += a))) CASE_SC(OPSUB, put(r->v, T(x -= a)))
    }
}
template<class T> struct is_int : std::integral_constant<bool, std::is_integral<T>::value && !std::is_same<T, bool>::value> {};
#ifdef BOOST_HAS_INT128
#if !defined(__GLIBCXX_TYPE_INT_N_0)
template<> struct is_int<boost::uint128_type> : std::true_type {};
template<> struct is_int<boost::int128_type> : std::true_type {};
#endif
#endif
// references with other qualifications
#if FLAVOR == 1 || FLAVOR == 3
template<class T> inline void exec_vol(std::false_type, void*, const OpDesc*, OpRes*) {}
template<class T> __attribute__((noinline)) void exec_vol(std::true_type, void* m, const OpDesc* d, OpRes* r) {
        A<volatile T> y(*static_cast<volatile T*>(m));
        switch (d->op) {
        case OP_LOAD: put(r->v, T(y.load())); break; case OP_STORE: y.store(get<T>(d->a)); break; case OP_XCHG: put(r->v, T(y.exchange(get<T>(d->a)))); break;
        case OP_CASS: { T e = get<T>(d->b); volatile T& ve = e; r->ok = y.compare_exchange_strong(ve, get<T>(d->a)); put(r->v, e); break; }
        case OP_CASW: { T e = get<T>(d->b); volatile T& ve = e; r->ok = y.compare_exchange_weak(ve, get<T>(d->a)); put(r->v, e); break; }
        case OP_FADD: put(r->v, T(y.fetch_add(get<T>(d->a)))); break;
        case OP_NOTIFY1: y.notify_one(); break; case OP_NOTIFYALL: y.notify_all(); break; case OP_WAIT: put(r->v, T(y.wait(get<T>(d->b)))); break;
        }
}
#endif
template<class T> __attribute__((noinline)) void exec_cv(void* m, const OpDesc* d, OpRes* r) {
#if FLAVOR == 1 || FLAVOR == 3
    if (d->cv == 2) { A<const T> y(*static_cast<const T*>(m)); A<const T> z(y); if (d->op == OP_LOAD) { T v = z.load(); put(r->v, v); } else { T old = get<T>(d->b); T v = z.wait(old); put(r->v, v); } return; }
    if (d->cv == 1) { exec_vol<T>(is_int<T>(), m, d, r); return; }
    { A<T> y(*static_cast<T*>(m)); A<T> z(y);
        switch (d->op) {
        case OP_LOAD: put(r->v, T(z.load())); break; case OP_STORE: z.store(get<T>(d->a)); break; case OP_XCHG: put(r->v, T(z.exchange(get<T>(d->a)))); break;
        case OP_CASS: { T e = get<T>(d->b); r->ok = z.compare_exchange_strong(e, get<T>(d->a)); put(r->v, e); break; }
        case OP_CASW: { T e = get<T>(d->b); r->ok = z.compare_exchange_weak(e, get<T>(d->a)); put(r->v, e); break; }
        case OP_NOTIFY1: z.notify_one(); break; case OP_NOTIFYALL: z.notify_all(); break; case OP_WAIT: put(r->v, T(z.wait(get<T>(d->b)))); break;
        } }
#else
    (void)m; (void)d; (void)r;
#endif
}
#define B(o) (1ull << OP_##o)
constexpr uint64_t M_CORE = B(LOAD) | B(STORE) | B(XCHG) | B(CASW) | B(CASS) | B(ASSIGN) | B(CONV);
constexpr uint64_t M_WAIT = B(WAIT) | B(WAITFOR) | B(WAITUNTIL) | B(NOTIFY1) | B(NOTIFYALL);
constexpr uint64_t M_ADD = B(FADD) | B(FSUB) | B(ADD) | B(SUB) | B(OADD) | B(OSUB) | B(OPADD) | B(OPSUB);
constexpr uint64_t M_INCT = B(TADD) | B(TSUB) | B(POSTINC) | B(PREINC) | B(POSTDEC) | B(PREDEC) | B(ADD1) | B(SUB1) | B(OADD1) | B(OSUB1) | B(TADD1) | B(TSUB1);
constexpr uint64_t M_NEG = B(FNEG) | B(NEG) | B(ONEG);
constexpr uint64_t M_BITS = B(FAND) | B(FOR) | B(FXOR) | B(FCPL) | B(BAND) | B(BOR) | B(BXOR) | B(BCPL) | B(OAND) | B(OOR) | B(OXOR) | B(OCPL) | B(TAND) | B(TOR) | B(TXOR) | B(TCPL) | B(BTS) | B(BTR) | B(BTC) | B(BTS3) | B(BTR3) | B(BTC3) | B(OPAND) | B(OPOR) | B(OPXOR);
inline bool is_wait(int o) { return o >= OP_WAIT && o <= OP_NOTIFYALL; }
inline bool is_core(int o) { return o <= OP_CONV; }
inline bool is_bits(int o) { return (M_BITS >> o) & 1; }
template<class T> void exec_int(void* m, const OpDesc* d, OpRes* r) { if (is_ref && d->cv) exec_cv<T>(m, d, r); else if (is_core(d->op)) exec_core<T>(m, d, r); else if (is_wait(d->op)) exec_wait<T>(m, d, r); else if (is_bits(d->op)) exec_bits<T>(m, d, r); else exec_arith<T>(m, d, r); }
template<class T> void exec_enum(void* m, const OpDesc* d, OpRes* r) { if (is_ref && d->cv) exec_cv<T>(m, d, r); else if (is_core(d->op)) exec_core<T>(m, d, r); else if (is_wait(d->op)) exec_wait<T>(m, d, r); else exec_bits<T>(m, d, r); }
template<class T> void exec_pt(void* m, const OpDesc* d, OpRes* r) { if (is_ref && d->cv) exec_cv<T>(m, d, r); else if (is_core(d->op)) exec_core<T>(m, d, r); else if (is_wait(d->op)) exec_wait<T>(m, d, r); else exec_ptr<T>(m, d, r); }
template<class T> void exec_f(void* m, const OpDesc* d, OpRes* r) { if (is_ref && d->cv) exec_cv<T>(m, d, r); else if (is_core(d->op)) exec_core<T>(m, d, r); else if (is_wait(d->op)) exec_wait<T>(m, d, r); else exec_fp<T>(m, d, r); }
template<class T> void exec_plain(void* m, const OpDesc* d, OpRes* r) { if (is_ref && d->cv) exec_cv<T>(m, d, r); else if (is_core(d->op)) exec_core<T>(m, d, r); else exec_wait<T>(m, d, r); }

#if FLAVOR == 1 || FLAVOR == 3
template<class T> void init_t(void* m, const unsigned char* v) { __builtin_memcpy(m, v, sizeof(T)); }
template<class T> void init_pad(void* m, const unsigned char* v) { __builtin_memcpy(m, v, sizeof(T)); A<T> x(*static_cast<T*>(m)); x.store(get<T>(v)); }
#define OBJSIZE(T) sizeof(T)
#define OBJALIGN(T) A<T>::required_alignment
#else
template<class T> void init_t(void* m, const unsigned char* v) { new (m) A<T>(get<T>(v)); }
template<class T> void init_pad(void* m, const unsigned char* v) { new (m) A<T>(get<T>(v)); }
#define OBJSIZE(T) sizeof(A<T>)
#define OBJALIGN(T) alignof(A<T>)
#endif
#if FLAVOR == 0
#define FN "atomic<"
#elif FLAVOR == 1
#define FN "atomic_ref<"
#elif FLAVOR == 2
#define FN "ipc_atomic<"
#else
#define FN "ipc_atomic_ref<"
#endif
#define TI(T, CLS, OPS, EXEC, SCALE, NB, ...) { FN #T ">", CLS, FLAVOR, sizeof(T), OBJSIZE(T), OBJALIGN(T), A<T>::is_always_lock_free, A<T>::always_has_native_wait_notify, SCALE, NB, __VA_ARGS__, OPS, init_t<T>, EXEC<T>, OBJSIZE(T) }
#define ALLB { 255,255,255,255,255,255,255,255, 255,255,255,255,255,255,255,255, 255,255,255,255,255,255,255,255, 255,255,255,255,255,255,255,255, 255,255,255,255,255,255,255,255, 255,255,255,255,255,255,255,255, 255,255,255,255,255,255,255,255, 255,255,255,255,255,255,255,255 }
#define TI_U(T) TI(T, CL_UINT, M_CORE | M_WAIT | M_ADD | M_INCT | M_NEG | B(TNEG) | M_BITS, exec_int, 1, sizeof(T) * 8, ALLB)
#define TI_S(T) TI(T, CL_SINT, M_CORE | M_WAIT | M_ADD | M_INCT | M_NEG | B(TNEG) | M_BITS, exec_int, 1, sizeof(T) * 8, ALLB)
#define TI_E(T) TI(T, CL_ENUM, M_CORE | M_WAIT | M_BITS, exec_enum, 1, sizeof(T) * 8, ALLB)
#define TI_P(T, S) TI(T, CL_PTR, M_CORE | M_WAIT | M_ADD | M_INCT, exec_pt, S, 64, ALLB)
#define TI_X(T) TI(T, CL_STRUCT, (M_CORE), exec_plain, 1, sizeof(T) * 8 > 65535 ? 0 : sizeof(T) * 8, ALLB)
#define TI_ST(T) TI(T, CL_STRUCT, M_CORE | M_WAIT, exec_plain, 1, sizeof(T) * 8, ALLB)
#define TI_PD(T, ...) { FN #T ">", CL_STRUCT, FLAVOR, sizeof(T), OBJSIZE(T), OBJALIGN(T), A<T>::is_always_lock_free, A<T>::always_has_native_wait_notify, 1, sizeof(T) * 8, __VA_ARGS__, M_CORE | M_WAIT, init_pad<T>, exec_plain<T>, OBJSIZE(T) }
typedef int32_t* pint; typedef char* pchar; typedef void* pvoid; typedef S24* ps24; typedef void (*pfun)();
#ifdef BOOST_HAS_INT128
typedef boost::uint128_type u128; typedef boost::int128_type s128;
#endif
typedef Sn<1> s1; typedef Sn<2, 2> s2; typedef Sn<3> s3; typedef Sn<4, 4> s4; typedef Sn<5> s5; typedef Sn<8, 8> s8; typedef Sn<12, 4> s12; typedef Sn<16, 16> s16; typedef Sn<16, 8> s16a8; typedef Sn<16, 1> s16u; typedef Sn<8, 1> s8u; typedef Sn<17> s17; typedef Sn<32, 32> s32a; typedef Sn<7> s7; typedef Sn<48, 16> s48; typedef Sn<64, 8> s64b;
// the atomic flag: a clear or test-and-set stands for a store of false or true
#if GROUP == 10
#if FLAVOR == 0
typedef boost::atomic_flag flag_t;
#define FLN "atomic_flag<>"
#else
typedef boost::ipc_atomic_flag flag_t;
#define FLN "ipc_atomic_flag<>"
#endif
__attribute__((noinline)) void exec_flag(void* m, const OpDesc* d, OpRes* r) {
    flag_t& x = *static_cast<flag_t*>(m); bool old = d->b[0] != 0, v; r->tmo = false;
    using namespace std::chrono;
#define FO(W, E) { auto w = E; r->tmo = w.timeout; r->v[0] = w.value; }
    switch (d->op) {
    case OP_LOAD: case OP_TEST: v = d->mo == 0 ? x.test() : d->mo == 1 ? x.test(memory_order_relaxed) : x.test(memory_order_acquire); r->ok = v; r->v[0] = v; break;
    case OP_STORE: if (d->a[0]) { if (d->mo == 0) x.test_and_set(); else if (d->mo == 1) x.test_and_set(memory_order_relaxed); else x.test_and_set(memory_order_release); }
        else { if (d->mo == 0) x.clear(); else if (d->mo == 1) x.clear(memory_order_relaxed); else x.clear(memory_order_release); } break;
    case OP_TAS: v = d->mo == 0 ? x.test_and_set() : d->mo == 1 ? x.test_and_set(memory_order_relaxed) : x.test_and_set(memory_order_acquire); r->ok = v; r->v[0] = v; break;
    case OP_CLEAR: if (d->mo == 0) x.clear(); else if (d->mo == 1) x.clear(memory_order_relaxed); else x.clear(memory_order_release); break;
    case OP_WAIT: v = d->mo == 0 ? x.wait(old) : d->mo == 1 ? x.wait(old, memory_order_relaxed) : x.wait(old, memory_order_acquire); r->v[0] = v; break;
    case OP_WAITFOR: switch (d->unit) {
        case 0: FO(w, x.wait_for(old, nanoseconds(d->t))) break; case 1: FO(w, x.wait_for(old, microseconds(d->t / 1000))) break; case 2: FO(w, x.wait_for(old, milliseconds(d->t / 1000000))) break;
        case 3: FO(w, x.wait_for(old, seconds(d->t / 1000000000))) break; case 4: FO(w, x.wait_for(old, hours(d->t / 3600000000000ll))) break;
        case 6: { typedef duration<int, std::ratio<60> > dmin; FO(w, x.wait_for(old, dmin((int)(d->t / 60000000000ll)))) } break;
        default: { typedef duration<int, std::milli> dim; FO(w, x.wait_for(old, dim((int)(d->t / 1000000)))) } break; } break;
    case OP_WAITUNTIL: switch (d->clk) {
        case CK_STEADY: if (d->unit == 2) FO(w, x.wait_until(old, time_point<steady_clock, milliseconds>(milliseconds(d->t / 1000000)))) else FO(w, x.wait_until(old, steady_clock::time_point(steady_clock::duration(d->t)))) break;
        case CK_SYSTEM: if (d->unit == 3) FO(w, x.wait_until(old, time_point<system_clock, seconds>(seconds(d->t / 1000000000)))) else FO(w, x.wait_until(old, system_clock::time_point(system_clock::duration(d->t)))) break;
        case CK_MONO_TRAITS: FO(w, x.wait_until(old, clk_mono::time_point(nanoseconds(d->t)))) break;
        case CK_REAL_TRAITS_US: FO(w, x.wait_until(old, clk_real_us::time_point(microseconds(d->t / 1000)))) break;
        case CK_PLAIN_MS: FO(w, x.wait_until(old, clk_plain_ms::time_point(milliseconds(d->t / 1000000)))) break;
        case CK_BOOT_TRAITS: FO(w, x.wait_until(old, clk_boot::time_point(nanoseconds(d->t)))) break; } break;
    case OP_NOTIFY1: x.notify_one(); break;
    case OP_NOTIFYALL: x.notify_all(); break;
    }
}
void init_flag(void* m, const unsigned char* v) { flag_t* f = new (m) flag_t(); if (v[0]) f->test_and_set(); }
#define TI_FLAG { FLN, CL_FLAG, FLAVOR, 1, sizeof(flag_t), alignof(flag_t), flag_t::is_always_lock_free, flag_t::always_has_native_wait_notify, 1, 1, { 1 }, B(LOAD) | B(STORE) | B(TEST) | B(TAS) | B(CLEAR) | M_WAIT, init_flag, exec_flag, sizeof(flag_t) }
#endif
#ifdef LITMUS
#include "litmus.inc"
#else
const TypeInfo tab[] = {
#if GROUP == 0
 TI_U(uint8_t), TI_S(int8_t),
#elif GROUP == 1
 TI_U(uint16_t), TI_S(int16_t),
#elif GROUP == 2
 TI_U(uint32_t), TI_S(int32_t),
#elif GROUP == 3
 TI_U(uint64_t), TI_S(int64_t),
#elif GROUP == 4
 TI_U(u128), TI_S(s128),
#elif GROUP == 5
 TI(bool, CL_BOOL, M_CORE | M_WAIT, exec_plain, 1, 8, ALLB), TI_E(E8), TI_E(E16), TI_E(E32), TI_E(E64), TI_P(pint, 4), TI_P(pchar, 1), TI_P(ps24, 24), TI(pvoid, CL_VPTR, M_CORE | M_WAIT, exec_plain, 1, 64, ALLB), TI(pfun, CL_VPTR, M_CORE | M_WAIT, exec_plain, 1, 64, ALLB),
#elif GROUP == 6
 TI(float, CL_FP32, M_CORE | M_WAIT | M_ADD | M_NEG, exec_f, 1, 32, ALLB), TI(double, CL_FP64, M_CORE | M_WAIT | M_ADD | M_NEG, exec_f, 1, 64, ALLB),
#if !defined(__aarch64__) && !defined(__powerpc64__) && (FLAVOR < 2 || defined(BOOST_ATOMIC_INT128_LOCK_FREE) && BOOST_ATOMIC_INT128_LOCK_FREE == 2)
 TI(long double, CL_FP80, M_CORE | M_WAIT | M_ADD | M_NEG, exec_f, 1, 80, { 255,255,255,255,255,255,255,255,255,255 }),
#endif
#elif GROUP == 7
 TI_ST(s1), TI_ST(s2), TI_ST(s4), TI_ST(s8), 
#if FLAVOR < 2
 TI_ST(s8u),
#endif
#if FLAVOR < 2 || defined(BOOST_ATOMIC_INT128_LOCK_FREE) && BOOST_ATOMIC_INT128_LOCK_FREE == 2
 TI_ST(s16), TI_ST(s16a8), TI_ST(s16u),
#endif
#if FLAVOR == 0 || FLAVOR == 2
 TI_ST(NT),
#endif
#elif GROUP == 8   // types without native instructions
 TI_ST(s3), TI_ST(s5), TI_ST(s7), TI_ST(s12), TI_ST(s17), TI_ST(S24), TI_ST(s32a), TI_ST(W40), TI_ST(s48), TI_ST(s64b),
#elif GROUP == 10
 TI_FLAG
#elif GROUP == 9   // padding
 TI_PD(PadC, { 255, 0, 255, 255 }), TI_PD(PadA, { 255, 0, 0, 0, 255, 255, 255, 255 }),
#if FLAVOR < 2 || defined(BOOST_ATOMIC_INT128_LOCK_FREE) && BOOST_ATOMIC_INT128_LOCK_FREE == 2
 TI_PD(PadB, { 255,255,255,255,255,255,255,255, 255 }),
#endif
#if FLAVOR < 2
 TI_PD(PadD, { 255,255,255,255,0,0,0,0,255,255,255,255,255,255,255,255,255,255 }),
#endif
#endif
};
TypeTab node = { tab, sizeof(tab) / sizeof(tab[0]), nullptr };
struct Reg { Reg() { node.next = g_types; g_types = &node; } } reg __attribute__((init_priority(2000)));
#endif
}
