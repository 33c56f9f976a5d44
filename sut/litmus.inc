// included by wrap.cpp when LITMUS is defined
enum Role { PROD, CONS };
template<int K, int ROLE> struct Ord;
template<> struct Ord<1, PROD> { static constexpr boost::memory_order mo = memory_order_release; };
template<> struct Ord<1, CONS> { static constexpr boost::memory_order mo = memory_order_acquire; };
template<int R> struct Ord<2, R> { static constexpr boost::memory_order mo = memory_order_acq_rel; };
template<int R> struct Ord<6, R> { static constexpr boost::memory_order mo = memory_order_relaxed; };
template<int R> struct Ord<7, R> { static constexpr boost::memory_order mo = memory_order_relaxed; };
template<int R> struct Ord<3, R> { static constexpr boost::memory_order mo = memory_order_relaxed; };
#define INL static inline __attribute__((always_inline))
#define FENCED (K == 3 || K >= 6)
template<int K, int ROLE> INL void fence_() { if (K == 3) boost::atomic_thread_fence(ROLE == PROD ? memory_order_release : memory_order_acquire); else if (K == 6) boost::atomic_thread_fence(memory_order_seq_cst); else if (K == 7) boost::atomic_thread_fence(memory_order_acq_rel); }
#define PARS X& x, const OpDesc* d, T& v, bool& ok
template<int OP, class X, class T, int K, int ROLE> struct Do;
#define OPA(OP, CH, PRE, CALL, ARG) \
 template<class X, class T, int K, int ROLE> struct Do<OP_##OP, X, T, K, ROLE> { INL void go(PARS) { PRE(x.CALL(ARG, Ord<K, ROLE>::mo)); } enum { has = 1, is_ = CH }; }; \
 template<class X, class T, int ROLE> struct Do<OP_##OP, X, T, 0, ROLE> { INL void go(PARS) { PRE(x.CALL(ARG)); } enum { has = 1, is_ = CH }; };
#define OPN(OP, CH, PRE, CALL) \
 template<class X, class T, int K, int ROLE> struct Do<OP_##OP, X, T, K, ROLE> { INL void go(PARS) { PRE(x.CALL(Ord<K, ROLE>::mo)); } }; \
 template<class X, class T, int ROLE> struct Do<OP_##OP, X, T, 0, ROLE> { INL void go(PARS) { PRE(x.CALL()); } };
#define OPX(OP, E) template<class X, class T, int ROLE> struct Do<OP_##OP, X, T, 0, ROLE> { INL void go(PARS) { E; } };
#define SETV(E) v = (T)(E)
#define SETOK(E) ok = (E)
#define NOV(E) (E)
template<class X, class T> struct ArgT { typedef T type; INL T get_(const OpDesc* d) { return get<T>(d->a); } INL T one() { return T(1); } };
template<class X, class U> struct ArgT<X, U*> { typedef std::ptrdiff_t type; INL std::ptrdiff_t get_(const OpDesc* d) { return (std::ptrdiff_t)d->t; } INL std::ptrdiff_t one() { return 1; } };
#define AR (ArgT<X, T>::get_(d))
#define ONE_ (ArgT<X, T>::one())
OPN(LOAD, 0, SETV, load) OPA(STORE, 0, NOV, store, get<T>(d->a)) OPA(XCHG, 0, SETV, exchange, get<T>(d->a))
OPX(ASSIGN, x = get<T>(d->a)) OPX(CONV, v = static_cast<T>(x))
OPA(FADD, 1, SETV, fetch_add, AR) OPA(FSUB, 1, SETV, fetch_sub, AR) OPA(FAND, 1, SETV, fetch_and, AR) OPA(FOR, 1, SETV, fetch_or, AR) OPA(FXOR, 1, SETV, fetch_xor, AR) OPN(FNEG, 1, SETV, fetch_negate) OPN(FCPL, 1, SETV, fetch_complement)
OPA(ADD, 1, SETV, add, AR) OPA(SUB, 1, SETV, sub, AR) OPN(NEG, 1, SETV, negate) OPA(BAND, 1, SETV, bitwise_and, AR) OPA(BOR, 1, SETV, bitwise_or, AR) OPA(BXOR, 1, SETV, bitwise_xor, AR) OPN(BCPL, 1, SETV, bitwise_complement)
OPA(OADD, 1, NOV, opaque_add, AR) OPA(OSUB, 1, NOV, opaque_sub, AR) OPN(ONEG, 1, NOV, opaque_negate) OPA(OAND, 1, NOV, opaque_and, AR) OPA(OOR, 1, NOV, opaque_or, AR) OPA(OXOR, 1, NOV, opaque_xor, AR) OPN(OCPL, 1, NOV, opaque_complement)
OPA(TADD, 1, SETOK, add_and_test, AR) OPA(TSUB, 1, SETOK, sub_and_test, AR) OPN(TNEG, 1, SETOK, negate_and_test) OPA(TAND, 1, SETOK, and_and_test, AR) OPA(TOR, 1, SETOK, or_and_test, AR) OPA(TXOR, 1, SETOK, xor_and_test, AR) OPN(TCPL, 1, SETOK, complement_and_test)
OPA(BTS, 1, SETOK, bit_test_and_set, d->bit) OPA(BTR, 1, SETOK, bit_test_and_reset, d->bit) OPA(BTC, 1, SETOK, bit_test_and_complement, d->bit)
OPA(BTS3, 1, SETOK, bit_test_and_set, sizeof(T) * 8 - 1) OPA(BTR3, 1, SETOK, bit_test_and_reset, 3) OPA(BTC3, 1, SETOK, bit_test_and_complement, 3)
OPX(POSTINC, v = (T)(x++)) OPX(PREINC, v = (T)(++x)) OPX(POSTDEC, v = (T)(x--)) OPX(PREDEC, v = (T)(--x)) OPX(OPADD, v = (T)(x += AR)) OPX(OPSUB, v = (T)(x -= AR)) OPX(OPAND, v = (T)(x &= AR)) OPX(OPOR, v = (T)(x |= AR)) OPX(OPXOR, v = (T)(x ^= AR))
OPA(ADD1, 1, SETV, add, ONE_) OPA(SUB1, 1, SETV, sub, ONE_) OPA(OADD1, 1, NOV, opaque_add, ONE_) OPA(OSUB1, 1, NOV, opaque_sub, ONE_) OPA(TADD1, 1, SETOK, add_and_test, ONE_) OPA(TSUB1, 1, SETOK, sub_and_test, ONE_)
#define CASX(OP, F) \
 template<class X, class T, int K, int ROLE> struct Do<OP_##OP, X, T, K, ROLE> { INL void go(PARS) { v = get<T>(d->b); const T w = get<T>(d->a); \
   if (K == 0) ok = x.F(v, w); else if (K == 1) ok = ROLE == PROD ? x.F(v, w, memory_order_release, memory_order_relaxed) : x.F(v, w, memory_order_acquire, memory_order_acquire); \
   else if (K == 2) ok = x.F(v, w, memory_order_acq_rel); else if (FENCED) ok = x.F(v, w, memory_order_relaxed, memory_order_relaxed); \
   else if (K == 4) ok = ROLE == PROD ? x.F(v, w, memory_order_release) : (d->bit & 1) ? x.F(v, w, memory_order_release, memory_order_acquire) : x.F(v, w, memory_order_acquire); else ok = x.F(v, w, memory_order_acq_rel, memory_order_acquire); } };
CASX(CASW, compare_exchange_weak) CASX(CASS, compare_exchange_strong)
OPA(WAIT, 1, SETV, wait, get<T>(d->b))
#define WRES(E) v = (T)((E).value)
#define WFX(OP, CALL, ARG) \
 template<class X, class T, int K, int ROLE> struct Do<OP_##OP, X, T, K, ROLE> { INL void go(PARS) { WRES(x.CALL(get<T>(d->b), ARG, Ord<K, ROLE>::mo)); } }; \
 template<class X, class T, int ROLE> struct Do<OP_##OP, X, T, 0, ROLE> { INL void go(PARS) { WRES(x.CALL(get<T>(d->b), ARG)); } };
WFX(WAITFOR, wait_for, std::chrono::nanoseconds(d->t)) WFX(WAITUNTIL, wait_until, std::chrono::steady_clock::time_point(std::chrono::nanoseconds(d->t)))
OPN(TEST, 0, SETOK, test) OPN(TAS, 1, SETOK, test_and_set) OPN(CLEAR, 0, NOV, clear)

// what result identifies the operation's outcome
template<int OP> struct Res { static constexpr bool cas = OP == OP_CASW || OP == OP_CASS, wait = OP == OP_WAIT || OP == OP_WAITFOR || OP == OP_WAITUNTIL,
   okonly = (OP >= OP_TADD && OP <= OP_BTC) || OP == OP_TADD1 || OP == OP_TSUB1 || OP == OP_BTS3 || OP == OP_BTR3 || OP == OP_BTC3 || OP == OP_TEST || OP == OP_TAS,
   none = OP == OP_STORE || OP == OP_ASSIGN || (OP >= OP_OADD && OP <= OP_OCPL) || OP == OP_OADD1 || OP == OP_OSUB1 || OP == OP_CLEAR,
   opr = OP == OP_ASSIGN || OP == OP_CONV || (OP >= OP_POSTINC && OP <= OP_OPXOR), rd = OP == OP_LOAD || OP == OP_CONV || OP == OP_TEST || wait, wr = OP == OP_STORE || OP == OP_ASSIGN || OP == OP_CLEAR; };
template<int OP, class T> INL bool match(const LArg* a, T const& v, bool ok) {
    for (int i = 0, n = a->nexp; i < n; ++i) if ((Res<OP>::okonly || !__builtin_memcmp(&v, a->exp[i].v, sizeof(T))) && (!(Res<OP>::okonly || Res<OP>::cas) || a->exp[i].ok == ok)) return true;
    return false;
}
template<class X, class T, bool REF> struct Bind { INL X get_(void* m) { return X(*static_cast<T*>(m)); } typedef X type; };
template<class X, class T> struct Bind<X, T, false> { typedef X& type; INL X& get_(void* m) { return *static_cast<X*>(m); } };
template<int OP, class X, class T, bool REF, int K> __attribute__((noinline)) void prod_fn(LArg* a) {
    typename Bind<X, T, REF>::type x = Bind<X, T, REF>::get_(lit_obj); T v; bool ok;
    lit_data[0] = a->in[0]; lit_data[1] = a->in[1] / a->in[2];
    fence_<K, PROD>();
    Do<OP, typename std::remove_reference<decltype(x)>::type, T, K, PROD>::go(x, &a->d, v, ok);
}
template<int OP, class X, class T, bool REF, int K> __attribute__((noinline)) void cons_fn(LArg* a) {
    typename Bind<X, T, REF>::type x = Bind<X, T, REF>::get_(lit_obj); T v; bool ok = false;
    Do<OP, typename std::remove_reference<decltype(x)>::type, T, K, CONS>::go(x, &a->d, v, ok);
    fence_<K, CONS>();
    if (match<OP, T>(a, v, ok)) { uint32_t o0 = lit_data[0], o1 = lit_data[1]; a->out[0] = o0; a->out[1] = o1; a->res = true; } else a->res = false;
}
template<int OP, class X, class T, bool REF, int K> __attribute__((noinline)) void hand_fn(LArg* a) {
    typename Bind<X, T, REF>::type x = Bind<X, T, REF>::get_(lit_obj); T v; bool ok = false;
    uint32_t r0 = lit_data[0], r1 = lit_data[1];
    Do<OP, typename std::remove_reference<decltype(x)>::type, T, K, CONS>::go(x, &a->d, v, ok);
    Do<OP, typename std::remove_reference<decltype(x)>::type, T, K, CONS>::go(x, &a->d, v, ok);
    if (match<OP, T>(a, v, ok)) { uint32_t o0 = lit_data[0], o1 = lit_data[1]; a->out[0] = o0; a->out[1] = o1; a->res = true; } else a->res = false;
    a->out[2] = r0; a->out[3] = r1;
}
// an operation on one object and a load of the other
template<class X> INL auto peek(X& y, bool relaxed) -> decltype(y.load()) { return relaxed ? y.load(memory_order_relaxed) : y.load(); }
#if GROUP == 10
INL bool peek(flag_t& y, bool relaxed) { return relaxed ? y.test(memory_order_relaxed) : y.test(); }
#endif
template<int OP, class X, class T, bool REF, int KS> __attribute__((noinline)) void sb_fn(LArg* a) {
    constexpr int K = KS >> 1 ? 6 : 0;
    typename Bind<X, T, REF>::type x = Bind<X, T, REF>::get_(KS & 1 ? lit_obj2 : lit_obj); typename Bind<X, T, REF>::type y = Bind<X, T, REF>::get_(KS & 1 ? lit_obj : lit_obj2); T v = T(); bool ok = false;
    Do<OP, typename std::remove_reference<decltype(x)>::type, T, K, CONS>::go(x, &a->d, v, ok);
    fence_<K, CONS>();
    T w = peek(y, K == 6);
    __builtin_memcpy(a->exp[0].v, &v, sizeof(T) < MAXV ? sizeof(T) : MAXV); a->exp[0].ok = ok; __builtin_memcpy(a->exp[1].v, &w, sizeof(T) < MAXV ? sizeof(T) : MAXV);
}
// tables
template<bool E, class F> struct Pick { INL LitFn get_() { return nullptr; } };
template<class F> struct Pick<true, F> { INL LitFn get_() { return &F::fn; } };
#define FNS(N) template<int OP, class X, class T, bool REF, int K> struct N##_t { static void fn(LArg* a) { N##_fn<OP, X, T, REF, K>(a); } };
FNS(prod) FNS(cons) FNS(hand) FNS(sb)
template<int OP, int K, int ROLE> struct Valid { static constexpr bool cas = Res<OP>::cas, v = K == 0 ? true : Res<OP>::opr ? false : K == 4 || K == 5 ? cas : K == 2 ? !(Res<OP>::rd || Res<OP>::wr) : true; };
template<class X, class T, bool REF> struct Tabs { static LitFn prod[OP_COUNT][NK], cons[OP_COUNT][NK], hand[OP_COUNT][NK], sb[OP_COUNT][2][2]; };
template<class X, class T, bool REF> LitFn Tabs<X, T, REF>::prod[OP_COUNT][NK];
template<class X, class T, bool REF> LitFn Tabs<X, T, REF>::sb[OP_COUNT][2][2]; template<class X, class T, bool REF> LitFn Tabs<X, T, REF>::cons[OP_COUNT][NK]; template<class X, class T, bool REF> LitFn Tabs<X, T, REF>::hand[OP_COUNT][NK];
template<class X, class T, bool REF, uint64_t MASK, int OP, int K> struct FillK { static void go() {
    constexpr bool has = (MASK >> OP) & 1, notify = OP == OP_NOTIFY1 || OP == OP_NOTIFYALL, small = sizeof(T) <= 16;
    constexpr bool p = has && !notify && !Res<OP>::rd && Valid<OP, K, PROD>::v, c = has && !notify && !Res<OP>::none && Valid<OP, K, CONS>::v, h = c && small && !Res<OP>::rd && (K == 0 || K == 2);
    typedef Tabs<X, T, REF> TT;
    TT::prod[OP][K] = Pick<p, prod_t<OP, X, T, REF, K> >::get_();
    TT::cons[OP][K] = Pick<c, cons_t<OP, X, T, REF, K> >::get_();
    TT::hand[OP][K] = Pick<h, hand_t<OP, X, T, REF, K> >::get_();
    constexpr bool b = has && !notify && !Res<OP>::rd && (K < 2 || Valid<OP, 6, PROD>::v);
    if (K < 4) TT::sb[OP][K >> 1 & 1][K & 1] = Pick<b && K < 4, sb_t<OP, X, T, REF, K & 3> >::get_();
    FillK<X, T, REF, MASK, OP, K + 1>::go(); } };
template<class X, class T, bool REF, uint64_t MASK, int OP> struct FillK<X, T, REF, MASK, OP, NK> { static void go() {} };
template<class X, class T, bool REF, uint64_t MASK, int OP> struct Fill { static void go() { FillK<X, T, REF, MASK, OP, 0>::go(); Fill<X, T, REF, MASK, OP + 1>::go(); } };
template<class X, class T, bool REF, uint64_t MASK> struct Fill<X, T, REF, MASK, OP_COUNT> { static void go() {} };

#if GROUP == 10
// ---- locks and gates built from the flag: d[0] counts, d[1] its complement, d[2] owner, d[3] result of overlap checks
#ifdef __aarch64__
#define SPIN asm volatile("yield" ::: "memory")
#elif defined(__powerpc64__)
#define SPIN asm volatile("or 27,27,27" ::: "memory")
#else
#define SPIN __builtin_ia32_pause()
#endif
INL void body(uint32_t* d) { uint32_t a = d[0], b = d[1]; if (b != ~a) d[3] = 1; d[0] = a + 1; d[1] = ~(a + 1); }
__attribute__((noinline)) void crit0(void* m, uint32_t* d, int n) { flag_t& f = *static_cast<flag_t*>(m); while (n--) { while (f.test_and_set(memory_order_acquire)) SPIN; body(d); f.clear(memory_order_release); } }
__attribute__((noinline)) void crit1(void* m, uint32_t* d, int n) { flag_t& f = *static_cast<flag_t*>(m); while (n--) { for (;;) { if (!f.test(memory_order_relaxed) && !f.test_and_set(memory_order_acquire)) break; SPIN; } body(d); f.clear(memory_order_release); } }
__attribute__((noinline)) void crit2(void* m, uint32_t* d, int n) { flag_t& f = *static_cast<flag_t*>(m); while (n--) { while (f.test_and_set(memory_order_acquire)) f.wait(true, memory_order_relaxed); body(d); f.clear(memory_order_release); f.notify_one(); } }
__attribute__((noinline)) void crit3(void* m, uint32_t* d, int n) { flag_t& f = *static_cast<flag_t*>(m); while (n--) { while (f.test_and_set()) f.wait(true); body(d); f.clear(); f.notify_all(); } }
__attribute__((noinline)) void crit4(void* m, uint32_t* d, int n) { flag_t& f = *static_cast<flag_t*>(m); while (n--) { while (f.test_and_set(memory_order_acq_rel)) (void)f.wait_for(true, std::chrono::hours(10), memory_order_relaxed); body(d); f.clear(memory_order_release); f.notify_one(); } }
__attribute__((noinline)) void gate_open(void* m, uint32_t* d, int) { flag_t& f = *static_cast<flag_t*>(m); d[0] = 7; d[1] = ~7u; f.clear(memory_order_release); f.notify_all(); }
__attribute__((noinline)) void gate_pass(void* m, uint32_t* d, int kid) { flag_t& f = *static_cast<flag_t*>(m); int k = kid & 3; bool early = false; if (k == 0) { early = f.wait(true, memory_order_acquire); } else if (k == 1) { while (f.test(memory_order_acquire)) SPIN; } else if (k == 2) { while (f.wait_for(true, std::chrono::hours(10), memory_order_acquire).value) {} } else early = f.wait(true); bool ok = d[0] == 7 && d[1] == ~7u; d[16 + (kid >> 2)] = early ? 3 : ok ? 1 : 2; }
void (*const crits[L_NCRIT])(void*, uint32_t*, int) = { crit0, crit1, crit2, crit3, crit4, gate_open, gate_pass };
#endif
#define LT(T, MASK) { FN #T ">", Tabs<A<T>, T, is_ref>::prod, Tabs<A<T>, T, is_ref>::cons, Tabs<A<T>, T, is_ref>::hand, Tabs<A<T>, T, is_ref>::sb, nullptr, nullptr }
#define FL(T, MASK) Fill<A<T>, T, is_ref, (MASK), 0>::go();
#define M_INTS (M_CORE | M_WAIT | M_ADD | M_INCT | M_NEG | B(TNEG) | M_BITS)
#if GROUP == 0
#define ALL(X_) X_(uint8_t, M_INTS)
#elif GROUP == 1
#define ALL(X_) X_(int16_t, M_INTS)
#elif GROUP == 2
#define ALL(X_) X_(uint32_t, M_INTS)
#elif GROUP == 3
#define ALL(X_) X_(int64_t, M_INTS)
#elif GROUP == 4
#define ALL(X_) X_(u128, M_INTS)
#elif GROUP == 5
#define ALL(X_) X_(bool, M_CORE | M_WAIT), X_(E32, M_CORE | M_WAIT | M_BITS), X_(pint, M_CORE | M_WAIT | M_ADD | M_INCT)
#elif GROUP == 6
#define ALL(X_) X_(float, M_CORE | M_WAIT | M_ADD | M_NEG), X_(double, M_CORE | M_WAIT | M_ADD | M_NEG)
#elif GROUP == 7
#define ALL(X_) X_(s4, M_CORE | M_WAIT), X_(s16, M_CORE | M_WAIT)
#elif GROUP == 8
#define ALL(X_) X_(s3, M_CORE | M_WAIT), X_(S24, M_CORE | M_WAIT)
#endif
#if GROUP == 10
LitType lits[] = { { FLN, Tabs<flag_t, bool, false>::prod, Tabs<flag_t, bool, false>::cons, Tabs<flag_t, bool, false>::hand, Tabs<flag_t, bool, false>::sb, crits, nullptr } };
void fill() { Fill<flag_t, bool, false, B(TEST) | B(TAS) | B(CLEAR) | M_WAIT, 0>::go(); }
#else
LitType lits[] = { ALL(LT) };
struct F_ { int x; };
#define FLC(T, MASK) (Fill<A<T>, T, is_ref, (MASK), 0>::go(), 0)
void fill() { int z[] = { ALL(FLC) }; (void)z; }
#endif
struct LReg { LReg() { fill(); for (auto& l : lits) { l.next = g_lits; g_lits = &l; } } } lreg __attribute__((init_priority(2000)));
