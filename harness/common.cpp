#include "common.h"
#include "litmus.h"
TypeTab* g_types; LitType* g_lits;
extern "C" { __attribute__((weak, aligned(64))) unsigned char lit_obj[64]; __attribute__((weak, aligned(64))) unsigned char lit_obj2[64]; __attribute__((weak)) uint32_t lit_data[16]; }   // replaced by those of sut/fence.cpp where it is linked
extern "C" void sim_user_changed(uint64_t was, uint64_t is) noexcept { sim::fail("operand-changed", "an operation changed the variable its operand was taken from, from %#llx to %#llx", (unsigned long long)was, (unsigned long long)is); }
extern "C" int64_t sim_user_clock(int id) noexcept {
    switch (id) {
    case CK_MONO_TRAITS: return (int64_t)sim::mono_now() - MONO_TRAITS_OFF_S * 1000000000ll;
    case CK_REAL_TRAITS_US: return sim::real_now() / 1000;
    case CK_PLAIN_MS: return (int64_t)(sim::mono_now() / 1000000) - PLAIN_OFF_S * 1000ll;
    case CK_BOOT_TRAITS: return (int64_t)sim::mono_now();
    }
    return 0;
}
namespace h {
#define X(n) #n,
const char* const op_name[] = { OP_LIST(X) };
#undef X
typedef unsigned __int128 U;
std::string vstr(const TypeInfo* t, const unsigned char* x) { std::string s = "0x"; char b[4]; for (int i = t->size - 1; i >= 0; --i) { snprintf(b, 4, "%02x", x[i]); s += b; } return s; }
uint64_t low(const TypeInfo* t, const unsigned char* v) { uint64_t x = 0; for (int i = t->size < 8 ? t->size : 8; i-- > 0;) x = x << 8 | (v[i] & t->vmask[i]); return x; }
static U rdU(const unsigned char* p, int n) { U v = 0; memcpy(&v, p, n); return v; }

enum What { R_NONE, R_OLD, R_NEW, R_OK };
template <class F> static F rdF(const unsigned char* p) { F f; memcpy(&f, p, sizeof f); return f; }
template <class F> static bool fp(int op, const unsigned char* a, const unsigned char* st, unsigned char* out, int n, What& w) {
    F x = rdF<F>(st), y = rdF<F>(a), z;
    switch (op) {
    case OP_FADD: w = R_OLD; z = x + y; break; case OP_FSUB: w = R_OLD; z = x - y; break;
    case OP_ADD: case OP_OPADD: w = R_NEW; z = x + y; break; case OP_SUB: case OP_OPSUB: w = R_NEW; z = x - y; break;
    case OP_OADD: w = R_NONE; z = x + y; break; case OP_OSUB: w = R_NONE; z = x - y; break;
    case OP_FNEG: w = R_OLD; z = -x; break; case OP_NEG: w = R_NEW; z = -x; break; case OP_ONEG: w = R_NONE; z = -x; break;
    default: return false; }
    memcpy(out, &z, n); return true;
}
bool apply(const TypeInfo* t, const OpDesc& d, const OpRes& r, Val& st) {
    int n = t->size;
    auto is = [&](const unsigned char* x, const unsigned char* y) { return veq(t, x, y); };
    auto set = [&](const unsigned char* x) { memcpy(st.b, x, n); vmaskv(t, st.b); };
    switch (d.op) {
    case OP_LOAD: case OP_CONV: return is(r.v, st.b);
    case OP_STORE: case OP_ASSIGN: set(d.a); return true;
    case OP_XCHG: if (!is(r.v, st.b)) return false; set(d.a); return true;
    case OP_CASW: case OP_CASS:
        if (!is(r.v, st.b)) return false;                       // on failure the value observed; on success expected is unchanged and equal
        if (r.ok) { if (!is(st.b, d.b)) return false; set(d.a); return true; }
        return d.op == OP_CASW || !is(st.b, d.b);
    case OP_WAIT: return is(r.v, st.b) && !is(st.b, d.b);
    case OP_WAITFOR: case OP_WAITUNTIL: return is(r.v, st.b) && r.tmo == is(st.b, d.b);
    case OP_NOTIFY1: case OP_NOTIFYALL: return true;
    case OP_TEST: return r.ok == (st.b[0] != 0);
    case OP_TAS: if (r.ok != (st.b[0] != 0)) return false; st.b[0] = 1; return true;
    case OP_CLEAR: st.b[0] = 0; return true;
    }
    unsigned char nw[MAXV]; memset(nw, 0, sizeof nw); What w;
    if (t->cls == CL_FP32 || t->cls == CL_FP64 || t->cls == CL_FP80) {
        bool k = t->cls == CL_FP32 ? fp<float>(d.op, d.a, st.b, nw, 4, w) : t->cls == CL_FP64 ? fp<double>(d.op, d.a, st.b, nw, 8, w) : fp<long double>(d.op, d.a, st.b, nw, 10, w);
        if (!k) return false;
        if (w == R_OLD && !is(r.v, st.b)) return false;
        if (w == R_NEW && !is(r.v, nw)) return false;
        memset(st.b, 0, sizeof st.b); set(nw); return true;
    }
    U x = rdU(st.b, n), y, z; bool bit = false;
    if (t->cls == CL_PTR) y = (U)(__int128)d.t * t->ptr_scale; else y = rdU(d.a, n);
    U one = t->cls == CL_PTR ? t->ptr_scale : 1;
    switch (d.op) {
    case OP_FADD: z = x + y; w = R_OLD; break; case OP_FSUB: z = x - y; w = R_OLD; break;
    case OP_FAND: z = x & y; w = R_OLD; break; case OP_FOR: z = x | y; w = R_OLD; break; case OP_FXOR: z = x ^ y; w = R_OLD; break;
    case OP_FNEG: z = -x; w = R_OLD; break; case OP_FCPL: z = ~x; w = R_OLD; break;
    case OP_ADD: case OP_OPADD: z = x + y; w = R_NEW; break; case OP_SUB: case OP_OPSUB: z = x - y; w = R_NEW; break;
    case OP_NEG: z = -x; w = R_NEW; break; case OP_BCPL: z = ~x; w = R_NEW; break;
    case OP_BAND: case OP_OPAND: z = x & y; w = R_NEW; break; case OP_BOR: case OP_OPOR: z = x | y; w = R_NEW; break; case OP_BXOR: case OP_OPXOR: z = x ^ y; w = R_NEW; break;
    case OP_OADD: z = x + y; w = R_NONE; break; case OP_OSUB: z = x - y; w = R_NONE; break; case OP_ONEG: z = -x; w = R_NONE; break;
    case OP_OAND: z = x & y; w = R_NONE; break; case OP_OOR: z = x | y; w = R_NONE; break; case OP_OXOR: z = x ^ y; w = R_NONE; break; case OP_OCPL: z = ~x; w = R_NONE; break;
    case OP_TADD: z = x + y; w = R_OK; break; case OP_TSUB: z = x - y; w = R_OK; break; case OP_TNEG: z = -x; w = R_OK; break;
    case OP_TAND: z = x & y; w = R_OK; break; case OP_TOR: z = x | y; w = R_OK; break; case OP_TXOR: z = x ^ y; w = R_OK; break; case OP_TCPL: z = ~x; w = R_OK; break;
    case OP_BTS: bit = x >> d.bit & 1; z = x | (U)1 << d.bit; goto bits; case OP_BTR: bit = x >> d.bit & 1; z = x & ~((U)1 << d.bit); goto bits; case OP_BTC: bit = x >> d.bit & 1; z = x ^ (U)1 << d.bit; goto bits;
    case OP_BTS3: bit = x >> (n * 8 - 1) & 1; z = x | (U)1 << (n * 8 - 1); goto bits; case OP_BTR3: bit = x >> 3 & 1; z = x & ~(U)8; goto bits; case OP_BTC3: bit = x >> 3 & 1; z = x ^ (U)8;
    bits: if (r.ok != bit) return false; w = R_NONE; break;
    case OP_POSTINC: z = x + one; w = R_OLD; break; case OP_PREINC: z = x + one; w = R_NEW; break; case OP_POSTDEC: z = x - one; w = R_OLD; break; case OP_PREDEC: z = x - one; w = R_NEW; break;
    case OP_ADD1: z = x + one; w = R_NEW; break; case OP_SUB1: z = x - one; w = R_NEW; break; case OP_OADD1: z = x + one; w = R_NONE; break; case OP_OSUB1: z = x - one; w = R_NONE; break;
    case OP_TADD1: z = x + one; w = R_OK; break; case OP_TSUB1: z = x - one; w = R_OK; break;
    default: return false; }
    if (n < 16) z &= ((U)1 << (n * 8)) - 1;
    memcpy(nw, &z, n);
    if (w == R_OLD && !is(r.v, st.b)) return false;
    if (w == R_NEW && !is(r.v, nw)) return false;
    if (w == R_OK && r.ok != (z != 0)) return false;
    set(nw); return true;
}

namespace {
struct Lin {
    const TypeInfo* t; std::vector<const Ev*> th[MAXF]; int nt; const unsigned char* fin;
    std::unordered_set<uint64_t> seen; uint64_t visits = 0;
    uint64_t key(const uint16_t* ix, const Val& v) {
        uint64_t k = 1469598103934665603ull;
        for (int i = 0; i < nt; ++i) k = (k ^ ix[i]) * 1099511628211ull;
        for (int i = 0; i < t->size; ++i) k = (k ^ v.b[i]) * 1099511628211ull;
        k ^= k >> 31; k *= 0x9e3779b97f4a7c15ull; return k ^ k >> 29;
    }
    bool go(uint16_t* ix, const Val& v) {
        bool all = true; uint64_t minret = ~0ull;
        for (int i = 0; i < nt; ++i) if (ix[i] < th[i].size()) { const Ev* e = th[i][ix[i]]; if (!e->pending) { all = false; } if (e->ret < minret) minret = e->ret; }
        if (all && (!fin || veq(t, v.b, fin))) return true;
        if (!seen.insert(key(ix, v)).second) return false;
        for (int i = 0; i < nt; ++i) if (ix[i] < th[i].size()) {
            const Ev* e = th[i][ix[i]];
            if (e->inv > minret && !weak_memory()) continue;
            Val w = v;
            if (e->pending) {
                // never returned: may have taken effect with any result
                int alts = 2; OpRes r = e->r;
                for (int a = 0; a < alts; ++a) {
                    w = v; memcpy(r.v, v.b, sizeof r.v); r.ok = a; 
                    // the results are unconstrained: find the effect by trying old-value results first, then new
                    if (!apply_free(e->d, w)) continue;
                    ix[i]++; bool k = go(ix, w); ix[i]--; if (k) return true; break;
                }
            } else if (apply(t, e->d, e->r, w)) {
                ix[i]++; bool k = go(ix, w); ix[i]--; if (k) return true;
                // an operation that changed nothing whatever the state can always come first
                if (e->d.op == OP_LOAD || e->d.op == OP_CONV || (ob(e->d.op) & M_WAITS) || ((e->d.op == OP_CASW || e->d.op == OP_CASS) && !e->r.ok)) return false;
            }
        }
        return false;
    }
    // effect of an operation whose result nobody saw
    bool apply_free(const OpDesc& d, Val& w) {
        if ((ob(d.op) & (M_WAITS | M_NOTIFY)) || d.op == OP_LOAD || d.op == OP_CONV) return false;
        OpDesc e = d; OpRes r; memset(&r, 0, sizeof r);
        switch (d.op) {
        case OP_CASW: case OP_CASS: if (!veq(t, w.b, d.b)) return false; e.op = OP_STORE; break;
        case OP_XCHG: e.op = OP_STORE; break;
        case OP_FADD: case OP_ADD: case OP_TADD: case OP_OPADD: e.op = OP_OADD; break;
        case OP_FSUB: case OP_SUB: case OP_TSUB: case OP_OPSUB: e.op = OP_OSUB; break;
        case OP_FNEG: case OP_NEG: case OP_TNEG: e.op = OP_ONEG; break;
        case OP_FAND: case OP_BAND: case OP_TAND: case OP_OPAND: e.op = OP_OAND; break;
        case OP_FOR: case OP_BOR: case OP_TOR: case OP_OPOR: e.op = OP_OOR; break;
        case OP_FXOR: case OP_BXOR: case OP_TXOR: case OP_OPXOR: e.op = OP_OXOR; break;
        case OP_FCPL: case OP_BCPL: case OP_TCPL: e.op = OP_OCPL; break;
        case OP_POSTINC: case OP_PREINC: case OP_ADD1: case OP_TADD1: e.op = OP_OADD1; break;
        case OP_POSTDEC: case OP_PREDEC: case OP_SUB1: case OP_TSUB1: e.op = OP_OSUB1; break;
        case OP_TAS: w.b[0] = 1; return true;
        default: break; }
        if (apply(t, e, r, w)) return true;
        r.ok = true; return apply(t, e, r, w);     // bit operations: either previous bit
    }
};
}
bool linearizable(const TypeInfo* t, const Hist& h, int obj, const Val& init, const unsigned char* fin) {
    Lin l; l.t = t; l.nt = 0; l.fin = fin;
    for (auto& th : h.th) { std::vector<const Ev*> v; for (auto& e : th) if (e.obj == obj && !(ob(e.d.op) & M_NOTIFY) && !(e.pending && (e.d.op == OP_LOAD || e.d.op == OP_CONV || (ob(e.d.op) & M_WAITS)))) v.push_back(&e); if (!v.empty()) l.th[l.nt++] = v; }
    uint16_t ix[MAXF] = {0}; Val v; memset(&v, 0, sizeof v); memcpy(v.b, init.b, t->size); vmaskv(t, v.b);
    return l.go(ix, v);
}
std::string hist_str(const TypeInfo* const* ts, const Hist& h, int obj) {
    std::string s; char b[400];
    for (int i = 0; i < MAXF; ++i) for (auto& e : h.th[i]) if (e.obj == obj || obj < 0) {
        const TypeInfo* t = ts[e.obj];
        bool cas = e.d.op == OP_CASW || e.d.op == OP_CASS || (ob(e.d.op) & M_WAITS);
        snprintf(b, sizeof b, " | t%d obj%d %s.%d a=%s%s%s d=%lld bit=%u -> v=%s ok=%d tmo=%d [%llu,%lld]", i, e.obj, op_name[e.d.op], e.d.mo, vstr(t, e.d.a).c_str(), cas ? " b=" : "", cas ? vstr(t, e.d.b).c_str() : "", (long long)e.d.t, e.d.bit, vstr(t, e.r.v).c_str(), e.r.ok, e.r.tmo, (unsigned long long)e.inv, (long long)e.ret);
        s += b;
    }
    return s;
}

const TypeInfo* pick_type(bool (*ok)(const TypeInfo*)) {
    const TypeInfo* c[256]; int n = 0;
    for (TypeTab* t = g_types; t; t = t->next) for (int i = 0; i < t->n; ++i) if (!ok || ok(&t->t[i])) if (n < 256) c[n++] = &t->t[i];
    if (!n) { fprintf(stderr, "no types for this scenario\n"); _Exit(3); }
    // link order decides the table order: make the choice depend on names only through sorting
    for (int i = 1; i < n; ++i) for (int j = i; j > 0 && strcmp(c[j - 1]->name, c[j]->name) > 0; --j) std::swap(c[j - 1], c[j]);
    return c[gen(n)];
}
void garbage(const TypeInfo* t, unsigned char* v) { for (int i = 0; i < t->size; ++i) if (t->vmask[i] == 0) v[i] = (unsigned char)gen(256); }
template <class F> static void fpool(Pool& p, bool nan) {
    static const F c[] = { 0, 1, -1, (F)0.5, 3, (F)-2.25, (F)1e30, (F)1e-30, (F)16777216, (F)0.1 };
    for (int i = 0; i < p.n; ++i) { memset(&p.v[i], 0, sizeof(Val)); F f; uint32_t k = gen(14); if (k < 10) f = c[k]; else if (k == 10) f = -(F)0.0; else if (k == 11) f = (F)__builtin_inf(); else if (k == 12) f = (F)(-__builtin_inf()); else f = (F)gen(1000) / 7;
        if (!nan && (k == 11 || k == 12)) f = (F)gen(100);
        if (nan && i == 0) { f = -(F)__builtin_nan(""); }
        memcpy(p.v[i].b, &f, sizeof(F) == 16 ? 10 : sizeof(F)); }
}
void make_pool(const TypeInfo* t, Pool& p) {
    p.n = 2 + gen(4); p.nan = false; memset(p.v, 0, sizeof p.v);
    if (t->cls == CL_FP32) { p.nan = chance(1, 5); fpool<float>(p, p.nan); return; }
    if (t->cls == CL_FP64) { p.nan = chance(1, 5); fpool<double>(p, p.nan); return; }
    if (t->cls == CL_FP80) { p.nan = chance(1, 5); fpool<long double>(p, p.nan); return; }
    for (int i = 0; i < p.n; ++i) {
        unsigned char* b = p.v[i].b; int n = t->size;
        if (t->cls == CL_BOOL || t->cls == CL_FLAG) { b[0] = (unsigned char)(i & 1); continue; }
        switch (gen(t->cls == CL_PTR ? 3 : 9)) {
        case 0: break;
        case 1: b[0] = (unsigned char)(t->cls == CL_PTR ? t->ptr_scale : 1); if (t->cls == CL_PTR && chance(1, 2)) { uint64_t v = (uint64_t)t->ptr_scale * gen(5); memcpy(b, &v, 8); } break;
        case 2: if (t->cls == CL_PTR) { uint64_t v = (wrng.next() & 0xffffffffffull) * t->ptr_scale; memcpy(b, &v, 8); } else memset(b, 255, n); break;
        case 3: b[n - 1] = 0x80; break;
        case 4: memset(b, 255, n); b[n - 1] = 0x7f; break;
        case 5: memset(b, (int)(0x11 * (1 + gen(14))), n); break;
        case 6: for (int k = 0; k < n; ++k) b[k] = (unsigned char)gen(256); break;
        case 7: b[gen(n)] = (unsigned char)(1 << gen(8)); break;
        case 8: memcpy(b, p.v[0].b, n); b[gen(n)] ^= (unsigned char)(1 << gen(8)); break;   // differs from another value in one bit
        }
    }
}
static bool is3(const TypeInfo* t, int op) {
    switch (op) { case OP_LOAD: case OP_STORE: case OP_XCHG: case OP_CASW: case OP_CASS: case OP_FADD: case OP_FSUB: case OP_WAIT: return true;
    case OP_FAND: case OP_FOR: case OP_FXOR: return true; }
    return false;
}
static bool isSC(const TypeInfo* t, int op) {
    switch (op) { case OP_ASSIGN: case OP_CONV: case OP_POSTINC: case OP_PREINC: case OP_POSTDEC: case OP_PREDEC: case OP_OPADD: case OP_OPSUB: case OP_OPAND: case OP_OPOR: case OP_OPXOR:
    case OP_ADD1: case OP_SUB1: case OP_OADD1: case OP_OSUB1: case OP_TADD1: case OP_TSUB1: case OP_BTS3: case OP_BTR3: case OP_BTC3: case OP_NOTIFY1: case OP_NOTIFYALL: case OP_WAITFOR: case OP_WAITUNTIL: return true; }
    return false;
}
bool has_mo(const TypeInfo* t, int op, int mo) { if (mo == 0) return true; if (t->cls == CL_FLAG) return op == OP_TEST || op == OP_TAS || op == OP_CLEAR || op == OP_WAIT || op == OP_LOAD || op == OP_STORE; if (isSC(t, op)) return false; if (mo == 1) return true; return is3(t, op); }
static int pick_bit(uint64_t m) { int n = __builtin_popcountll(m), k = gen(n); for (int i = 0; i < 64; ++i) if (m >> i & 1) { if (k == 0) return i; --k; } return 0; }
void gen_op(const TypeInfo* t, const Pool& p, int mix, int sc_only, OpDesc& d) {
    memset(&d, 0, sizeof d);
    uint64_t m = t->ops & ~(M_WAITS | M_NOTIFY); if (p.nan) m &= ~M_NEGS;
    uint64_t core = m & M_CORE, cas = m & (ob(OP_CASW) | ob(OP_CASS)), ext = m & ~M_CORE;
    uint64_t sel = m;
    uint32_t k = gen(100);
    if (mix == MIX_CORE) sel = core; else if (mix == MIX_CAS) sel = k < 60 ? cas : k < 80 ? core : m; else if (mix == MIX_EXT) sel = k < 75 && ext ? ext : core; else sel = k < 30 ? core : m;
    if (!sel) sel = m;
    d.op = (uint8_t)pick_bit(sel);
    if ((!sc_only || (weak_build() && sc_only != 2)) && has_mo(t, d.op, 1)) { d.mo = (uint8_t)gen(3); if (!has_mo(t, d.op, d.mo)) d.mo = 0; }
    memcpy(d.a, p.v[gen(p.n)].b, MAXV); memcpy(d.b, p.v[gen(p.n)].b, MAXV); garbage(t, d.a); garbage(t, d.b);
    d.t = (int64_t)gen(5) - 2; if (t->cls == CL_PTR && chance(1, 4)) d.t = (int64_t)gen(1000000) - 500000;
    d.bit = t->nbits ? gen(t->nbits) : 0; if (chance(1, 2) && t->nbits) { static const uint8_t bs[] = { 0, 1, 3, 7, 8, 15, 31, 32, 63, 64, 127 }; uint32_t b = bs[gen(11)]; if (b < t->nbits) d.bit = b; }
    if ((t->flavor == FL_REF || t->flavor == FL_IPCREF) && d.mo == 0 && chance(1, 5)) {
        bool l = d.op == OP_LOAD, c3 = l || d.op == OP_STORE || d.op == OP_XCHG || d.op == OP_CASS || d.op == OP_CASW;
        uint8_t cv = 1 + gen(3);
        if (cv == 1 && (t->cls == CL_UINT || t->cls == CL_SINT) && (c3 || d.op == OP_FADD)) d.cv = 1;
        if (cv == 2 && l) d.cv = 2;
        if (cv == 3 && c3) d.cv = 3;
    }
}
size_t place(const TypeInfo* t, size_t base) {
    size_t a = t->align; if (a < 1) a = 1;
    size_t o = (base + a - 1) / a * a; if (chance(1, 2)) o += a * gen(4);
    return o;
}
void gaps(uint32_t n) {
    if (cfg.strategy == 1) { cfg.mean_gap = n / (1 + gen(6)); if (cfg.mean_gap < 2) cfg.mean_gap = 2; return; }
    static const uint32_t div[] = { 1, 2, 3, 4, 6, 8, 12, 16, 24, 32 };
    cfg.mean_gap = n / div[gen(10)]; if (cfg.mean_gap < 1) cfg.mean_gap = 1;
}
static int want_lf, want_fl, want_cls, want_max, want_nat;
void read_filter() { want_lf = (int)opt("lf", -1); want_fl = (int)opt("fl", -1); want_cls = (int)opt("cls", 0); want_max = (int)opt("max", 0); want_nat = (int)opt("nat", -1); }
bool filter_ok(const TypeInfo* t) {
    bool fp = t->cls == CL_FP32 || t->cls == CL_FP64 || t->cls == CL_FP80;
    if (want_lf >= 0 && (int)t->lockfree != want_lf) return false;
    if (want_nat >= 0 && (int)t->natwait != want_nat) return false;
    if (want_fl == 9 ? t->flavor < FL_IPC : want_fl >= 0 && (int)t->flavor != want_fl) return false;
    if (want_cls == 1 && !(t->cls == CL_UINT || t->cls == CL_SINT || t->cls == CL_ENUM || t->cls == CL_PTR)) return false;
    if (want_cls == 2 && !fp) return false;
    if (want_cls == 3 && fp) return false;
    if (want_cls == CL_FLAG && t->cls != CL_FLAG) return false;
    return !want_max || t->size <= want_max;
}
Val distinct_value(const TypeInfo* t, Pool& p) {
    Val f = p.v[p.n - 1]; int m = 0;
    for (int i = 0; i + 1 < p.n; ++i) if (!veq(t, p.v[i].b, f.b)) { if (m != i) p.v[m] = p.v[i]; ++m; }
    if (!m) { p.v[0] = f; p.v[0].b[0] ^= 1; m = 1; }
    p.n = m; return f;
}
int64_t clock_now(int clk) {
    switch (clk) { case CK_SYSTEM: case CK_REAL_TRAITS_US: return sim::real_now(); case CK_MONO_TRAITS: return (int64_t)sim::mono_now() - MONO_TRAITS_OFF_S * 1000000000ll; case CK_PLAIN_MS: return (int64_t)sim::mono_now() - PLAIN_OFF_S * 1000000000ll; }
    return (int64_t)sim::mono_now();
}
int64_t clock_to_rep(int clk, int64_t ns) { switch (clk) { case CK_REAL_TRAITS_US: return ns / 1000 * 1000; case CK_PLAIN_MS: return ns / 1000000 * 1000000; } return ns; }
}
