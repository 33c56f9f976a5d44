// AArch64 and 64-bit PowerPC: interpreter of translated code (arm64.py, ppc.py) and the processors' weak memory ordering. Included by sim.cpp.
//
// Memory holds the newest value of everything. Per 16-byte cell there is a history of committed stores (a single global
// order of time stamps). A thread's plain stores wait in a buffer and may be committed out of order (never past another
// store to the same cell, a store-release waits for all earlier ones); its loads may be served from older states of the
// cell as long as no ordering rule (coherence, address dependency, acquire, barriers) forbids it; a store-exclusive may
// fail without reason. Loads do not see later stores of their own thread (no load buffering): everything simulated is
// allowed by the architecture, not everything the architecture allows is simulated.
enum A64Op : uint16_t { I_UNDEF, I_ADD, I_SUB, I_AND, I_ORR, I_EOR, I_ADC, I_SBC, I_MOVI, I_MOVK, I_LSLV, I_LSRV, I_ASRV, I_RORV, I_UBFM, I_SBFM, I_BFM, I_EXTR,
    I_MADD, I_MSUB, I_SMADDL, I_UMADDL, I_SMSUBL, I_UMSUBL, I_SMULH, I_UMULH, I_UDIV, I_SDIV, I_CLZ, I_RBIT, I_REV, I_REV16, I_REV32,
    I_CSEL, I_CSINC, I_CSINV, I_CSNEG, I_CCMP, I_CCMN, I_B, I_BCOND, I_BL, I_BLR, I_BR, I_RET, I_CBZ, I_CBNZ, I_TBZ, I_TBNZ, I_ADRP, I_ADR,
    I_LDR, I_STR, I_LDP, I_STP, I_LDRV, I_STRV, I_LDPV, I_STPV, I_LDAR, I_LDAPR, I_STLR, I_LDXR, I_LDAXR, I_STXR, I_STLXR, I_LDXP, I_LDAXP, I_STXP, I_STLXP,
    I_CAS, I_CASP, I_SWP, I_LDADD, I_LDCLR, I_LDEOR, I_LDSET, I_LDSMAX, I_LDSMIN, I_LDUMAX, I_LDUMIN, I_CLREX, I_DMB, I_ISB, I_YIELD, I_NOP, I_BRK,
    I_FMOVVG, I_FMOVGV, I_FMOVVV, I_FMOVI, I_VMOV, I_VZERO, I_FADD, I_FSUB, I_FMUL, I_FDIV, I_FNEG, I_FABS, I_FCMP, I_FCVT, I_INSV, I_UMOV, I_DUP, I_VEOR, I_VORR, I_VAND, I_VNOT, I_VARITH, I_SCVTF, I_UCVTF, I_FCVTZS, I_FCVTZU,
    P_ROT, P_CMP, P_ADDC, P_MULI, P_SHIFT, P_CROP, P_MFCR, P_MTCR, P_ISEL, P_BC, P_BCLR, P_BD, P_STCX, P_ISYNC, P_YIELD, P_S2D, P_D2S, P_FRSP, P_FCMP, I_OPS };
struct A64Ins { uint16_t op; uint8_t rd, rn, rm, ra, size, fl; uint8_t cond, sh, amt, kind; uint32_t x; int64_t imm; uint64_t sym; };
static_assert(sizeof(A64Ins) == 32, "layout known to arm64.py");
// fl: 1 64-bit operation, 2 sets flags, 4 sign-extending load to 64 bits, 8 to 32 bits, 16 pre-index, 32 post-index, 64 acquire, 128 release
// kind (second operand): 0 register shifted, 1 immediate, 2 register extended, 3 low 12 bits of sym, 4 address of sym;   memory: 0 base + imm, 1 base + register, 3 base + low 12 bits of sym, 4 address of sym
extern "C" { extern int a64_magic_dummy; uint64_t a64_hostcall(uint64_t fn, uint64_t* x, double* v, uint64_t* rdx); }
#define A64_MAGIC 0x6134366d61676963ull

namespace a64 {
struct Msg { uint64_t ts; uint8_t lo, hi; uint8_t data[16]; };
struct Cell { std::vector<Msg> m; };                             // m[0] is the state before the first store of the run
struct Ent { uint64_t a; uint8_t n; bool rel, bar; uint64_t view; uint8_t d[16]; };
struct Coh { uint64_t g[4]; };
struct Th {
    std::vector<Ent> wb; uint64_t vrOld, vrNew, vwOld, vRel, ctl;
    std::unordered_map<uint64_t, Coh> coh;
    bool ex; uint64_t exa, exkey, exts; uint32_t exn;
    void clear() { wb.clear(); vrOld = vrNew = vwOld = vRel = ctl = 0; coh.clear(); ex = false; }
};
static Th T[MAXF + 1]; static uint64_t gts; static std::unordered_map<uint64_t, Cell> cells;
static uint64_t st_stale, st_ooo, st_unsupported;
static int tid() { return !C.cur || C.cur == &mainf ? MAXF : C.cur->id; }
static void reset() { if (!a64_present) return; for (auto& t : T) t.clear(); gts = 0; cells.clear(); weak = false; used = false; }
static inline bool is_shared(uint64_t a) { return (a >= FARENA_BASE && a < HEAP_BASE + HEAP_SIZE) || (a >= C.sut_lo && a < C.sut_hi) || (a >= C.bss_lo && a < C.bss_hi); }
static inline bool is_static(uint64_t a) { return (a >= C.sut_lo && a < C.sut_hi) || (a >= C.bss_lo && a < C.bss_hi); }
static uint64_t key_of(uint64_t a, int proc) { uint64_t p = phys(a); a = p != ~0ull ? p | 1ull << 60 : is_static(a) ? a | (uint64_t)(proc + 1) << 56 : a; return a >> 4; }
// the cell's history, with changes made by the harness or a model taken in as a store everyone sees
static Cell& cell(uint64_t a, int proc) {
    Cell& c = cells[key_of(a, proc)]; const uint8_t* ram = (const uint8_t*)(a & ~15ull);
    if (c.m.empty()) { Msg m; m.ts = 0; m.lo = 0; m.hi = 16; memcpy(m.data, ram, 16); c.m.push_back(m); }
    else if (memcmp(c.m.back().data, ram, 16)) { Msg m; m.ts = ++gts; m.lo = 0; m.hi = 16; memcpy(m.data, ram, 16); c.m.clear(); c.m.push_back(m); }
    return c;
}
static inline void up(uint64_t& a, uint64_t b) { if (a < b) a = b; }
static void seen(Th& t, uint64_t a, uint32_t n, int proc, uint64_t ts) {
    for (uint64_t x = a & ~3ull; x < a + n; x += 4) up(t.coh[key_of(x, proc)].g[(x >> 2) & 3], ts);
}
static uint64_t coh_of(Th& t, uint64_t a, uint32_t n, int proc) {
    uint64_t r = 0; for (uint64_t x = a & ~3ull; x < a + n; x += 4) { auto i = t.coh.find(key_of(x, proc)); if (i != t.coh.end()) up(r, i->second.g[(x >> 2) & 3]); } return r;
}
// a store reaches memory
static void perform(Fiber* f, Th& t, uint64_t a, uint32_t n, const uint8_t* d, bool rel) {
    int sp = curproc, fp = f == &mainf ? curproc : f->proc; bool sw = C.active && fp != curproc && is_static(a); if (sw) swap_proc(fp);
    used = true; uint64_t ts = 0;
    for (uint64_t x = a; x < a + n;) { uint64_t e = std::min<uint64_t>(a + n, (x | 15) + 1); cell(x, fp); x = e; }
    ts = ++gts; memcpy((void*)a, d, n);
    for (uint64_t x = a; x < a + n;) {
        uint64_t e = std::min<uint64_t>(a + n, (x | 15) + 1); Cell& c = cells[key_of(x, fp)];
        Msg m; m.ts = ts; m.lo = x & 15; m.hi = (uint8_t)(m.lo + (e - x)); memcpy(m.data, (void*)(x & ~15ull), 16);
        if (c.m.size() > 12) c.m.erase(c.m.begin());
        c.m.push_back(m); x = e;
    }
    if (sw) swap_proc(sp);
    seen(t, a, n, fp, ts); up(t.vwOld, ts); if (rel) up(t.vRel, ts);
}
static bool overlap_cells(const Ent& e, uint64_t a, uint32_t n) { return (e.a & ~15ull) < a + n && (a & ~15ull) < e.a + e.n; }
static bool eligible(Th& t, size_t i) {
    if (t.wb[i].bar) return i == 0;
    if (t.wb[i].rel && i) return false;
    for (size_t j = 0; j < i; ++j) if (t.wb[j].bar || overlap_cells(t.wb[j], t.wb[i].a, t.wb[i].n)) return false;
    return true;
}
static void commit(Fiber* f, Th& t, size_t i) {
    Ent e = t.wb[i]; t.wb.erase(t.wb.begin() + i); if (i) st_ooo++;
    if (!e.bar) perform(f, t, e.a, e.n, e.d, e.rel);
    while (!t.wb.empty() && t.wb[0].bar) t.wb.erase(t.wb.begin());
}
static void drain_upto(Fiber* f, Th& t, size_t k) { while (k-- && !t.wb.empty()) commit(f, t, 0); }
static void drain(Fiber* f) { if (!a64_present) return; Th& t = T[f == &mainf ? MAXF : f->id]; while (!t.wb.empty()) commit(f, t, 0); }
// a system call or a blocking library call: everything before it is done before it, and what follows sees what happened before
static void sees_all(Fiber* f) { if (used) up(T[f == &mainf ? MAXF : f->id].vrNew, gts); }
static void barrier(Fiber* f) { if (!used) return; drain(f); sees_all(f); }
static void interrupted(Fiber* f) { if (f != &mainf) T[f->id].ex = false; }
static void drain_everyone() { if (used) for (int i = 0; i < NF; ++i) drain(&F[i]); }
static void maybe_commit(Fiber* f) {               // other threads' (and one's own) buffers at a decision point of f
    for (int i = 0; i < NF && i < 15; ++i) { Th& t = T[i]; if (t.wb.empty()) continue; uint32_t v = choose_at(f, K_DRAINO, i, (uint32_t)t.wb.size() + 1); if (v && eligible(t, v - 1)) commit(&F[i], t, v - 1); }
}
static void access(uint64_t a, uint32_t n, uint32_t kind) { touch(a, n, kind); }

struct V16 { uint8_t b[16]; };
// a load of shared memory; returns the value's view
static uint64_t load(uint64_t a, uint32_t n, uint8_t* out, uint64_t av, bool acq, bool rcsc, bool exclusive) {
    access(a, n, A_READ);
    Fiber* f = C.cur; int id = tid(); Th& t = T[id]; int proc = f == &mainf ? curproc : f->proc;
    for (size_t i = t.wb.size(); i-- > 0;) {                     // own buffered stores
        Ent& e = t.wb[i]; if (e.bar || !(e.a < a + n && a < e.a + e.n)) continue;
        if (!acq && !exclusive && e.a <= a && a + n <= e.a + e.n) { memcpy(out, e.d + (a - e.a), n); uint64_t v = std::max(av, e.view); up(t.vrOld, v); return v; }
        drain_upto(f, t, i + 1); break;
    }
    if (rcsc) { for (size_t i = t.wb.size(); i-- > 0;) if (t.wb[i].rel) { drain_upto(f, t, i + 1); break; } }
    uint64_t lb = std::max(std::max(t.vrNew, av), rcsc ? t.vRel : 0), ts = 0; const uint8_t* src = (const uint8_t*)a;
    bool one = (a & ~15ull) == ((a + n - 1) & ~15ull);
    if (cells.count(key_of(a, proc)) || (!one && cells.count(key_of(a + n - 1, proc)))) {
        up(lb, coh_of(t, a, n, proc));
        if (one) {
            Cell& c = cell(a, proc); uint8_t lo = a & 15, hi = (uint8_t)(lo + n); int idx = (int)c.m.size() - 1;
            auto ov = [&](int k) { return c.m[k].lo < hi && lo < c.m[k].hi; };
            if (weak && !fair && f != &mainf) {
                int back = 0; for (int k = idx; k > 0; --k) if (ov(k)) { if (c.m[k].ts <= lb) break; ++back; }
                if (back > 6) back = 6;
                uint32_t v = back ? choose(f, K_STALE, (uint32_t)back + 1) : 0;
                if (v) { st_stale++; while (v) { if (ov(idx)) --v; --idx; } }
            }
            src = c.m[idx].data + lo; int k = idx; while (k > 0 && !ov(k)) --k; ts = c.m[k].ts;
        } else { ts = std::max(cell(a, proc).m.back().ts, cell(a + n - 1, proc).m.back().ts); }
        seen(t, a, n, proc, ts);
    }
    memcpy(out, src, n);
    uint64_t v = std::max(lb, ts); if (!acq && !rcsc) v = std::max(av, ts);
    up(t.vrOld, v); if (acq) up(t.vrNew, v);
    return v;
}
static void store(uint64_t a, uint32_t n, const uint8_t* d, uint64_t view, bool rel) {
    access(a, n, A_WRITE);
    Fiber* f = C.cur; Th& t = T[tid()];
    bool b = weak && !fair && f != &mainf;
    uint32_t v = b ? choose(f, K_DRAIN, 3) : 0;                   // 0: everything reaches memory; 1: waits; 2: overtakes
    if (!v) { if (!t.wb.empty()) drain(f); perform(f, t, a, n, d, rel); return; }
    if (t.wb.size() >= 20) drain_upto(f, t, 1);
    Ent e; e.a = a; e.n = (uint8_t)n; e.rel = rel; e.bar = false; e.view = view; memcpy(e.d, d, n); t.wb.push_back(e); C.buffered++;
    if (v == 2 && eligible(t, t.wb.size() - 1)) commit(f, t, t.wb.size() - 1);
}
// an atomic read-modify-write instruction: fn changes the value in place and returns whether it is stored
template<class Fn> static uint64_t rmw(uint64_t a, uint32_t n, uint8_t* old, uint64_t av, bool acq, bool rel, Fn fn) {
    access(a, n, A_LOCKED);
    Fiber* f = C.cur; Th& t = T[tid()]; int proc = f == &mainf ? curproc : f->proc;
    if (rel) drain(f);
    else for (size_t i = t.wb.size(); i-- > 0;) if (!t.wb[i].bar && overlap_cells(t.wb[i], a, n)) { drain_upto(f, t, i + 1); break; } else if (t.wb[i].bar) { drain_upto(f, t, i + 1); break; }
    if (acq) { for (size_t i = t.wb.size(); i-- > 0;) if (t.wb[i].rel) { drain_upto(f, t, i + 1); break; } }
    uint64_t ts = 0; used = true; { Cell& c = cell(a, proc); for (size_t k = c.m.size(); k-- > 0;) if (!k || (c.m[k].lo < (a & 15) + n && (a & 15) < c.m[k].hi)) { ts = c.m[k].ts; break; } }
    uint8_t nw[16]; memcpy(old, (void*)a, n); memcpy(nw, old, n);
    uint64_t v = std::max(std::max(av, ts), acq ? std::max(t.vRel, t.vrNew) : 0);
    seen(t, a, n, proc, ts); up(t.vrOld, v); if (acq) up(t.vrNew, v);
    if (fn(nw)) { perform(f, t, a, n, nw, rel); if (acq && rel) up(t.vrNew, gts); }
    return v;
}
// a value that equals the newest one but was read from an older store does not hold the reservation
static bool outdated(Th& t, Cell& c, uint64_t a, uint32_t n, int proc) { int k = (int)c.m.size() - 1; while (k > 0 && !(c.m[k].lo < (a & 15) + n && (a & 15) < c.m[k].hi)) --k; return coh_of(t, a, n, proc) < c.m[k].ts; }
static uint64_t load_ex(uint64_t a, uint32_t n, uint8_t* out, uint64_t av, bool acq, bool pair, uint64_t* v2) {
    uint64_t v;
    if (a & (n - 1)) fail("crash", "exclusive load of %u bytes at unaligned address %llx", n, (unsigned long long)a);
    if (!is_shared(a)) { Th& t = T[tid()]; memcpy(out, (void*)a, n); t.ex = true; t.exa = a; t.exn = n; t.exkey = 0; if (v2) *v2 = t.vrOld; return t.vrOld; }
    if (pair) {          // the halves are read one by one: only a successful store-exclusive makes the pair atomic
        uint32_t h = n / 2; v = load(a, h, out, av, acq, acq, true);
        Th& t = T[tid()]; int proc = C.cur == &mainf ? curproc : C.cur->proc; used = true; Cell& c = cell(a, proc); uint64_t ts = c.m.back().ts; bool newest = !memcmp(out, (void*)a, h);
        *v2 = load(a + h, h, out + h, av, acq, acq, true);
        Th& t2 = T[tid()]; t2.ex = newest && !memcmp(out + h, (void*)(a + h), h) && cell(a, proc).m.back().ts == ts; t2.exts = ts; t2.exa = a; t2.exn = n; t2.exkey = key_of(a, proc); (void)t;
        if (outdated(t2, cell(a, proc), a, h, proc) || outdated(t2, cell(a, proc), a + h, h, proc)) t2.ex = false;
    } else {
        v = load(a, n, out, av, acq, acq, true);
        Th& t = T[tid()]; int proc = C.cur == &mainf ? curproc : C.cur->proc; used = true; Cell& c = cell(a, proc);
        t.ex = !memcmp(out, (void*)a, n); t.exts = c.m.back().ts; t.exa = a; t.exn = n; t.exkey = key_of(a, proc);
        if (outdated(t, c, a, n, proc)) t.ex = false;
    }
    return v;
}
static bool store_ex(uint64_t a, uint32_t n, const uint8_t* d, bool rel) {   // true: stored
    if (a & (n - 1)) fail("crash", "exclusive store of %u bytes at unaligned address %llx", n, (unsigned long long)a);
    if (!is_shared(a)) { Th& t = T[tid()]; bool ok = t.ex && t.exa == a && t.exn == n; t.ex = false; if (ok) memcpy((void*)a, d, n); return ok; }
    access(a, n, A_WRITE);
    Fiber* f = C.cur; Th& t = T[tid()]; int proc = f == &mainf ? curproc : f->proc;
    bool ok = t.ex && t.exa == a && t.exn == n && t.exkey == key_of(a, proc);
    t.ex = false;
    if (!ok) return false;
    if (!fair && f != &mainf && choose(f, K_SPURX, 2)) return false;
    if (rel) drain(f);
    else for (size_t i = t.wb.size(); i-- > 0;) if (t.wb[i].bar || overlap_cells(t.wb[i], a, n)) { drain_upto(f, t, i + 1); break; }
    if (cell(a, proc).m.back().ts != t.exts) return false;
    perform(f, t, a, n, d, rel);
    return true;
}
static void dmb(int kind) {                                        // 0 sy/ish, 1 ld, 2 st
    if (C.active && kind == 0) access(0, 0, A_FENCE);
    Fiber* f = C.cur; Th& t = T[tid()];
    if (kind == 0) { drain(f); up(t.vrNew, t.vrOld); up(t.vrNew, t.vwOld); }
    else if (kind == 1) up(t.vrNew, t.vrOld);
    else if (!t.wb.empty()) { Ent e; memset(&e, 0, sizeof e); e.bar = true; t.wb.push_back(e); }
}

enum { STK = 8192 };
struct Machine {
    uint64_t x[64]; uint64_t xv[64]; V16 v[34]; uint64_t vv[34]; uint32_t nz; uint64_t fv; uint64_t svw[STK / 8 + 2];
    uint8_t* lo; uint8_t* hi;
};
static inline uint64_t msk(uint64_t v, bool w64) { return w64 ? v : (uint32_t)v; }
static bool cond(uint32_t nz, uint32_t c) {
    bool N = nz & 8, Z = nz & 4, Cc = nz & 2, V = nz & 1, r;
    switch (c >> 1) { case 0: r = Z; break; case 1: r = Cc; break; case 2: r = N; break; case 3: r = V; break; case 4: r = Cc && !Z; break; case 5: r = N == V; break; case 6: r = N == V && !Z; break; default: return true; }
    return (c & 1) ? !r : r;
}
static uint64_t addc(uint64_t a, uint64_t b, bool ci, bool w, uint32_t* nz) {
    if (w) { unsigned __int128 u = (unsigned __int128)a + b + ci; uint64_t r = (uint64_t)u; bool V = (~(a ^ b) & (a ^ r)) >> 63; *nz = (r >> 63 ? 8 : 0) | (r == 0 ? 4 : 0) | ((u >> 64) ? 2 : 0) | V; return r; }
    uint64_t u = (uint64_t)(uint32_t)a + (uint32_t)b + ci; uint32_t r = (uint32_t)u; bool V = (~((uint32_t)a ^ (uint32_t)b) & ((uint32_t)a ^ r)) >> 31; *nz = (r >> 31 ? 8 : 0) | (r == 0 ? 4 : 0) | ((u >> 32) ? 2 : 0) | V; return r;
}
static inline uint64_t shift(uint64_t v, int sh, uint32_t n, bool w) {
    uint32_t bits = w ? 64 : 32; n &= bits - 1; v = msk(v, w); if (!n) return v;
    switch (sh) { case 0: return msk(v << n, w); case 1: return v >> n; case 2: return w ? (uint64_t)((int64_t)v >> n) : (uint32_t)((int32_t)(uint32_t)v >> n); default: return msk(v >> n | v << (bits - n), w); }
}
static inline uint64_t extend(uint64_t v, int k) { switch (k) { case 0: return (uint8_t)v; case 1: return (uint16_t)v; case 2: return (uint32_t)v; case 3: return v; case 4: return (uint64_t)(int64_t)(int8_t)v; case 5: return (uint64_t)(int64_t)(int16_t)v; case 6: return (uint64_t)(int64_t)(int32_t)v; default: return v; } }
static inline bool is_code(uint64_t fn) { return ((const uint64_t*)fn)[-1] == A64_MAGIC; }
static inline const A64Ins* code_of(uint64_t fn) { return (const A64Ins*)((const uint64_t*)fn)[-2]; }

static uint64_t mload(Machine& M, uint64_t a, uint32_t n, uint8_t* out, uint64_t av) {
    if (a >= (uint64_t)M.lo && a + n <= (uint64_t)M.hi) { memcpy(out, (void*)a, n); uint64_t v = av, b = a - (uint64_t)M.lo; for (uint64_t i = b / 8; i <= (b + n - 1) / 8; ++i) up(v, M.svw[i]); return v; }
    if (!is_shared(a)) { memcpy(out, (void*)a, n); return std::max(av, T[tid()].vrOld); }
    if (n == 16) { uint64_t v = load(a, 8, out, av, false, false, false); return std::max(v, load(a + 8, 8, out + 8, av, false, false, false)); }
    return load(a, n, out, av, false, false, false);
}
static void mstore(Machine& M, uint64_t a, uint32_t n, const uint8_t* d, uint64_t av, uint64_t dv) {
    if (a >= (uint64_t)M.lo && a + n <= (uint64_t)M.hi) { memcpy((void*)a, d, n); uint64_t b = a - (uint64_t)M.lo; for (uint64_t i = b / 8; i <= (b + n - 1) / 8; ++i) { if (n >= 8 && !(b & 7)) M.svw[i] = dv; else up(M.svw[i], dv); } return; }
    if (!is_shared(a)) { memcpy((void*)a, d, n); return; }
    if (n == 16) { store(a, 8, d, std::max(av, dv), false); store(a + 8, 8, d + 8, std::max(av, dv), false); return; }
    store(a, n, d, std::max(av, dv), false);
}
[[noreturn]] static void unsupported(const A64Ins* p) { st_unsupported++; if (!viol && !ignored_end) { ignored_end = true; st_ignored++; note("run ends: unsupported instruction %s", (const char*)p->sym); } if (in_run && C.cur != &mainf) end_run(); longjmp(crash_jb, 2); }

// memcpy and the like: like a sequence of ordinary loads and stores (what is read is ordered before whatever follows)
static bool copy(void* d, const void* s, size_t n, int dir) {
    uint8_t* dd = (uint8_t*)d; const uint8_t* ss = (const uint8_t*)s; size_t done = 0;
    while (done < n) {
        size_t left = n - done, k = left >= 8 ? 8 : left >= 4 ? 4 : left >= 2 ? 2 : 1; if (dir < 0) k = left % 8 ? 1 : 8;
        size_t o = dir > 0 ? done : n - done - k; uint8_t tmp[8];
        if (is_shared((uint64_t)ss + o)) { uint64_t v = load((uint64_t)ss + o, (uint32_t)k, tmp, 0, false, false, false); up(T[tid()].vrNew, v); } else memcpy(tmp, ss + o, k);
        if (is_shared((uint64_t)dd + o)) store((uint64_t)dd + o, (uint32_t)k, tmp, 0, false); else memcpy(dd + o, tmp, k);
        done += k;
    }
    return true;
}
static void run(const A64Ins* p, Machine& M) {
#define X(r) M.x[r]
#define W1 (p->fl & 1)
    uint64_t* xv = M.xv; uint32_t spin = 0;
    for (;; ++p) {
        const bool w = p->fl & 1;
        switch (p->op) {
        case I_NOP: break;
        case I_ADD: case I_SUB: case I_AND: case I_ORR: case I_EOR: {
            uint64_t b, bv = 0;
            switch (p->kind) { case 0: b = shift(X(p->rm), p->sh, p->amt, w); bv = xv[p->rm]; break; case 1: b = (uint64_t)p->imm; break; case 2: b = extend(X(p->rm), p->sh) << p->amt; bv = xv[p->rm]; break; case 4: b = p->sym + (uint64_t)p->imm; break; default: b = (p->sym + p->imm) & 0xfff; }
            uint64_t a = msk(X(p->rn), w), r; bool inv = p->x & 1; if (inv) b = ~b; b = msk(b, w);
            uint32_t nz = 0;
            switch (p->op) { case I_ADD: r = addc(a, b, false, w, &nz); break; case I_SUB: r = addc(a, msk(~b, w), true, w, &nz); break;
                case I_AND: r = a & b; nz = ((w ? r >> 63 : r >> 31 & 1) ? 8 : 0) | (r == 0 ? 4 : 0); break; case I_ORR: r = a | b; break; default: r = a ^ b; }
            uint64_t v = std::max(xv[p->rn], bv); if (p->fl & 2) { M.nz = nz; M.fv = v; }
            X(p->rd) = r; xv[p->rd] = v; if (p->rd == 32 && r < (uint64_t)M.lo + 64) unsupported(p); break; }
        case I_ADC: case I_SBC: { uint32_t nz; uint64_t b = msk(X(p->rm), w); if (p->op == I_SBC) b = msk(~b, w); uint64_t r = addc(msk(X(p->rn), w), b, M.nz & 2, w, &nz), v = std::max(std::max(xv[p->rn], xv[p->rm]), M.fv); if (p->fl & 2) { M.nz = nz; M.fv = v; } X(p->rd) = r; xv[p->rd] = v; break; }
        case I_MOVI: X(p->rd) = msk((uint64_t)p->imm, w); xv[p->rd] = 0; break;
        case I_MOVK: X(p->rd) = msk((X(p->rd) & ~(0xffffull << p->amt)) | (uint64_t)p->imm << p->amt, w); break;
        case I_LSLV: case I_LSRV: case I_ASRV: case I_RORV: { uint64_t v = std::max(xv[p->rn], xv[p->rm]); X(p->rd) = shift(X(p->rn), p->op - I_LSLV, (uint32_t)X(p->rm) & (w ? 63 : 31), w); xv[p->rd] = v; break; }
        case I_UBFM: { uint64_t a = msk(X(p->rn), w) >> p->amt; if (p->x < 64) a &= (1ull << p->x) - 1; X(p->rd) = msk(a << p->sh, w); xv[p->rd] = xv[p->rn]; break; }         // sh: left shift, amt: lowest bit, x: width
        case I_SBFM: { int64_t a = (int64_t)(msk(X(p->rn), w) >> p->amt << (64 - p->x)) >> (64 - p->x); X(p->rd) = msk((uint64_t)a << p->sh, w); xv[p->rd] = xv[p->rn]; break; }
        case I_BFM: { uint64_t m = p->x < 64 ? (1ull << p->x) - 1 : ~0ull; uint64_t a = (msk(X(p->rn), w) >> p->amt) & m; X(p->rd) = msk((X(p->rd) & ~(m << p->sh)) | a << p->sh, w); up(xv[p->rd], xv[p->rn]); break; }
        case I_EXTR: { uint64_t a = msk(X(p->rn), w), b = msk(X(p->rm), w); uint32_t n = w ? 64 : 32; uint64_t v = std::max(xv[p->rn], xv[p->rm]); X(p->rd) = p->amt ? msk(b >> p->amt | a << (n - p->amt), w) : b; xv[p->rd] = v; break; }
        case I_MADD: case I_MSUB: { uint64_t m = X(p->rn) * X(p->rm), v = std::max(std::max(xv[p->rn], xv[p->rm]), xv[p->ra]); X(p->rd) = msk(p->op == I_MADD ? X(p->ra) + m : X(p->ra) - m, w); xv[p->rd] = v; break; }
        case I_SMADDL: case I_UMADDL: case I_SMSUBL: case I_UMSUBL: { bool sg = p->op == I_SMADDL || p->op == I_SMSUBL; uint64_t m = sg ? (uint64_t)((int64_t)(int32_t)X(p->rn) * (int32_t)X(p->rm)) : (uint64_t)(uint32_t)X(p->rn) * (uint32_t)X(p->rm), v = std::max(std::max(xv[p->rn], xv[p->rm]), xv[p->ra]); X(p->rd) = p->op == I_SMADDL || p->op == I_UMADDL ? X(p->ra) + m : X(p->ra) - m; xv[p->rd] = v; break; }
        case I_SMULH: case I_UMULH: { uint64_t v = std::max(xv[p->rn], xv[p->rm]); X(p->rd) = p->op == I_SMULH ? (uint64_t)(((__int128)(int64_t)X(p->rn) * (int64_t)X(p->rm)) >> 64) : (uint64_t)(((unsigned __int128)X(p->rn) * X(p->rm)) >> 64); xv[p->rd] = v; break; }
        case I_UDIV: case I_SDIV: { uint64_t a = msk(X(p->rn), w), b = msk(X(p->rm), w), r, v = std::max(xv[p->rn], xv[p->rm]);
            if (!b) r = 0; else if (p->op == I_UDIV) r = a / b; else if (w) r = (int64_t)b == -1 ? 0 - a : (uint64_t)((int64_t)a / (int64_t)b); else r = (int32_t)b == -1 ? (uint32_t)(0 - (uint32_t)a) : (uint32_t)((int32_t)a / (int32_t)b);
            X(p->rd) = msk(r, w); xv[p->rd] = v; break; }
        case I_CLZ: { uint64_t a = msk(X(p->rn), w); X(p->rd) = a ? __builtin_clzll(a) - (w ? 0 : 32) : w ? 64 : 32; xv[p->rd] = xv[p->rn]; break; }
        case I_RBIT: { uint64_t a = X(p->rn), r = 0; int n = w ? 64 : 32; for (int i = 0; i < n; ++i) if (a >> i & 1) r |= 1ull << (n - 1 - i); X(p->rd) = r; xv[p->rd] = xv[p->rn]; break; }
        case I_REV: X(p->rd) = w ? __builtin_bswap64(X(p->rn)) : __builtin_bswap32((uint32_t)X(p->rn)); xv[p->rd] = xv[p->rn]; break;
        case I_REV16: { uint64_t a = X(p->rn); X(p->rd) = msk((a & 0x00ff00ff00ff00ffull) << 8 | (a >> 8 & 0x00ff00ff00ff00ffull), w); xv[p->rd] = xv[p->rn]; break; }
        case I_REV32: { uint64_t a = X(p->rn); X(p->rd) = __builtin_bswap32((uint32_t)a) | (uint64_t)__builtin_bswap32((uint32_t)(a >> 32)) << 32; xv[p->rd] = xv[p->rn]; break; }
        case I_CSEL: case I_CSINC: case I_CSINV: case I_CSNEG: { bool c = cond(M.nz, p->cond); uint64_t r, v; if (c) { r = X(p->rn); v = xv[p->rn]; } else { r = X(p->rm); v = xv[p->rm]; if (p->op == I_CSINC) ++r; else if (p->op == I_CSINV) r = ~r; else if (p->op == I_CSNEG) r = 0 - r; } X(p->rd) = msk(r, w); xv[p->rd] = std::max(v, M.fv); break; }
        case I_CCMP: case I_CCMN: { if (cond(M.nz, p->cond)) { uint64_t b = p->kind ? (uint64_t)p->imm : X(p->rm); b = msk(b, w); uint32_t nz; if (p->op == I_CCMP) addc(msk(X(p->rn), w), msk(~b, w), true, w, &nz); else addc(msk(X(p->rn), w), b, false, w, &nz); M.nz = nz; up(M.fv, xv[p->rn]); if (!p->kind) up(M.fv, xv[p->rm]); } else M.nz = p->amt; break; }
        case I_B: p = (const A64Ins*)p->sym - 1; break;
        case I_BCOND: if (cond(M.nz, p->cond)) p = (const A64Ins*)p->sym - 1; break;
        case I_CBZ: if (!msk(X(p->rn), w)) p = (const A64Ins*)p->sym - 1; break;
        case I_CBNZ: if (msk(X(p->rn), w)) p = (const A64Ins*)p->sym - 1; break;
        case I_TBZ: if (!(X(p->rn) >> p->amt & 1)) p = (const A64Ins*)p->sym - 1; break;
        case I_TBNZ: if (X(p->rn) >> p->amt & 1) p = (const A64Ins*)p->sym - 1; break;
        case I_BL: case I_BLR: case I_BR: {
            uint64_t fn = p->op == I_BL ? p->sym : X(p->rn); bool tail = p->op == I_BR || (p->op == I_BL && p->x);
            if (!tail) { X(30) = (uint64_t)(p + 1); xv[30] = 0; }
            if (is_code(fn)) { p = code_of(fn) - 1; if (++spin > 100000000) return; break; }
            uint64_t rdx; double v[8]; for (int i = 0; i < 8; ++i) memcpy(&v[i], &M.v[i], 8);
            uint64_t args[8]; memcpy(args, M.x, sizeof args); int id = tid();
            X(0) = a64_hostcall(fn, args, v, &rdx); X(1) = rdx; memcpy(&M.v[0], &v[0], 8); xv[0] = xv[1] = M.vv[0] = T[id].vrOld;
            for (uint32_t r = 2; r < 18; ++r) { X(r) = 0xdeadbeef0000ull + r; xv[r] = 0; }
            if (tail) { if (!X(30)) return; p = (const A64Ins*)X(30) - 1; }
            break; }
        case I_RET: { uint64_t r = X(p->rn); if (!r) return; p = (const A64Ins*)r - 1; break; }
        case I_ADRP: X(p->rd) = (p->sym + (uint64_t)p->imm) & ~0xfffull; xv[p->rd] = 0; break;
        case I_ADR: X(p->rd) = p->sym + (uint64_t)p->imm; xv[p->rd] = 0; break;
        case I_LDR: case I_STR: case I_LDRV: case I_STRV: case I_LDP: case I_STP: case I_LDPV: case I_STPV: {
            uint64_t base = X(p->rn), av = xv[p->rn], off = (uint64_t)p->imm, a;
            if (p->kind == 1) { off = extend(X(p->rm), p->sh) << p->amt; up(av, xv[p->rm]); } else if (p->kind == 3) off = (p->sym + (uint64_t)p->imm) & 0xfff; else if (p->kind == 4) off = p->sym + (uint64_t)p->imm;
            a = (p->fl & 32) ? base : base + off; uint32_t n = p->size; uint8_t t[16];
            if (p->fl & (16 | 32)) { X(p->rn) = base + off; if (p->rn == 32 && base + off < (uint64_t)M.lo + 64) unsupported(p); }
            switch (p->op) {
            case I_LDR: { uint64_t v = mload(M, a, n, t, av), r = 0; if (p->cond) v = av;  /* a constant of the compiled code */ memcpy(&r, t, n); if (p->fl & 12) { int k = 64 - 8 * n; r = (uint64_t)((int64_t)(r << k) >> k); if (p->fl & 8) r = (uint32_t)r; } X(p->rd) = r; xv[p->rd] = v; break; }
            case I_STR: mstore(M, a, n, (const uint8_t*)&X(p->rd), av, xv[p->rd]); break;
            case I_LDP: { uint64_t v1 = mload(M, a, n, t, av), v2 = mload(M, a + n, n, t + 8, av), r1 = 0, r2 = 0; memcpy(&r1, t, n); memcpy(&r2, t + 8, n); if (p->fl & 4) { r1 = (uint64_t)(int64_t)(int32_t)r1; r2 = (uint64_t)(int64_t)(int32_t)r2; } X(p->rd) = r1; xv[p->rd] = v1; X(p->ra) = r2; xv[p->ra] = v2; break; }
            case I_STP: { uint64_t d1 = X(p->rd), d2 = X(p->ra), v1 = xv[p->rd], v2 = xv[p->ra]; mstore(M, a, n, (const uint8_t*)&d1, av, v1); mstore(M, a + n, n, (const uint8_t*)&d2, av, v2); break; }
            case I_LDRV: { memset(t, 0, 16); uint64_t v = mload(M, a, n, t, av); if (p->cond) v = av; memcpy(M.v[p->rd].b, t, 16); M.vv[p->rd] = v; break; }
            case I_STRV: mstore(M, a, n, M.v[p->rd].b, av, M.vv[p->rd]); break;
            case I_LDPV: { for (int i = 0; i < 2; ++i) { uint8_t r = i ? p->ra : p->rd; memset(t, 0, 16); uint64_t v = mload(M, a + i * n, n, t, av); memcpy(M.v[r].b, t, 16); M.vv[r] = v; } break; }
            default: for (int i = 0; i < 2; ++i) { uint8_t r = i ? p->ra : p->rd; mstore(M, a + i * n, n, M.v[r].b, av, M.vv[r]); } break;
            }
            break; }
        case I_LDAR: case I_LDAPR: { uint64_t a = X(p->rn), r = 0, v; if (a & (p->size - 1)) fail("crash", "acquiring load of %u bytes at unaligned address %llx", p->size, (unsigned long long)a);
            if (is_shared(a)) v = load(a, p->size, (uint8_t*)&r, xv[p->rn], true, p->op == I_LDAR, false); else v = mload(M, a, p->size, (uint8_t*)&r, xv[p->rn]); X(p->rd) = r; xv[p->rd] = v; break; }
        case I_STLR: { uint64_t a = X(p->rn), d = X(p->rd); if (a & (p->size - 1)) fail("crash", "releasing store of %u bytes at unaligned address %llx", p->size, (unsigned long long)a);
            if (is_shared(a)) store(a, p->size, (const uint8_t*)&d, std::max(xv[p->rn], xv[p->rd]), true); else mstore(M, a, p->size, (const uint8_t*)&d, xv[p->rn], xv[p->rd]); break; }
        case I_LDXR: case I_LDAXR: { uint64_t r = 0, v = load_ex(X(p->rn), p->size, (uint8_t*)&r, xv[p->rn], p->op == I_LDAXR, false, nullptr); X(p->rd) = r; xv[p->rd] = v; break; }
        case I_LDXP: case I_LDAXP: { uint8_t t[16]; uint64_t v2, v = load_ex(X(p->rn), p->size * 2, t, xv[p->rn], p->op == I_LDAXP, true, &v2), r1 = 0, r2 = 0; memcpy(&r1, t, p->size); memcpy(&r2, t + p->size, p->size); X(p->rd) = r1; xv[p->rd] = v; X(p->ra) = r2; xv[p->ra] = v2; break; }
        case I_STXR: case I_STLXR: { uint64_t d = X(p->rm); bool ok = store_ex(X(p->rn), p->size, (const uint8_t*)&d, p->op == I_STLXR); X(p->rd) = !ok; xv[p->rd] = 0; break; }
        case I_STXP: case I_STLXP: { uint8_t t[16]; memcpy(t, &X(p->rm), p->size); memcpy(t + p->size, &X(p->ra), p->size); bool ok = store_ex(X(p->rn), p->size * 2, t, p->op == I_STLXP); X(p->rd) = !ok; xv[p->rd] = 0; break; }
        case I_CLREX: T[tid()].ex = false; break;
        case I_CAS: case I_SWP: case I_LDADD: case I_LDCLR: case I_LDEOR: case I_LDSET: case I_LDSMAX: case I_LDSMIN: case I_LDUMAX: case I_LDUMIN: case I_CASP: {
            uint64_t a = X(p->rn); uint32_t n = p->size * (p->op == I_CASP ? 2 : 1); uint8_t old[16]; uint64_t v = 0; if (a & (n - 1)) fail("crash", "atomic instruction on %u bytes at unaligned address %llx", n, (unsigned long long)a);
            uint64_t s[2] = { X(p->rm), X(p->ra) }, e[2] = { X(p->rd), 0 }; uint8_t sb[16], eb[16];
            if (p->op == I_CASP) { s[0] = X(p->rm); s[1] = X(p->rm + 1); e[1] = X(p->rd + 1); memcpy(sb, &s[0], p->size); memcpy(sb + p->size, &s[1], p->size); memcpy(eb, &e[0], p->size); memcpy(eb + p->size, &e[1], p->size); }
            else { memcpy(sb, s, 8); memcpy(eb, e, 8); }
            auto fn = [&](uint8_t* m) {
                uint64_t o = 0, z = 0; if (p->op != I_CASP) { memcpy(&o, m, n); memcpy(&z, sb, n); }
                int k = 64 - 8 * (n > 8 ? 8 : n); int64_t so = (int64_t)(o << k), sz = (int64_t)(z << k);
                switch (p->op) { case I_CAS: case I_CASP: if (memcmp(m, eb, n)) return false; memcpy(m, sb, n); return true;
                    case I_SWP: o = z; break; case I_LDADD: o += z; break; case I_LDCLR: o &= ~z; break; case I_LDEOR: o ^= z; break; case I_LDSET: o |= z; break;
                    case I_LDSMAX: o = so > sz ? o : z; break; case I_LDSMIN: o = so < sz ? o : z; break; case I_LDUMAX: o = std::max(o, z); break; default: o = std::min(o, z); break; }
                memcpy(m, &o, n); return true; };
            bool acq = (p->fl & 64) && (p->rd != 31 || p->op == I_CAS || p->op == I_CASP || p->op == I_SWP);
            if (is_shared(a)) v = rmw(a, n, old, xv[p->rn], acq, p->fl & 128, fn); else { memcpy(old, (void*)a, n); uint8_t m[16]; memcpy(m, old, n); if (fn(m)) memcpy((void*)a, m, n); v = T[tid()].vrOld; }
            if (p->op == I_CASP) { uint64_t r1 = 0, r2 = 0; memcpy(&r1, old, p->size); memcpy(&r2, old + p->size, p->size); X(p->rd) = r1; X(p->rd + 1) = r2; xv[p->rd] = xv[p->rd + 1] = v; }
            else { uint64_t r = 0; memcpy(&r, old, n); X(p->rd) = r; xv[p->rd] = v; }
            break; }
        case I_DMB: dmb(p->kind); break;
        case I_ISB: case I_YIELD: if (C.active) { touch(0, 0, A_PAUSE); } break;
        case I_FMOVVG: memset(M.v[p->rd].b, 0, 16); memcpy(M.v[p->rd].b, &X(p->rn), p->size); M.vv[p->rd] = xv[p->rn]; break;
        case I_FMOVGV: { uint64_t r = 0; memcpy(&r, M.v[p->rn].b, p->size); X(p->rd) = r; xv[p->rd] = M.vv[p->rn]; break; }
        case I_FMOVVV: { uint8_t t[16] = {}; memcpy(t, M.v[p->rn].b, p->size); memcpy(M.v[p->rd].b, t, 16); M.vv[p->rd] = M.vv[p->rn]; break; }
        case I_FMOVI: memset(M.v[p->rd].b, 0, 16); memcpy(M.v[p->rd].b, &p->imm, p->size); M.vv[p->rd] = 0; break;
        case I_VMOV: M.v[p->rd] = M.v[p->rn]; M.vv[p->rd] = M.vv[p->rn]; break;
        case I_VZERO: for (uint32_t i = 0; i < 16; i += 8) memcpy(M.v[p->rd].b + i, &p->imm, 8); if (p->size == 8) memset(M.v[p->rd].b + 8, 0, 8); M.vv[p->rd] = 0; break;
        case I_VARITH: {         // x: operation, amt: bytes per element, kind: immediate operand
            uint8_t A[16], B[16], D[16] = {}; memcpy(A, M.v[p->rn].b, 16); memcpy(B, M.v[p->rm].b, 16); uint32_t es = p->amt;
            for (uint32_t i = 0; i < p->size; i += es) {
                uint64_t a = 0, b = 0, r = 0; memcpy(&a, A + i, es); memcpy(&b, B + i, es); if (p->kind) b = (uint64_t)p->imm; int k = 64 - 8 * (int)es; int64_t sa = (int64_t)(a << k) >> k, sb = p->kind ? p->imm : (int64_t)(b << k) >> k;
                switch (p->x) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = a << b; break; case 4: r = b < 64 ? a >> b : 0; break; case 5: r = (uint64_t)(sa >> (b < 64 ? b : 63)); break; case 6: r = sa == sb ? ~0ull : 0; break;
                    case 7: r = sa > sb ? ~0ull : 0; break; case 8: r = sa >= sb ? ~0ull : 0; break; case 9: r = a > b ? ~0ull : 0; break; case 10: r = a >= b ? ~0ull : 0; break; case 11: r = 0 - a; break; case 12: r = a & ~b; break; case 13: r = a | ~b; break;
                    case 14: r = sa > sb ? a : b; break; case 15: r = sa < sb ? a : b; break; case 16: r = a > b ? a : b; break; default: r = a < b ? a : b; }
                memcpy(D + i, &r, es);
            }
            uint64_t v = std::max(M.vv[p->rn], p->kind ? 0 : M.vv[p->rm]); memcpy(M.v[p->rd].b, D, 16); M.vv[p->rd] = v; break; }
        case I_VEOR: case I_VORR: case I_VAND: case I_VNOT: for (uint32_t i = 0; i < 16; ++i) { uint8_t a = M.v[p->rn].b[i], b = M.v[p->rm].b[i]; M.v[p->rd].b[i] = i >= p->size ? 0 : p->op == I_VEOR ? a ^ b : p->op == I_VORR ? a | b : p->op == I_VAND ? a & b : ~a; } M.vv[p->rd] = std::max(M.vv[p->rn], M.vv[p->rm]); break;
        case I_INSV: memcpy(M.v[p->rd].b + p->amt, &X(p->rn), p->size); up(M.vv[p->rd], xv[p->rn]); break;
        case I_UMOV: { uint64_t r = 0; memcpy(&r, M.v[p->rn].b + p->amt, p->size); X(p->rd) = r; xv[p->rd] = M.vv[p->rn]; break; }
        case I_DUP: for (uint32_t i = 0; i < 16; i += p->size) memcpy(M.v[p->rd].b + i, &X(p->rn), p->size); M.vv[p->rd] = xv[p->rn]; break;
        case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: case I_FNEG: case I_FABS: {
            uint64_t v = std::max(M.vv[p->rn], p->op >= I_FNEG ? 0 : M.vv[p->rm]); uint8_t t[16] = {};
            if (p->size == 8) { double a, b, r; memcpy(&a, M.v[p->rn].b, 8); memcpy(&b, M.v[p->rm].b, 8); r = p->op == I_FADD ? a + b : p->op == I_FSUB ? a - b : p->op == I_FMUL ? a * b : p->op == I_FDIV ? a / b : p->op == I_FNEG ? -a : __builtin_fabs(a); memcpy(t, &r, 8); }
            else { float a, b, r; memcpy(&a, M.v[p->rn].b, 4); memcpy(&b, M.v[p->rm].b, 4); r = p->op == I_FADD ? a + b : p->op == I_FSUB ? a - b : p->op == I_FMUL ? a * b : p->op == I_FDIV ? a / b : p->op == I_FNEG ? -a : __builtin_fabsf(a); memcpy(t, &r, 4); }
            memcpy(M.v[p->rd].b, t, 16); M.vv[p->rd] = v; break; }
        case I_FCMP: { double a = 0, b = 0; if (p->size == 8) { memcpy(&a, M.v[p->rn].b, 8); if (!p->kind) memcpy(&b, M.v[p->rm].b, 8); } else { float x, y = 0; memcpy(&x, M.v[p->rn].b, 4); if (!p->kind) memcpy(&y, M.v[p->rm].b, 4); a = x; b = y; } M.nz = a != a || b != b ? 3 : a == b ? 6 : a < b ? 8 : 2; M.fv = std::max(M.vv[p->rn], p->kind ? 0 : M.vv[p->rm]); break; }
        case I_FCVT: { uint8_t t[16] = {}; if (p->size == 8) { double a; memcpy(&a, M.v[p->rn].b, 8); float r = (float)a; memcpy(t, &r, 4); } else { float a; memcpy(&a, M.v[p->rn].b, 4); double r = a; memcpy(t, &r, 8); } memcpy(M.v[p->rd].b, t, 16); M.vv[p->rd] = M.vv[p->rn]; break; }
        case I_SCVTF: case I_UCVTF: { uint8_t t[16] = {}; uint64_t s = X(p->rn); double r = p->op == I_SCVTF ? (w ? (double)(int64_t)s : (double)(int32_t)s) : (w ? (double)s : (double)(uint32_t)s); if (p->size == 8) memcpy(t, &r, 8); else { float q = p->op == I_SCVTF ? (w ? (float)(int64_t)s : (float)(int32_t)s) : (w ? (float)s : (float)(uint32_t)s); memcpy(t, &q, 4); } memcpy(M.v[p->rd].b, t, 16); M.vv[p->rd] = xv[p->rn]; break; }
        case I_FCVTZS: case I_FCVTZU: { double a; if (p->size == 8) memcpy(&a, M.v[p->rn].b, 8); else { float q; memcpy(&q, M.v[p->rn].b, 4); a = q; }
            uint64_t r; if (a != a) r = 0; else if (p->op == I_FCVTZS) { double hi = w ? 9223372036854775808.0 : 2147483648.0; r = a >= hi ? (w ? INT64_MAX : INT32_MAX) : a < -hi ? (uint64_t)(w ? INT64_MIN : INT32_MIN) : (uint64_t)(int64_t)a; } else { double hi = w ? 18446744073709551616.0 : 4294967296.0; r = a >= hi ? ~0ull : a <= 0 ? 0 : (uint64_t)a; }
            X(p->rd) = msk(r, w); xv[p->rd] = M.vv[p->rn]; break; }
#include "ppc.inc"
        case I_BRK: fail("abort", "trap instruction executed");
        default: unsupported(p);
        }
        M.x[31] = 0; xv[31] = 0;
    }
}
} // namespace a64
extern "C" uint64_t a64_enter_c(const A64Ins* bc, uint64_t* ints, double* fps, uint64_t* ret2) {
    // the machine's stack and registers live on the host stack of the fiber
    uint8_t stack[a64::STK] __attribute__((aligned(16))); a64::Machine M;
    memset(stack, (int)(cur_seed & 0xff) | 1, sizeof stack); memset(&M, 0, sizeof M);
    M.lo = stack; M.hi = stack + sizeof stack;
    for (int i = 0; i < 6; ++i) M.x[i] = ints[i];
    for (int i = 6; i < 31; ++i) M.x[i] = 0xabcdef0000ull + i;
    for (int i = 0; i < 8; ++i) memcpy(M.v[i].b, &fps[i], 8);
    M.x[30] = 0; M.x[32] = (uint64_t)(stack + sizeof stack - 256);      // PowerPC saves registers in its caller's frame
    a64::run(bc, M);
    memcpy(&fps[0], M.v[0].b, 8); *ret2 = M.x[1];
    return M.x[0];
}
