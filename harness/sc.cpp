// Scenario "sc": programs over several objects of any sizes made of sequentially consistent operations, and of weaker ones with
// sequentially consistent fences between them, with delayed stores. Oracle: one total order of all operations that is
// consistent with each thread's order explains every result and the final values, found by searching all of them.
// Mode 1: operation and load compiled together (sut/litmus.inc), two objects.
#include "common.h"
#include "litmus.h"
#include <set>
using namespace sim; using namespace h;
extern "C" void lit_fence(int) __attribute__((weak));
namespace {
enum { MT = 5, MO = 4 };
struct Obj { const TypeInfo* t; unsigned char* m; Val init; Pool pool; Val fin; } ob_[MO]; int nobj, nt, mode; bool glue;
struct E { OpDesc d; OpRes r; int obj; bool fence_before; }; std::vector<E> prog[MT];
LArg la[MT][3]; LitFn lf[MT][3]; int nl[MT];
void thread(int id) {
    if (mode == 1) {
        for (int k = 0; k < nl[id]; ++k) {
            lf[id][k](&la[id][k]);
            for (int j = 0; j < 2; ++j) { E& e = prog[id][k * 2 + j]; memcpy(e.r.v, la[id][k].exp[j].v, MAXV); e.r.ok = e.d.op == OP_TEST ? e.r.v[0] != 0 : la[id][k].exp[j].ok; note("t%d obj%d %s a=%s -> %s", id, e.obj, op_name[e.d.op], vstr(ob_[e.obj].t, e.d.a).c_str(), vstr(ob_[e.obj].t, e.r.v).c_str()); mix(low(ob_[e.obj].t, e.r.v)); }
        }
        return; }
    for (auto& e : prog[id]) {
        Obj& o = ob_[e.obj]; if (e.fence_before) lit_fence(0);
        note("t%d obj%d %s.%d a=%s b=%s ...", id, e.obj, op_name[e.d.op], e.d.mo, vstr(o.t, e.d.a).c_str(), vstr(o.t, e.d.b).c_str());
        exec(o.t, o.m, e.d, e.r);
        note("t%d obj%d %s -> %s ok=%d", id, e.obj, op_name[e.d.op], vstr(o.t, e.r.v).c_str(), e.r.ok); mix(low(o.t, e.r.v) + e.r.ok); }
}
struct Search {
    std::unordered_set<std::string> seen; int pos[MT]; Val st[MO]; uint64_t n = 0;
    bool go() {
        bool end = true; for (int i = 0; i < nt; ++i) if (pos[i] < (int)prog[i].size()) end = false;
        if (end) { for (int i = 0; i < nobj; ++i) if (!veq(ob_[i].t, st[i].b, ob_[i].fin.b)) return false; return true; }
        std::string k; for (int i = 0; i < nt; ++i) k += (char)pos[i]; for (int i = 0; i < nobj; ++i) k.append((char*)st[i].b, ob_[i].t->size);
        if (!seen.insert(k).second) return false; ++n;
        for (int i = 0; i < nt; ++i) if (pos[i] < (int)prog[i].size()) {
            E& e = prog[i][pos[i]]; Val old = st[e.obj]; ++pos[i]; bool r = apply(ob_[e.obj].t, e.d, e.r, st[e.obj]) && go(); --pos[i]; st[e.obj] = old; if (r) return true; }
        return false;
    }
};
// a read-modify-write with acquire and release semantics, often one that does not change the value
bool is_rmw(const TypeInfo* t, int o) { return t->cls == CL_FLAG ? o == OP_TAS : !(o == OP_LOAD || o == OP_CONV || o == OP_STORE || o == OP_ASSIGN || o == OP_CASW || o == OP_CASS || (ob(o) & (M_WAITS | M_NOTIFY))); }
E glue_op(int gi) {
    Obj& o = ob_[gi]; E e; memset(&e, 0, sizeof e); e.obj = gi; do { gen_op(o.t, o.pool, MIX_ALL, 2, e.d); if (chance(1, 4)) e.d.op = OP_XCHG; } while (!is_rmw(o.t, e.d.op)); e.d.cv = 0; if (o.t->cls == CL_FLAG) e.d.op = OP_TAS;
    if (has_mo(o.t, e.d.op, 2) && e.d.op != OP_TAS) e.d.mo = chance(1, 2) ? 2 : 0;
    if (e.d.op == OP_XCHG ? chance(2, 3) : chance(1, 2)) { if (e.d.op == OP_XCHG) memcpy(e.d.a, o.init.b, MAXV); else memset(e.d.a, chance(2, 3) ? 0 : 0xff, o.t->cls >= CL_FP32 && o.t->cls <= CL_FP80 ? 0 : MAXV); if (e.d.op != OP_XCHG) e.d.t = 0; garbage(o.t, e.d.a); }
    mix_sig(e.d.op * 32 + e.d.mo); return e;
}
bool sc_ok(const TypeInfo* t) { return filter_ok(t); }
void setup() {
    read_filter(); glue = false; cfg.tso = !chance(1, 20); mode = g_lits && opt("glue", -1) != 1 && chance(1, 3);
    nt = chance(2, 3) ? 2 : 3 + gen(2);
    if (mode == 1) {
        const LitType* c[64]; int n = 0; for (LitType* l = g_lits; l; l = l->next) { for (TypeTab* x = g_types; x; x = x->next) for (int i = 0; i < x->n; ++i) if (!strcmp(x->t[i].name, l->name) && filter_ok(&x->t[i])) c[n++] = l; }
        for (int i = 1; i < n; ++i) for (int j = i; j > 0 && strcmp(c[j - 1]->name, c[j]->name) > 0; --j) std::swap(c[j - 1], c[j]);
        if (!n) mode = 0; else {
            const LitType* l = c[gen(n)]; const TypeInfo* t = nullptr; for (TypeTab* x = g_types; x; x = x->next) for (int i = 0; i < x->n; ++i) if (!strcmp(x->t[i].name, l->name)) t = &x->t[i];
            nobj = 2; for (int i = 0; i < 2; ++i) { ob_[i].t = t; ob_[i].m = i ? lit_obj2 : lit_obj; make_pool(t, ob_[i].pool); ob_[i].init = ob_[i].pool.v[0]; memset(ob_[i].m, 0xc3, 64); }
            for (const char* s = t->name; *s; ++s) mix_sig(*s);
            for (int i = 0; i < nt; ++i) { prog[i].clear(); nl[i] = 1 + gen(2);
                for (int k = 0; k < nl[i]; ++k) { LArg& a = la[i][k]; memset(&a, 0, sizeof a); int x = nt == 2 && k == 0 ? i : (int)gen(2), f = gen(2);
                    lf[i][k] = nullptr; while (!lf[i][k]) { gen_op(t, ob_[x].pool, MIX_ALL, 2, a.d); if (chance(1, 4)) a.d.op = t->cls == CL_FLAG ? OP_CLEAR : OP_STORE; a.d.cv = 0; lf[i][k] = l->sb[a.d.op][f][x]; }
                    // two relaxed groups in a row have no fence between them; and weaker forms must not follow each other unfenced
                    if (k && f) lf[i][k] = l->sb[a.d.op][0][x] ? l->sb[a.d.op][0][x] : lf[i][k];
                    E e; memset(&e, 0, sizeof e); e.d = a.d; e.d.mo = 0; e.obj = x; prog[i].push_back(e); memset(&e.d, 0, sizeof e.d); e.d.op = t->cls == CL_FLAG ? OP_TEST : OP_LOAD; e.obj = 1 - x; prog[i].push_back(e); mix_sig(a.d.op * 8 + f * 4 + x * 2 + i * 1000); }
                if (nl[i] == 2) { // a fence form may only come alone
                    bool anyf = false; for (int k = 0; k < 2; ++k) if (lf[i][k] == l->sb[la[i][k].d.op][1][prog[i][k * 2].obj]) anyf = true; if (anyf) { nl[i] = 1; prog[i].resize(2); } }
            }
        }
    }
    if (mode == 0) {
        nobj = 2 + (chance(1, 3) ? gen(3) : 0); size_t off = 64; bool same = chance(1, 4);
        for (int i = 0; i < nobj; ++i) { Obj& o = ob_[i]; o.t = i && same ? ob_[0].t : pick_type(sc_ok); size_t p = place(o.t, off + (chance(1, 2) ? 64 : 0)); off = p + o.t->objsize; o.m = ARENA + p; make_pool(o.t, o.pool); o.init = o.pool.v[0]; for (const char* s = o.t->name; *s; ++s) mix_sig(*s); }
        arena_use(0, off + 64); for (size_t i = 0; i < off + 64; ++i) ARENA[i] = (unsigned char)(0xc3 ^ i * 7);
        bool fences = lit_fence && chance(1, 2);
        // glue: all threads put a read-modify-write of one more object between any two weaker operations, which orders them as well
        long og = opt("glue", -1); glue = og >= 0 ? og != 0 : chance(1, 4); int gi = -1; if (glue) { if (nobj == MO) --nobj; gi = nobj++; Obj& o = ob_[gi]; o.t = pick_type(sc_ok); size_t p = place(o.t, off); off = p + o.t->objsize; o.m = ARENA + p; make_pool(o.t, o.pool); o.init = o.pool.v[0]; fences = false; arena_use(0, off + 64); for (size_t i = p; i < off + 64; ++i) ARENA[i] = (unsigned char)(0xc3 ^ i * 7); mix_sig(77); for (const char* s = o.t->name; *s; ++s) mix_sig(*s); }
        int nprog = glue ? nobj - 1 : nobj; bool tight = glue && chance(1, 2); if (tight) nt = 2;
        for (int i = 0; i < nt; ++i) {
            prog[i].clear(); int n = tight ? 2 : nt == 2 ? 2 + gen(3) : 1 + gen(3); bool fe = glue || (fences && chance(2, 3)), writer = chance(1, 2), readr = chance(1, 3); int last = -1;
            for (int k = 0; k < n; ++k) {
                E e; memset(&e, 0, sizeof e); do e.obj = gen(nprog); while (e.obj == last && chance(3, 4)); if (tight) e.obj = k ? 1 - i : i; else if (k == 0 && nt == 2) e.obj = i % nprog; last = e.obj; Obj& o = ob_[e.obj];
                uint32_t c = gen(8); if (tight && !k) { gen_op(o.t, o.pool, MIX_ALL, 2, e.d); e.d.op = o.t->cls == CL_FLAG ? OP_CLEAR : OP_STORE; e.d.cv = 0; }
                else if (!tight && ((k == 0 && writer && c < 6) || c == 0)) { gen_op(o.t, o.pool, MIX_ALL, 2, e.d); if (chance(1, 2)) e.d.op = o.t->cls == CL_FLAG ? OP_CLEAR : OP_STORE; e.d.cv = 0; }
                else if (tight || (k && c < 5) || readr) { gen_op(o.t, o.pool, MIX_CORE, 2, e.d); e.d.op = o.t->cls == CL_FLAG ? OP_TEST : OP_LOAD; }
                else gen_op(o.t, o.pool, MIX_ALL, 2, e.d);
                if (fe && has_mo(o.t, e.d.op, 1)) { e.d.mo = has_mo(o.t, e.d.op, 2) ? 1 + gen(2) : 1; e.d.cv = 0; }
                // between a weaker operation and its neighbours stands a fence
                e.fence_before = !glue && k && (e.d.mo || prog[i].back().d.mo); if (glue && k) prog[i].push_back(glue_op(gi)); prog[i].push_back(e); mix_sig(e.d.op * 16 + e.d.mo + e.obj * 4 + i * 1000);
            }
        }
    }
    for (int i = 0; i < nobj; ++i) { Val v = ob_[i].init; garbage(ob_[i].t, v.b); ob_[i].t->init(ob_[i].m, v.b); }
    int total = 0; for (int i = 0; i < nt; ++i) { total += (int)prog[i].size(); spawn(thread, i); }
    gaps(total * 4); if (chance(1, 3) || (glue && chance(1, 2))) cfg.p[K_DRAIN] = 8000;
    if (chance(1, 4)) { cfg.p[K_EINTR] = 15000; cfg.p[K_SPUR] = 15000; }
    cfg.fair_after = 20000; cfg.max_steps = 120000; probe_name(0, "programs with operation and load compiled together"); probe_name(1, "programs with fences"); probe_name(2, "programs mixing lock-free and lock-emulated objects"); probe_name(3, "programs mixing sizes"); probe_name(4, "programs ordered by read-modify-writes of one object");
}
void check() {
    bool fe = false; for (int i = 0; i < nt; ++i) for (auto& e : prog[i]) fe |= e.fence_before; if (mode) probe(0); if (fe) probe(1); if (glue) probe(4);
    bool a = false, b = false, z = false; for (int i = 0; i < nobj; ++i) { (ob_[i].t->lockfree ? a : b) = true; if (ob_[i].t->size != ob_[0].t->size) z = true; } if (a && b) probe(2); if (z) probe(3);
    for (int i = 0; i < nobj; ++i) { OpDesc d; OpRes r; memset(&d, 0, sizeof d); memset(&r, 0, sizeof r); d.op = ob_[i].t->cls == CL_FLAG ? OP_TEST : OP_LOAD; exec(ob_[i].t, ob_[i].m, d, r); memcpy(ob_[i].fin.b, r.v, MAXV); if (ob_[i].t->cls == CL_FLAG) { memset(&ob_[i].fin, 0, sizeof(Val)); ob_[i].fin.b[0] = r.ok; } }
    Search s; memset(s.pos, 0, sizeof s.pos); for (int i = 0; i < nobj; ++i) { memset(&s.st[i], 0, sizeof(Val)); memcpy(s.st[i].b, ob_[i].init.b, ob_[i].t->size); vmaskv(ob_[i].t, s.st[i].b); }
    if (s.go()) return;
    std::string m; char buf[300];
    for (int i = 0; i < nobj; ++i) { snprintf(buf, sizeof buf, " obj%d=%s:%s", i, ob_[i].t->name, vstr(ob_[i].t, ob_[i].init.b).c_str()); m += buf; }
    for (int i = 0; i < nt; ++i) { snprintf(buf, sizeof buf, " | t%d:", i); m += buf; for (auto& e : prog[i]) { const TypeInfo* t = ob_[e.obj].t; snprintf(buf, sizeof buf, "%s obj%d.%s.%d(%s,%s)->%s ok=%d;", e.fence_before ? " fence;" : "", e.obj, op_name[e.d.op], e.d.mo, vstr(t, e.d.a).c_str(), vstr(t, e.d.b).c_str(), vstr(t, e.r.v).c_str(), e.r.ok); m += buf; } }
    m += " | finally"; for (int i = 0; i < nobj; ++i) { m += " "; m += vstr(ob_[i].t, ob_[i].fin.b); }
    fail("not-sequentially-consistent", "no total order explains:%s", m.c_str());
}
Reg reg("sc", setup, check);
}
