// Scenario "prog": operations on lock-free objects while other threads are killed or suspended at any instruction, and
// operations of signal handlers interrupting operations of the same thread. Oracles: an operation of a thread running alone
// (all others suspended wherever they are, possibly inside lock-emulated operations, waits and notifications) ends within
// BOUND of its own memory accesses and makes no blocking call; survivors always finish; the history, with the operations of
// killed threads either done or not, is linearizable.
#include "common.h"
using namespace sim; using namespace h;
namespace {
enum { BOUND = 300, SIGT = 24 };
struct Obj { const TypeInfo* t; size_t off; Val init; Pool pool; } ob_[3]; int nobj, nlf; const TypeInfo* tis[3];
struct POp { OpDesc d; int obj; bool useseen; int delay; };
std::vector<POp> prog[8], sigprog[8]; size_t sigpos[8]; int nth; Hist hist; int mode; Val seen_[8][3];
void run_op(int id, POp& p) {
    bool sig = id >= SIGT; int me = sig ? id - SIGT : id; Val* seen = seen_[me];
    Obj& o = ob_[p.obj]; void* m = ARENA + o.off;
    std::vector<Ev>& th = hist.th[id]; th.emplace_back(); size_t ei = th.size() - 1;
    Ev e; e.d = p.d; e.obj = p.obj; e.pending = true; memset(&e.r, 0, sizeof e.r); e.ret = ~0ull;
    if (p.useseen) { memcpy(e.d.b, seen[p.obj].b, o.t->size); for (int k = 0; k < o.t->size; ++k) if (!o.t->vmask[k]) e.d.b[k] = p.d.b[k]; }
    e.inv = stamp(); th[ei] = e;
    monitor(m, (char*)m + o.t->nops_storage, ARENA, ARENA + ARENA_SIZE);
    exec(o.t, m, e.d, e.r);
    monitor_off();
    e.ret = stamp(); e.pending = false; th[ei] = e;
    mix(low(o.t, e.r.v) ^ (uint64_t)e.r.ok << 60);
    note("t%d%s obj%d %s.%d a=%s b=%s -> %s ok=%d", me, sig ? " (handler)" : "", p.obj, op_name[e.d.op], e.d.mo, vstr(o.t, e.d.a).c_str(), vstr(o.t, e.d.b).c_str(), vstr(o.t, e.r.v).c_str(), e.r.ok);
    if (e.d.op != OP_STORE && !(ob(e.d.op) & M_NOTIFY) && !((e.d.op >= OP_OADD && e.d.op <= OP_BTC))) memcpy(seen[p.obj].b, e.r.v, o.t->size);
    if ((e.d.op == OP_CASW || e.d.op == OP_CASS) && e.r.ok) memcpy(seen[p.obj].b, e.d.a, o.t->size);
}
void handler(int id) { if (sigpos[id] < sigprog[id].size()) { size_t k = sigpos[id]++; if (!dropped(SIGT + id, (int)k)) { probe(2); run_op(SIGT + id, sigprog[id][k]); } } }
void thread(int id) { for (size_t i = 0; i < prog[id].size(); ++i) if (!dropped(id, (int)i)) run_op(id, prog[id][i]); }
void prober(int id) {
    for (size_t i = 0; i < prog[id].size(); ++i) {
        if (dropped(id, (int)i)) continue;
        POp& p = prog[id][i]; for (int k = 0; k < p.delay; ++k) yield();
        stall_all_but(self()); uint64_t a = fiber_steps(self()); lib_watch(true);
        run_op(id, p);
        uint64_t n = fiber_steps(self()) - a, b = lib_blocks(); lib_watch(false); release_all();
        const TypeInfo* t = ob_[p.obj].t;
        if (b) fail("blocked", "%s reports itself lock-free but %s made a blocking call", t->name, op_name[p.d.op]);
        if (n > BOUND) fail("not-lock-free", "%s: %s made %llu memory accesses while every other thread was suspended", t->name, op_name[p.d.op], (unsigned long long)n);
        probe(0);
    }
}
bool lf_ok(const TypeInfo* t) { return t->lockfree && filter_ok(t); }
void gen_any(int o, POp& p, bool helper) {
    memset(&p, 0, sizeof p); p.obj = o; Obj& x = ob_[o];
    uint32_t k = helper ? gen(10) : 9;
    if (k < 2) p.d.op = chance(1, 2) ? OP_NOTIFY1 : OP_NOTIFYALL;
    else if (k < 4 && (x.t->ops & ob(OP_WAITFOR))) { p.d.op = OP_WAITFOR; p.d.t = 500 + gen(20000); memcpy(p.d.b, x.pool.v[gen(x.pool.n)].b, MAXV); }
    else { gen_op(x.t, x.pool, chance(1, 4) ? MIX_CAS : MIX_ALL, cfg.tso, p.d); p.useseen = chance(1, 2); }
    mix_sig(p.d.op * 4 + p.d.mo + o * 77);
}
void setup() {
    read_filter(); hist.clear(); mode = (int)opt("mode", -1); if (mode < 0) mode = gen(3); cfg.tso = chance(1, 2);
    nobj = 1 + gen(3); nlf = 0; size_t base = 64 + gen(64);
    for (int i = 0; i < nobj; ++i) {
        Obj& o = ob_[i]; o.t = i && chance(1, 2) ? ob_[0].t : pick_type(mode == 1 && i == nobj - 1 && i ? filter_ok : lf_ok); tis[i] = o.t; if (o.t->lockfree) nlf = i + 1; o.off = place(o.t, base); base = o.off + o.t->objsize; if (chance(1, 4)) base += 65536 - 256;
        make_pool(o.t, o.pool); o.init = o.pool.v[0]; mix_sig(o.t->size * 131 + o.t->cls * 7 + o.off); for (const char* s = o.t->name; *s; ++s) mix_sig(*s);
    }
    arena_use(0, base + 4096);
    for (size_t i = 0; i < base + 256; ++i) ARENA[i] = (unsigned char)(0xc3 ^ i * 7);
    for (int i = 0; i < nobj; ++i) { Val v = ob_[i].init; garbage(ob_[i].t, v.b); ob_[i].t->init(ARENA + ob_[i].off, v.b); }
    nth = 2 + gen(mode == 1 ? 5 : 3); int total = 0; bool sigs = mode == 2 || (mode == 0 && chance(1, 4));
    for (int i = 0; i < nth; ++i) {
        for (int k = 0; k < 3; ++k) seen_[i][k] = ob_[k].init;
        prog[i].clear(); sigprog[i].clear(); sigpos[i] = 0; bool pr = mode == 1 && i == 0; int n = 1 + gen(pr ? 5 : mode == 1 ? 8 : 4);
        for (int k = 0; k < n; ++k) { POp p; gen_any(gen(pr ? nlf : nobj), p, mode == 1 && !pr); p.delay = gen(12); prog[i].push_back(p); ++total; }
        int f = spawn(pr ? prober : thread, i); if (pr || (mode == 0 && i == 0)) protect_from_stall(f, true);
        if (sigs) { int m = 1 + gen(3); for (int k = 0; k < m; ++k) { POp p; gen_any(gen(nobj), p, false); sigprog[i].push_back(p); ++total; } set_handler(f, handler); }
    }
    gaps(mode == 1 ? 150 : total * 3);
    if (mode == 0) { static const uint32_t r[] = { 1500, 6000, 20000 }; cfg.p[K_KILL] = r[gen(3)]; }
    if (sigs) { static const uint32_t r[] = { 3000, 12000, 40000 }; cfg.p[K_SIG] = r[gen(3)]; }
    if (mode == 1 && chance(1, 2)) { cfg.p[K_STALL] = 2000; cfg.p[K_ADV] = 3000; }
    cfg.fair_after = 20000; cfg.max_steps = 60000;
    probe_name(0, "operations made with every other thread suspended"); probe_name(1, "histories with an operation cut off by a kill"); probe_name(2, "operations made by signal handlers");
}
void check() {
    for (auto& th : hist.th) for (auto& e : th) if (e.pending) { probe(1); goto counted; }
    counted:
    for (int i = 0; i < nobj; ++i) {
        const TypeInfo* t = ob_[i].t; OpDesc d; OpRes r; memset(&d, 0, sizeof d); memset(&r, 0, sizeof r); d.op = OP_LOAD;
        exec(t, ARENA + ob_[i].off, d, r);
        if (!linearizable(t, hist, i, ob_[i].init, r.v)) fail("not-linearizable", "%s initial %s final %s:%s", t->name, vstr(t, ob_[i].init.b).c_str(), vstr(t, r.v).c_str(), hist_str(tis, hist, i).c_str());
    }
}
Reg reg("prog", setup, check);
}
