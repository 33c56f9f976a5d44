// Scenario "contend": many threads operate on lock-emulated objects that share few locks, while others are blocked in waits on
// the same or other objects which nobody ends before the operations are done. Oracles: every operation ends although the
// waiters stay blocked (if everything comes to rest before that, a waiter holds something it must not); once scheduling is
// fair and faults have stopped, everything ends within a bounded number of steps; nobody is blocked for ever; additions
// are conserved.
#include "common.h"
using namespace sim; using namespace h;
namespace {
struct Obj { const TypeInfo* t; size_t off; Val init, fin; Pool pool; bool waited; uint64_t adds; } ob_[6]; int nobj;
struct POp { OpDesc d; int obj; };
std::vector<POp> prog[20]; int nops, nwait, opsdone; bool finale_started; int waitsdone;
void one(int id, POp& p, OpRes& r) {
    Obj& o = ob_[p.obj]; void* m = ARENA + o.off; memset(&r, 0, sizeof r); OpDesc d = p.d;
    note("t%d obj%d %s.%d a=%s b=%s ...", id, p.obj, op_name[d.op], d.mo, vstr(o.t, d.a).c_str(), vstr(o.t, d.b).c_str());
    monitor(m, (char*)m + o.t->nops_storage, ARENA, ARENA + ARENA_SIZE);
    exec(o.t, m, d, r);
    monitor_off();
    mix(low(o.t, r.v)); note("t%d obj%d %s -> %s ok=%d", id, p.obj, op_name[d.op], vstr(o.t, r.v).c_str(), r.ok);
}
void worker(int id) { OpRes r; for (size_t i = 0; i < prog[id].size(); ++i) if (!dropped(id, (int)i)) { one(id, prog[id][i], r); if (prog[id][i].d.op == OP_OADD1 && ob_[prog[id][i].obj].t->cls <= CL_SINT) ++ob_[prog[id][i].obj].adds; } ++opsdone; }
void waiter(int id) { OpRes r; for (size_t i = 0; i < prog[id].size(); ++i) if (!dropped(id, (int)i)) { one(id, prog[id][i], r);
    if (!finale_started && prog[id][i].d.op == OP_WAIT) fail("early-return", "%s: a wait ended although the value never changed", ob_[prog[id][i].obj].t->name); } ++waitsdone; }
void finale(int id) {
    wait_quiescent();
    if (opsdone < nops) fail("blocked-by-waiter", "%d of %d threads making operations on other objects cannot finish while %d threads are blocked in waits", nops - opsdone, nops, nwait - waitsdone);
    probe(0); if (nwait > waitsdone) probe(1);
    finale_started = true; set_fair();
    for (int i = 0; i < nobj; ++i) if (ob_[i].waited) {
        POp p; memset(&p, 0, sizeof p); OpRes r; p.obj = i; p.d.op = OP_STORE; memcpy(p.d.a, ob_[i].fin.b, MAXV); one(id, p, r);
        p.d.op = OP_NOTIFYALL; one(id, p, r); }
}
bool em_ok(const TypeInfo* t) { return !t->lockfree && filter_ok(t); }
void setup() {
    read_filter(); finale_started = false; opsdone = waitsdone = 0; cfg.tso = chance(1, 3);
    size_t pool = (size_t)opt("pool", 256); bool apart = chance(1, 3); size_t off = 64;
    nobj = 1 + gen(5);
    for (int i = 0; i < nobj; ++i) {
        Obj& o = ob_[i]; o.t = i && chance(1, 2) ? ob_[0].t : pick_type(i && chance(1, 3) ? filter_ok : em_ok); o.waited = false; o.adds = 0;
        o.off = apart ? place(o.t, off) : place(o.t, 64 + (size_t)i * 65536); if (!apart && chance(3, 4)) { size_t a = o.t->align > 16 ? o.t->align : 16; o.off = (64 + (size_t)i * 65536 + a - 1) / a * a; }
        off = o.off + o.t->objsize; make_pool(o.t, o.pool); o.fin = distinct_value(o.t, o.pool); o.init = o.pool.v[0];
        mix_sig(o.t->size * 131 + o.off); for (const char* s = o.t->name; *s; ++s) mix_sig(*s);
        size_t lo = o.off > 64 ? o.off - 64 : 0; arena_use(lo, o.off + o.t->objsize + 64);
        for (size_t k = lo; k < o.off + o.t->objsize + 64; ++k) ARENA[k] = (unsigned char)(0xc3 ^ k * 7);
    }
    (void)pool;
    for (int i = 0; i < nobj; ++i) { Val v = ob_[i].init; garbage(ob_[i].t, v.b); ob_[i].t->init(ARENA + ob_[i].off, v.b); }
    nwait = gen(5); nops = 2 + gen(chance(1, 3) ? 10 : 5);
    int id = 0;
    for (int w = 0; w < nwait; ++w, ++id) {
        prog[id].clear(); POp p; memset(&p, 0, sizeof p); p.obj = gen(nobj); Obj& o = ob_[p.obj]; if (!(o.t->ops & ob(OP_WAIT))) { p.obj = -1; }
        if (p.obj >= 0) { ob_[p.obj].waited = true; p.d.op = OP_WAIT; memcpy(p.d.b, o.init.b, MAXV); garbage(o.t, p.d.b); prog[id].push_back(p); mix_sig(id * 100 + p.obj); }
        spawn(waiter, id);
    }
    int total = 0;
    for (int w = 0; w < nops; ++w, ++id) {
        prog[id].clear(); int n = 1 + gen(nops > 6 ? 3 : 6);
        for (int k = 0; k < n; ++k) {
            POp p; memset(&p, 0, sizeof p); p.obj = gen(nobj); Obj& o = ob_[p.obj]; uint32_t c = gen(10);
            if (c < 2) p.d.op = chance(1, 2) ? OP_NOTIFY1 : OP_NOTIFYALL;
            else if (c < 3 && (o.t->ops & ob(OP_WAITFOR))) { p.d.op = OP_WAITFOR; p.d.t = gen(30000); memcpy(p.d.b, o.init.b, MAXV); }
            else if (o.waited) { // operations that leave the value alone
                if (chance(1, 2)) p.d.op = OP_LOAD; else { p.d.op = o.t->cls == CL_FLAG || chance(1, 2) ? OP_STORE : OP_CASS; memcpy(p.d.a, o.init.b, MAXV); memcpy(p.d.b, o.init.b, MAXV); } }
            else if ((o.t->ops & ob(OP_OADD1)) && o.t->cls <= CL_SINT && chance(2, 3)) p.d.op = OP_OADD1;
            else if ((o.t->ops & ob(OP_OADD1)) && o.t->cls <= CL_SINT) p.d.op = OP_LOAD;
            else gen_op(o.t, o.pool, MIX_ALL, cfg.tso, p.d);
            prog[id].push_back(p); mix_sig(p.d.op * 4 + id * 1000 + p.obj * 77); ++total; }
        spawn(worker, id);
    }
    int f = spawn(finale, id); protect_from_stall(f, true);
    gaps(30 * total);
    cfg.no_wait_bitset = chance(1, 6);
    if (chance(1, 2)) cfg.p[K_EINTR] = 15000; if (chance(1, 2)) { cfg.p[K_SPUR] = 15000; cfg.p[K_DELAY] = 40000; }
    if (chance(1, 2)) cfg.p[K_STALL] = 2000; if (chance(1, 2)) cfg.p[K_ADV] = 3000;
    cfg.fair_after = 20000; cfg.max_steps = 160000;
    probe_name(0, "rest reached with all operations done"); probe_name(1, "with threads still blocked in waits");
}
void check() {
    for (int i = 0; i < nobj; ++i) if (ob_[i].adds && !ob_[i].waited) {
        const TypeInfo* t = ob_[i].t; OpDesc d; OpRes r; memset(&d, 0, sizeof d); memset(&r, 0, sizeof r); d.op = OP_LOAD; exec(t, ARENA + ob_[i].off, d, r);
        unsigned __int128 a = 0, b = 0; memcpy(&a, ob_[i].init.b, t->size); memcpy(&b, r.v, t->size); a += ob_[i].adds; if (t->size < 16) a &= ((unsigned __int128)1 << t->size * 8) - 1;
        if (a != b) fail("lost-update", "%s: %llu increments from %s gave %s", t->name, (unsigned long long)ob_[i].adds, vstr(t, ob_[i].init.b).c_str(), vstr(t, r.v).c_str());
    }
}
Reg reg("contend", setup, check);
}
