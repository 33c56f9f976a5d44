// Scenario "wait": waiters (plain and timed), writers and notifiers with arbitrary interference; when the last writer is
// done the value changes for good and is notified once per possible waiter (or notify_all). Oracles: every wait is a load of
// a value different from the old one (linearizability of the whole history), a timed-out wait a load of the old one; after
// the final notification every waiter finishes without waiting for its deadline; no thread is left blocked.
// Option ipc: the threads belong to three processes with their own static data and mappings of the objects; processes may be
// killed at any instruction (the one doing the final change is not).
// Mode "count": n waiters blocked on one value, the value changes, k notify_one: at least min(n, k) finish.
#include "common.h"
using namespace sim; using namespace h;
namespace {
struct Obj { const TypeInfo* t; size_t off; Val init, fin; Pool pool; bool notified; uint64_t tnot; int waits; } ob_[3]; int nobj; const TypeInfo* tis[3];
struct POp { OpDesc d; int obj; int64_t dur; bool useseen; };
std::vector<POp> prog[8]; int nwaiters, nwriters, writers_left; Hist hist; bool oom, count_mode; int finished, knot; int final_style[3]; bool all_first, final_all[3]; int order[3];
enum { LATE = 1000000000 };
bool ipc, kills; int maprot, finale_fib;
unsigned char* base(int id) { if (!ipc) return ARENA; unsigned char* const m[] = { ARENA, ARENA2, ARENA3 }; return m[(id + maprot) % 3]; }
void run_op(int id, int seq, POp& p, Val* seen) {
    Obj& o = ob_[p.obj]; void* m = base(id) + o.off;
    hist.th[id].emplace_back(); size_t ei = hist.th[id].size() - 1; 
    Ev e; e.d = p.d; e.obj = p.obj; e.pending = true; memset(&e.r, 0, sizeof e.r); e.ret = ~0ull;
    if (p.useseen) { memcpy(e.d.b, seen[p.obj].b, o.t->size); for (int k = 0; k < o.t->size; ++k) if (!o.t->vmask[k]) e.d.b[k] = p.d.b[k]; }
    if (e.d.op == OP_WAITFOR) e.d.t = p.dur; else if (e.d.op == OP_WAITUNTIL) e.d.t = clock_now(e.d.clk) + p.dur;
    e.inv = stamp(); hist.th[id][ei] = e; uint64_t t0 = mono_now();
    note("t%d obj%d %s.%d a=%s b=%s t=%lld ...", id, p.obj, op_name[e.d.op], e.d.mo, vstr(o.t, e.d.a).c_str(), vstr(o.t, e.d.b).c_str(), (long long)p.dur);
    monitor(m, (char*)m + o.t->nops_storage, base(id), base(id) + ARENA_SIZE);
    exec(o.t, m, e.d, e.r);
    monitor_off();
    e.ret = stamp(); e.pending = false; hist.th[id][ei] = e;
    mix(low(o.t, e.r.v) ^ (uint64_t)e.r.ok << 60);
    note("t%d obj%d %s.%d a=%s b=%s -> %s ok=%d tmo=%d", id, p.obj, op_name[e.d.op], e.d.mo, vstr(o.t, e.d.a).c_str(), vstr(o.t, e.d.b).c_str(), vstr(o.t, e.r.v).c_str(), e.r.ok, e.r.tmo);
    if (ob(e.d.op) & M_WAITS) {
        if (o.notified) { uint64_t from = o.tnot > t0 ? o.tnot : t0; if (mono_now() > from + LATE) fail("lost-wakeup", "%s: a %s ended %llu ns of simulated time after the final notification: it was not woken by it but by its deadline", o.t->name, op_name[e.d.op], (unsigned long long)(mono_now() - from)); }
        ++finished; probe(0);
        if (e.r.tmo && e.d.op != OP_WAIT) probe(1);
    }
    if (e.d.op != OP_STORE && !((e.d.op >= OP_OADD && e.d.op <= OP_BTC)) && !(ob(e.d.op) & M_NOTIFY)) memcpy(seen[p.obj].b, e.r.v, o.t->size);
    (void)seq;
}
void waiter(int id) {
    Val seen[3]; for (int i = 0; i < nobj; ++i) seen[i] = ob_[i].init;
    for (size_t i = 0; i < prog[id].size(); ++i) { if (!dropped(id, (int)i)) run_op(id, (int)i, prog[id][i], seen); else ++finished; }
}
void notify(int id, int o, int n) { Val seen[3]; POp p; memset(&p, 0, sizeof p); p.obj = o; p.d.op = n ? OP_NOTIFY1 : OP_NOTIFYALL; int k = n ? n : 1; while (k--) run_op(id, 0, p, seen); }
void change(int id, int o) {
    Val seen[3]; Obj& x = ob_[o]; seen[o] = x.init; POp p; memset(&p, 0, sizeof p); p.obj = o; memcpy(p.d.a, x.fin.b, MAXV); garbage(x.t, p.d.a);
    switch (final_style[o]) {
    case 0: p.d.op = OP_STORE; run_op(id, 0, p, seen); break;
    case 1: p.d.op = OP_XCHG; run_op(id, 0, p, seen); break;
    default: p.d.op = OP_LOAD; run_op(id, 0, p, seen); for (int k = 0; k < 100; ++k) { POp c = p; c.d.op = final_style[o] == 2 ? OP_CASS : OP_CASW; c.useseen = true; run_op(id, 0, c, seen); if (hist.th[id].back().r.ok) return; } fail("cas-no-progress", "%s: compare-exchange fails 100 times without interference", x.t->name);
    }
}
void finale(int id) {
    protect_from_stall(self(), true);
    if (count_mode) {
        int o = 0; if (oom || ipc) sleep_ns(gen(3) * 20000); else if (order[0] & 1) wait_quiescent();
        int before = finished;
        change(id, o); 
        for (int w = 0; w < nwaiters; ++w) if (dropped(w, 0)) --before;
        if (before > 0) fail("early-return", "%d waits ended before the value changed", before);
        notify(id, o, knot);
        set_fair(); sleep_ns(200000);
        if (finished < (knot < nwaiters ? knot : nwaiters)) fail("lost-wakeup", "%s: %d threads wait, the value changed, notify_one was called %d times, but only %d finished", ob_[0].t->name, nwaiters, knot, finished);
        notify(id, o, 0); cfg.p[K_ADV] = 0; ob_[o].tnot = mono_now(); ob_[o].notified = true; return;
    }
    if (all_first) for (int i = 0; i < nobj; ++i) change(id, order[i]);
    for (int i = 0; i < nobj; ++i) {
        int o = order[i]; if (!all_first) change(id, o);
        notify(id, o, final_all[o] ? 0 : nwaiters);
        if (i + 1 == nobj) cfg.p[K_ADV] = 0;
    }
    // no more time skips: from now on only blocked waits let time pass
    for (int i = 0; i < nobj; ++i) { ob_[i].tnot = mono_now(); ob_[i].notified = true; }
    if (oom && chance(1, 2)) cfg.p[K_OOM] = 0;
}
void writer(int id) {
    Val seen[3]; for (int i = 0; i < nobj; ++i) seen[i] = ob_[i].init;
    for (size_t i = 0; i < prog[id].size(); ++i) if (!dropped(id, (int)i)) run_op(id, (int)i, prog[id][i], seen);
    if (--writers_left == 0 && !ipc) finale(id);
}
void ipc_finale(int id) {
    for (;;) { bool all = true; for (int i = nwaiters; i < nwaiters + nwriters; ++i) if (!done(i) && !killed(i)) all = false; if (all) break; sleep_ns(3000); }
    finale(id);
}
void gen_wait(int o, OpDesc& d, int64_t& dur) {
    Obj& x = ob_[o]; memset(&d, 0, sizeof d);
    memcpy(d.b, x.pool.v[chance(2, 3) ? 0 : gen(x.pool.n)].b, MAXV); garbage(x.t, d.b);
    uint32_t k = gen(10); d.op = k < 5 || count_mode ? OP_WAIT : k < 8 ? OP_WAITFOR : OP_WAITUNTIL;
    if (!(x.t->ops & ob(d.op))) d.op = OP_WAIT;
    if (d.op == OP_WAIT) { d.mo = cfg.tso && !weak_build() ? 0 : gen(3); if (x.t->flavor == FL_REF && chance(1, 8)) { d.cv = 2; d.mo = 0; } }
    d.clk = gen(CK_COUNT); d.unit = gen(6); bool lng = chance(2, 3);
    if (lng) { dur = 3600000000000ll * (1 + gen(100)); } else dur = 100 + gen(100000);
    if (d.op == OP_WAITFOR && !lng && d.unit > 1) d.unit = gen(2);
    if (d.op == OP_WAITUNTIL && d.unit != 0 && d.clk < 2) d.unit = 0;
}
void setup() {
    read_filter(); hist.clear(); oom = opt("oom", 0); finished = 0; int mode = (int)opt("mode", -1); count_mode = mode < 0 ? chance(1, 4) : mode == 1;
    ipc = opt("ipc", 0) != 0; kills = ipc && chance(1, 2); if (kills) count_mode = false; maprot = gen(3);
    cfg.tso = opt("tso", -1) < 0 ? chance(1, 3) : opt("tso", 0) != 0;
    nobj = count_mode ? 1 : 1 + gen(3); size_t base = 64 + gen(64); bool collide = chance(1, 2);
    for (int i = 0; i < nobj; ++i) {
        Obj& o = ob_[i]; o.t = i && chance(1, 2) ? ob_[0].t : pick_type(filter_ok); tis[i] = o.t;
        o.off = i && collide && o.t->align <= ob_[0].t->align ? ob_[0].off + (size_t)i * 65536 : place(o.t, base); base = o.off + o.t->objsize; 
        make_pool(o.t, o.pool); o.fin = distinct_value(o.t, o.pool); o.init = o.pool.v[0]; o.notified = false; mix_sig(o.t->size * 131 + o.t->cls * 7 + o.off); for (const char* s = o.t->name; *s; ++s) mix_sig(*s);
        size_t lo = o.off > 64 ? o.off - 64 : 0; arena_use(lo, o.off + o.t->objsize + 64);
        for (size_t k = lo; k < o.off + o.t->objsize + 64; ++k) ARENA[k] = (unsigned char)(0xc3 ^ k * 7);
    }
    for (int i = 0; i < nobj; ++i) { Val v = ob_[i].init; garbage(ob_[i].t, v.b); ob_[i].t->init(ARENA + ob_[i].off, v.b); order[i] = i; final_style[i] = gen(4); if (ob_[i].t->cls == CL_FLAG) final_style[i] = 0; final_all[i] = chance(1, 2); if (kills) final_all[i] = true; }
    for (int i = nobj - 1; i > 0; --i) std::swap(order[i], order[gen(i + 1)]);
    if (count_mode) order[0] = gen(2);
    all_first = chance(1, 3);
    nwaiters = 1 + gen(4); nwriters = count_mode ? 1 : 1 + gen(2); writers_left = nwriters; knot = 1 + gen(nwaiters);
    for (int i = 0; i < nwaiters; ++i) {
        prog[i].clear(); int n = count_mode ? 1 : 1 + gen(3);
        for (int k = 0; k < n; ++k) { POp p; p.obj = gen(nobj); p.useseen = false; gen_wait(p.obj, p.d, p.dur); if (count_mode) { memcpy(p.d.b, ob_[0].init.b, MAXV); garbage(ob_[0].t, p.d.b); } else p.useseen = chance(1, 4);
            if (p.useseen) p.useseen = false;   // the last seen value may be the final one: keep the generated old value
            prog[i].push_back(p); mix_sig(p.d.op * 4 + p.d.mo + i * 1000 + p.obj * 77); }
        { int f = spawn(waiter, i, ipc ? i % 3 : 0); if (kills && i % 3 == 2) protect_from_stall(f, true); }
    }
    for (int i = nwaiters; i < nwaiters + nwriters; ++i) {
        prog[i].clear(); int n = count_mode ? 0 : gen(5);
        for (int k = 0; k < n; ++k) { POp p; p.obj = gen(nobj); p.dur = 0; p.useseen = chance(1, 2); if (chance(2, 5)) { memset(&p.d, 0, sizeof p.d); p.d.op = chance(1, 2) ? OP_NOTIFY1 : OP_NOTIFYALL; } else gen_op(ob_[p.obj].t, ob_[p.obj].pool, chance(1, 2) ? MIX_CORE : MIX_ALL, cfg.tso, p.d);
            prog[i].push_back(p); mix_sig(p.d.op * 4 + p.d.mo + i * 1000 + p.obj * 77); }
        { int f = spawn(writer, i, ipc ? i % 3 : 0); if (kills && i % 3 == 2) protect_from_stall(f, true); }
    }
    if (ipc) { finale_fib = spawn(ipc_finale, nwaiters + nwriters, 2); protect_from_stall(finale_fib, true); }
    if (kills) { static const uint32_t r[] = { 500, 2000, 6000 }; cfg.p[K_KILL] = r[gen(3)]; cfg.kill_process = true; probe(2); }
    gaps(60 * (nwaiters + nwriters));
    cfg.no_wait_bitset = chance(1, 6);
    if (chance(1, 2)) { cfg.p[K_EINTR] = 15000; } if (chance(1, 2)) { cfg.p[K_SPUR] = 15000; cfg.p[K_DELAY] = 40000; }
    if (chance(1, 3)) cfg.p[K_STALL] = 1500;
    if (chance(1, 3)) cfg.p[K_ADV] = 2500;
    if (oom) { static const uint32_t r[] = { 3000, 15000, 40000, 65535 }; cfg.p[K_OOM] = r[gen(4)]; }
    cfg.fair_after = 20000; cfg.max_steps = 160000;
    probe_name(0, "waits finished"); probe_name(1, "waits timed out"); probe_name(2, "runs with processes being killed");
}
void check() {
    for (int i = 0; i < nobj; ++i) {
        const TypeInfo* t = ob_[i].t; OpDesc d; OpRes r; memset(&d, 0, sizeof d); memset(&r, 0, sizeof r); d.op = OP_LOAD;
        exec(t, ARENA + ob_[i].off, d, r);
        if (!linearizable(t, hist, i, ob_[i].init, r.v)) fail("wait-result", "%s initial %s final %s: the results of the waits and operations have no explanation:%s", t->name, vstr(t, ob_[i].init.b).c_str(), vstr(t, r.v).c_str(), hist_str(tis, hist, i).c_str());
    }
}
Reg reg("wait", setup, check);
}
