// Scenario "timed": timed waits with deadlines on several clocks - short, long, far, past, before the epoch - while values
// change, the system clock is adjusted, waits are interrupted and kernel features or memory are missing.
// Oracles: a timeout is reported iff the value returned equals the old one (as a load in the linearized history); a reported
// timeout means the given clock showed the deadline at some moment of the wait; every wait ends within LATE of the deadline
// (simulated time only passes while threads make steps or nobody can).
#include "common.h"
using namespace sim; using namespace h;
namespace {
struct Obj { const TypeInfo* t; size_t off; Val init; Pool pool; } ob_[2]; int nobj; const TypeInfo* tis[2];
struct POp { OpDesc d; int obj; int kind; int64_t dur; uint64_t pause; };
std::vector<POp> prog[6]; Hist hist; bool pt, oom;
enum { LATE = 3000000 };                         // ns
const int64_t FAR = 4500000000000000000ll;       // latest system time reached in a run
bool ipc, kills; int maprot;
unsigned char* base(int id) { if (!ipc) return ARENA; unsigned char* const m[] = { ARENA, ARENA2, ARENA3 }; return m[(id + maprot) % 3]; }
int closer_; Val fin_[2];
bool clk_real(const OpDesc& d) { return d.op == OP_WAITUNTIL && (d.clk == CK_SYSTEM || d.clk == CK_REAL_TRAITS_US); }
// the clock's own scale -> CLOCK_MONOTONIC or CLOCK_REALTIME
int64_t to_base(const OpDesc& d, int64_t t) { return t + (d.clk == CK_MONO_TRAITS ? (int64_t)MONO_TRAITS_OFF_S * 1000000000 : d.clk == CK_PLAIN_MS ? (int64_t)PLAIN_OFF_S * 1000000000 : 0); }
int64_t unit_ns(const OpDesc& d) {
    if (d.op == OP_WAITFOR) { static const int64_t u[] = { 1, 1000, 1000000, 1000000000, 3600000000000ll, 1000000, 60000000000ll }; return u[d.unit]; }
    if (d.clk == CK_STEADY && d.unit == 2) return 1000000; if (d.clk == CK_SYSTEM && d.unit == 3) return 1000000000;
    return d.clk == CK_REAL_TRAITS_US ? 1000 : d.clk == CK_PLAIN_MS ? 1000000 : 1;
}
void thread(int id) {
    for (size_t i = 0; i < prog[id].size(); ++i) {
        if (dropped(id, (int)i)) continue;
        POp& p = prog[id][i]; Obj& o = ob_[p.obj]; void* m = base(id) + o.off;
        if (p.pause) sleep_ns(p.pause);
        hist.th[id].emplace_back(); Ev& e = hist.th[id].back(); e.d = p.d; e.obj = p.obj; e.pending = true; memset(&e.r, 0, sizeof e.r); e.ret = ~0ull;
        bool tw = e.d.op == OP_WAITFOR || e.d.op == OP_WAITUNTIL, real = clk_real(e.d); int64_t dl = 0; int64_t u = unit_ns(e.d);
        if (tw) {
            int64_t now = e.d.op == OP_WAITFOR ? (int64_t)mono_now() : clock_now(e.d.clk), dur = p.dur, t = 0;
            if (dur > 0 && dur > FAR - real_now()) dur = FAR - real_now() > 0 ? FAR - real_now() : 0;
            if (p.kind == 1 && e.d.op == OP_WAITUNTIL) t = p.dur;            // absolute, around the clock's epoch
            else if (p.kind == 2) t = INT64_MAX;                             // time_point::max()
            else t = e.d.op == OP_WAITFOR ? dur : now + dur;
            if (p.kind != 2) t = t / u * u;
            e.d.t = t;
            dl = e.d.op == OP_WAITFOR ? now + t : to_base(e.d, t);
        }
        uint64_t t0 = mono_now(); int64_t r0 = real_now();
        e.inv = stamp();
        note("t%d obj%d %s.%d clk=%d unit=%d t=%lld b=%s ...", id, p.obj, op_name[e.d.op], e.d.mo, e.d.clk, e.d.unit, (long long)e.d.t, vstr(o.t, e.d.b).c_str());
        Ev c = e;
        monitor(m, (char*)m + o.t->nops_storage, base(id), base(id) + ARENA_SIZE);
        exec(o.t, m, c.d, c.r);
        monitor_off();
        c.ret = stamp(); c.pending = false; e = c;
        mix(low(o.t, c.r.v) ^ (uint64_t)c.r.ok << 60 ^ (uint64_t)c.r.tmo << 61);
        note("t%d obj%d %s.%d a=%s -> %s ok=%d tmo=%d", id, p.obj, op_name[c.d.op], c.d.mo, vstr(o.t, c.d.a).c_str(), vstr(o.t, c.r.v).c_str(), c.r.ok, c.r.tmo);
        if (!tw) continue;
        bool eq = veq(o.t, c.r.v, c.d.b);
        if (c.r.tmo && !eq) fail("timeout-report", "%s %s reports a timeout together with a value different from the old one", o.t->name, op_name[c.d.op]);
        if (!c.r.tmo && eq) fail("timeout-report", "%s %s returns the old value without reporting a timeout", o.t->name, op_name[c.d.op]);
        uint64_t now = mono_now();
        if (c.r.tmo) {
            probe(0);
            if (!reached_within(real, dl, t0) && !(real && r0 >= dl)) fail("early-timeout", "%s %s (clock %d, unit %d) reports a timeout %lld ns before its deadline", o.t->name, op_name[c.d.op], c.d.clk, c.d.unit, (long long)(dl - (real ? real_now() : (int64_t)now)));
        } else probe(1);
        // lateness
        bool kernel_clock = !real || (!jumped_since(t0)) || (!pt && !cfg.no_wait_bitset && !oom);
        if (o.t->flavor >= FL_IPC && !o.t->natwait) kernel_clock = true;       // these poll the clock
        if (kernel_clock && p.kind != 2) {
            uint64_t since = reached_since(real, dl);
            if (since != ~0ull) { if (since < t0) since = t0; if (now > since + LATE) fail("late-timeout", "%s %s (clock %d, unit %d, %lld ns) ends %llu ns after its deadline", o.t->name, op_name[c.d.op], c.d.clk, c.d.unit, (long long)(dl - (real ? r0 : (int64_t)t0)), (unsigned long long)(now - since)); }
            if (real && jumped_since(t0)) probe(2);
        }
        if (dl < (real ? r0 : (int64_t)t0)) probe(3);
        if (dl - (real ? r0 : (int64_t)t0) > 1000000000000000ll) probe(4);
    }
}
void closer(int id) {       // ends the waits without a reachable deadline
    wait_quiescent();
    for (int i = 0; i < nobj; ++i) for (int k = 0; k < 2; ++k) {
        Obj& o = ob_[i]; hist.th[id].emplace_back(); Ev& e = hist.th[id].back(); memset(&e.d, 0, sizeof e.d); memset(&e.r, 0, sizeof e.r); e.obj = i; e.pending = false;
        e.d.op = k ? OP_NOTIFYALL : OP_STORE; memcpy(e.d.a, fin_[i].b, MAXV); e.inv = stamp(); exec(o.t, base(id) + o.off, e.d, e.r); e.ret = stamp(); }
}
int64_t gen_dur(int& kind) {
    kind = 0;
    switch (gen(12)) {
    case 0: return 0; case 1: return -(int64_t)gen(5000); case 2: return -(int64_t)(wrng.next() % 4000000000000000000ull);
    case 3: return gen(3000); case 4: return gen(100000); case 5: return gen(5000000); case 6: return 1 + (int64_t)(wrng.next() % 10000000000ull); case 7: return 999999990 + (int64_t)gen(20);
    case 8: return (int64_t)(wrng.next() % 10000000000000ull); case 9: if (chance(1, 3)) { kind = 2; return 0; } return (int64_t)(wrng.next() % 2500000000000000000ull);
    case 10: kind = 1; { static const int64_t v[] = { 0, -1, 1, -500000000, -1000000000, -1000000001, 999999999, -999999999, -3600000000000ll }; return v[gen(9)]; }
    default: kind = 1; return -(int64_t)(wrng.next() % 4000000000000000000ull); }
}
void setup() {
    read_filter(); hist.clear(); pt = opt("pt", 0) != 0; oom = opt("oom", 0) != 0 && chance(1, 2);
    ipc = opt("ipc", 0) != 0; kills = ipc && chance(1, 3); maprot = gen(3);
    nobj = 1 + gen(2); size_t base = 64 + gen(64);
    for (int i = 0; i < nobj; ++i) {
        Obj& o = ob_[i]; o.t = i && chance(1, 2) ? ob_[0].t : pick_type(filter_ok); tis[i] = o.t; o.off = place(o.t, base); base = o.off + o.t->objsize + (chance(1, 3) ? 65536 : 0);
        make_pool(o.t, o.pool); fin_[i] = distinct_value(o.t, o.pool); o.init = o.pool.v[0]; mix_sig(o.t->size * 131 + o.off); for (const char* s = o.t->name; *s; ++s) mix_sig(*s);
        size_t lo = o.off > 64 ? o.off - 64 : 0; arena_use(lo, o.off + o.t->objsize + 64);
        for (size_t k = lo; k < o.off + o.t->objsize + 64; ++k) ARENA[k] = (unsigned char)(0xc3 ^ k * 7);
    }
    for (int i = 0; i < nobj; ++i) { Val v = ob_[i].init; garbage(ob_[i].t, v.b); ob_[i].t->init(ARENA + ob_[i].off, v.b); }
    int nw = 1 + gen(3), nc = gen(3);
    for (int i = 0; i < nw + nc; ++i) {
        prog[i].clear(); int n = 1 + gen(i < nw ? 3 : 4);
        for (int k = 0; k < n; ++k) {
            POp p; memset(&p, 0, sizeof p); p.obj = gen(nobj); Obj& o = ob_[p.obj]; p.pause = chance(1, 3) ? gen(i < nw ? 3000 : 200000) : 0;
            if (i < nw) {
                memcpy(p.d.b, o.pool.v[chance(2, 3) ? 0 : gen(o.pool.n)].b, MAXV); garbage(o.t, p.d.b); p.d.op = chance(1, 2) ? OP_WAITFOR : OP_WAITUNTIL; if (!(o.t->ops & ob(p.d.op))) p.d.op = OP_WAITFOR;
                p.d.clk = gen(CK_COUNT); p.d.unit = gen(7); p.dur = gen_dur(p.kind); if (p.d.op == OP_WAITFOR) p.kind = 0; if (p.kind == 2) { p.d.unit = 0; p.d.clk &= 1; }
                if (p.d.op == OP_WAITFOR && (p.d.unit == 5 || p.d.unit == 6)) p.dur %= 2000000000000000ll;            // int count
            } else if (chance(2, 5)) p.d.op = chance(1, 2) ? OP_NOTIFY1 : OP_NOTIFYALL;
            else gen_op(o.t, o.pool, MIX_CORE, false, p.d);
            prog[i].push_back(p); mix_sig(p.d.op * 4 + p.d.mo + i * 1000 + p.obj * 77); mix_sig(p.d.clk * 8 + p.d.unit); mix_sig(p.dur); }
        spawn(thread, i, ipc ? i % 3 : 0);
    }
    if (kills) { static const uint32_t r[] = { 500, 2000, 6000 }; cfg.p[K_KILL] = r[gen(3)]; cfg.kill_process = true; }
    closer_ = spawn(closer, nw + nc, ipc ? 2 : 0); protect_from_stall(closer_, true);
    gaps(60 * (nw + nc));
    cfg.no_wait_bitset = chance(1, 5);
    if (chance(1, 2)) { cfg.p[K_EINTR] = 20000; } if (chance(1, 2)) { cfg.p[K_SPUR] = 20000; cfg.p[K_DELAY] = 50000; }
    if (chance(1, 2)) { cfg.p[K_JUMP] = chance(1, 2) ? 1000 : 8000; static const int64_t mj[] = { 1000, 5000000, 3000000000ll, 7200000000000ll, 0 }; cfg.max_jump = mj[gen(5)]; }
    if (oom) { static const uint32_t r[] = { 3000, 40000, 65535 }; cfg.p[K_OOM] = r[gen(3)]; }
    cfg.fair_after = 20000; cfg.max_steps = 200000;
    bool poll = false; for (int i = 0; i < nobj; ++i) poll |= !ob_[i].t->natwait && ob_[i].t->flavor >= FL_IPC;
    if (poll || oom) {       // these poll every microsecond: keep the deadlines near
        if (!cfg.max_jump || cfg.max_jump > 100000) cfg.max_jump = 100000; if (cfg.p[K_JUMP] > 1000) cfg.p[K_JUMP] = 1000;
        for (auto& pr : prog) for (auto& p : pr) { if (p.kind == 1 && (p.d.clk == CK_MONO_TRAITS || p.d.clk == CK_PLAIN_MS)) p.kind = 0; if (p.kind == 2) p.kind = 0; if (p.kind == 0 && p.dur > 2000000) p.dur %= 2000000; }
    }
    if (opt("near", 0)) for (auto& pr : prog) for (auto& p : pr) { if (p.kind == 2) p.kind = 0; if (p.kind == 0 && p.dur > 20000000000000ll) p.dur %= 20000000000000ll; }   // a back end whose system call waits for at most some minutes takes as many steps as minutes
    probe_name(0, "waits timed out"); probe_name(1, "waits ended by a change"); probe_name(2, "system clock adjusted during a wait on it, deadline kept"); probe_name(3, "deadline already past"); probe_name(4, "deadline more than 11 days away");
}
void check() {
    for (int i = 0; i < nobj; ++i) {
        const TypeInfo* t = ob_[i].t; OpDesc d; OpRes r; memset(&d, 0, sizeof d); memset(&r, 0, sizeof r); d.op = OP_LOAD;
        exec(t, ARENA + ob_[i].off, d, r);
        if (!linearizable(t, hist, i, ob_[i].init, r.v)) fail("wait-result", "%s initial %s final %s: the results of the waits and operations have no explanation:%s", t->name, vstr(t, ob_[i].init.b).c_str(), vstr(t, r.v).c_str(), hist_str(tis, hist, i).c_str());
    }
}
Reg reg("timed", setup, check);
}
