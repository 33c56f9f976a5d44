// Scenario "bucket": many objects waited on at once, sharing the library's internal locks and lists, over several rounds in
// which waiters move between objects, while other threads wait briefly, notify and operate on yet other objects; the process
// may exit (its clean-up handlers run) at the end or at any moment before.
// Oracles: in a round that starts from rest, k notify_one on an object whose value changed let min(k, waiters) of that
// object's waiters finish (if none of them waits for the new value) and no waiter of another object; a final notify_all ends every wait; results are loads of a value
// different from the old one; memory stays bounded by the objects waited on at once and is all released after exit.
#include "common.h"
#include <algorithm>
using namespace sim; using namespace h;
namespace {
enum { MAXO = 40, MAXR = 5 };
struct Obj { const TypeInfo* t; unsigned char* m; Val v[MAXR + 1]; Val init, cur; int in; } ob_[MAXO + 3]; int nobj, nx; const TypeInfo* tis[MAXO + 3];
int nw, np, rounds, peak, inside; uint8_t asg[MAXR][MAXF]; bool inf_[MAXR][MAXF]; uint8_t order[MAXR][MAXO]; uint8_t mode_[MAXR], knot[MAXR][MAXO]; uint16_t pau[MAXR][MAXO];
struct POp { OpDesc d; int obj; int64_t dur; uint32_t pause; }; std::vector<POp> prog[4]; Hist hist; bool oom, hist_on, exited; int exit_round, exit_pos, exitmode, npool, distinct;
void enter(int o) { if (++inside > 0 && ob_[o].in++ == 0) { if (++distinct > peak) peak = distinct; } }
void leave(int o) { --inside; if (--ob_[o].in == 0) --distinct; }
void run_op(int id, int o, OpDesc& d, OpRes& r) {
    Obj& x = ob_[o]; bool w = (ob(d.op) & M_WAITS) != 0; size_t ei = 0;
    if (hist_on) { hist.th[id].emplace_back(); ei = hist.th[id].size() - 1; Ev e; e.d = d; e.obj = o; e.pending = true; memset(&e.r, 0, sizeof e.r); e.ret = ~0ull; e.inv = stamp(); hist.th[id][ei] = e; }
    if (w) enter(o);
    note("t%d obj%d %s a=%s b=%s ...", id, o, op_name[d.op], vstr(x.t, d.a).c_str(), vstr(x.t, d.b).c_str());
    monitor(x.m, x.m + x.t->nops_storage, FARENA, ARENA + ARENA_SIZE);
    memset(&r, 0, sizeof r); exec(x.t, x.m, d, r);
    monitor_off();
    if (w) leave(o);
    if (hist_on) { Ev& e = hist.th[id][ei]; e.r = r; e.ret = stamp(); e.pending = false; }
    mix(low(x.t, r.v));
    note("t%d obj%d %s -> %s ok=%d tmo=%d", id, o, op_name[d.op], vstr(x.t, r.v).c_str(), r.ok, r.tmo);
}
struct WS { int obj; bool waiting, fin; Val old; } ws[MAXF];
int stale(int o) { int n = 0; for (int w = 0; w < nw; ++w) if (ws[w].waiting && ws[w].obj == o && !veq(ob_[o].t, ws[w].old.b, ob_[o].cur.b)) ++n; return n; }
int current(int o) { int n = 0; for (int w = 0; w < nw; ++w) if (ws[w].waiting && ws[w].obj == o && veq(ob_[o].t, ws[w].old.b, ob_[o].cur.b)) ++n; return n; }
int before[MAXO]; bool window[MAXO], newwait[MAXO]; Val roundval[MAXO];
bool all_done() { for (int w = 0; w < nw; ++w) if (!ws[w].fin) return false; return true; }
void waiter(int id) {
    WS& s = ws[id];
    for (int r = 0; r < rounds; ++r) {
        if (dropped(id, r)) continue;
        int o = asg[r][id]; Obj& x = ob_[o]; OpDesc d; OpRes res; memset(&d, 0, sizeof d);
        memcpy(d.b, x.v[r].b, MAXV); memcpy(s.old.b, d.b, MAXV); garbage(x.t, d.b);
        d.op = OP_WAIT; if (inf_[r][id] && (x.t->ops & ob(OP_WAITUNTIL))) { d.op = OP_WAITUNTIL; d.clk = CK_STEADY; d.t = INT64_MAX; }
        s.obj = o; s.waiting = true; /* one that waits for the new value may take any number of notify_one calls */ if (window[o]) { ++before[o]; newwait[o] |= !veq(x.t, s.old.b, roundval[o].b); } run_op(id, o, d, res); s.waiting = false;
        if (veq(x.t, res.v, d.b)) fail(res.tmo ? "early-timeout" : "wait-result", "%s: a wait ends with the old value", x.t->name);
        probe(0);
    }
    s.fin = true;
}
void change(int id, int o, const Val& v, bool xchg) { OpDesc d; OpRes res; memset(&d, 0, sizeof d); d.op = xchg && ob_[o].t->cls != CL_FLAG ? OP_XCHG : OP_STORE; memcpy(d.a, v.b, MAXV); garbage(ob_[o].t, d.a); run_op(id, o, d, res); ob_[o].cur = v; }
void notify(int id, int o, int n) { OpDesc d; OpRes res; memset(&d, 0, sizeof d); d.op = n ? OP_NOTIFY1 : OP_NOTIFYALL; for (int k = n ? n : 1; k--;) run_op(id, o, d, res); }
void maybe_exit(int r, int pos) { if (exitmode == 2 && !exited && (r > exit_round || r == exit_round && pos >= exit_pos)) { exited = true; note("process exit"); run_atexit(0); probe(3); } }
void none_stale(const char* when) { for (int q = 0; q < nobj; ++q) if (int n = stale(q)) fail("lost-wakeup", "%s: %s %d thread%s remain%s blocked on object %d, which changed and was notified (all) since", ob_[q].t->name, when, n, n == 1 ? "" : "s", n == 1 ? "s" : "", q); }
void controller(int id) {
    protect_from_stall(self(), true);
    for (int r = 0; r < rounds; ++r) {
        bool rest = (mode_[r] & 1) && !oom;
        if (rest) { wait_quiescent(); none_stale("at the start of a round"); probe(1); if (distinct >= 12) probe(4); } else if (mode_[r] & 2) sleep_ns(pau[r][0]);
        bool notified[MAXO]; for (int o = 0; o < nobj; ++o) { before[o] = current(o); window[o] = true; notified[o] = newwait[o] = false; roundval[o] = ob_[o].cur; }
        auto check_now = [&]() { for (int q = 0; q < nobj; ++q) if (notified[q]) { int k = knot[r][q], lim = k == 255 ? 0 : newwait[q] ? before[q] : std::max(0, before[q] - k), n = stale(q);
            if (n > lim) fail("lost-wakeup", "%s: object %d with %d waiters changed and was notified (%s, %d times), %d waiters remain blocked", ob_[q].t->name, q, before[q], k == 255 ? "all" : "one", k == 255 ? 1 : k, n); } };
        auto notif = [&](int o) { notify(id, o, knot[r][o] == 255 ? 0 : knot[r][o]); notified[o] = true; };
        maybe_exit(r, 0);
        int pos = 0; bool split = mode_[r] & 8;
        for (int i = 0; i < nobj; ++i) {
            int o = order[r][i]; change(id, o, ob_[o].v[r + 1], pau[r][o] & 1);
            if (split) continue;
            notif(o); maybe_exit(r, ++pos);
            if (rest && (mode_[r] & 4) && (pau[r][o] & 6) == 0) { wait_quiescent(); check_now(); probe(2); }
        }
        if (split) for (int i = 0; i < nobj; ++i) { notif(order[r][nobj - 1 - i]); maybe_exit(r, ++pos); }
        if (rest) { wait_quiescent(); check_now(); }
        for (int i = 0; i < nobj; ++i) { window[i] = false; notify(id, order[r][i], 0); }
    }
    maybe_exit(rounds, 0);
    if (oom && chance(1, 2)) cfg.p[K_OOM] = 0;
    // late waiters may wait for a value an object has again: keep changing until all are through
    for (int it = 0;; ++it) {
        if (oom) sleep_ns(3000); else { wait_quiescent(); none_stale("after the last round"); }
        if (all_done()) return;
        if (it > rounds && !oom) fail("lost-wakeup", "waits do not finish though the values change again and again");
        for (int o = 0; o < nobj; ++o) { bool any = false; for (int w = 0; w < nw; ++w) any |= ws[w].waiting && ws[w].obj == o; if (!any && !oom) continue;
            int k = 0; while (veq(ob_[o].t, ob_[o].v[k].b, ob_[o].cur.b)) ++k; change(id, o, ob_[o].v[k], it & 1); notify(id, o, 0); }
    }
}
void passer(int id) {
    int pi = id - nw - 1;
    for (size_t i = 0; i < prog[pi].size(); ++i) {
        if (dropped(id, (int)i)) continue;
        POp p = prog[pi][i]; OpRes r; if (p.pause) sleep_ns(p.pause);
        if (p.d.op == OP_WAITFOR) p.d.t = p.dur; else if (p.d.op == OP_WAITUNTIL) p.d.t = clock_now(p.d.clk) + p.dur;
        run_op(id, p.obj, p.d, r);
    }
}
void setup() {
    read_filter(); hist.clear(); oom = opt("oom", 0) != 0; exited = false; memset(window, 0, sizeof window); inside = distinct = peak = 0;
    npool = (int)opt("pool", 256); int shape = gen(10); int big = (int)opt("big", 1);
    nobj = shape < 4 ? 1 + gen(3) : shape < 8 ? 2 + gen(7) : big ? 10 + gen(27) : 4 + gen(5); if (nobj > MAXO) nobj = MAXO;
    nw = nobj > 9 ? nobj + gen(3) : 1 + gen(8); if (nobj <= 9 && nw < nobj && chance(1, 2)) nw = nobj;
    rounds = nw > 12 ? 1 + gen(2) : 1 + gen(MAXR); np = nw > 12 ? gen(2) : gen(3); nx = np ? 1 + gen(3) : 0;
    hist_on = nw <= 12;
    cfg.tso = opt("tso", -1) < 0 ? chance(1, 4) : opt("tso", 0) != 0;
    size_t base = 64 + gen(64); bool collide = chance(2, 3), far = false; const TypeInfo* first = pick_type(filter_ok);
    for (int i = 0; i < nobj + nx; ++i) {
        Obj& o = ob_[i]; o.t = i == 0 || nw > 12 || chance(2, 3) ? first : pick_type(filter_ok); tis[i] = o.t; o.in = 0;
        if (i && collide && o.t->align <= ob_[0].t->align && nobj < 10) { o.m = ob_[0].m + (size_t)i * 65536; if (chance(1, 3) && !far) { o.m = FARENA + (ob_[i - 1].m - ARENA); far = true; } }
        else { size_t off = place(o.t, base); if (nw > 12 && chance(1, 2)) off += o.t->align * gen(40); base = off + o.t->objsize; o.m = ARENA + off; if (i && !far && chance(1, 6)) { o.m = FARENA + (ob_[i - 1].m - ARENA); if ((uintptr_t)o.m % o.t->align) o.m = ARENA + off; else far = true; } }
        arena_use_at(o.m - 32, o.m + o.t->objsize + 32);
        Pool pl; make_pool(o.t, pl); Val prev = pl.v[0]; o.init = o.cur = prev; o.v[0] = prev;
        for (int r = 1; r <= MAXR; ++r) { Val c = pl.v[gen(pl.n)]; if (veq(o.t, c.b, prev.b)) for (int k = 0; k < pl.n; ++k) if (!veq(o.t, pl.v[k].b, prev.b)) c = pl.v[k]; if (veq(o.t, c.b, prev.b)) c.b[0] ^= 1; o.v[r] = prev = c; }
        mix_sig(o.t->size * 131 + (uintptr_t)o.m); for (const char* s = o.t->name; *s; ++s) mix_sig(*s);
    }
    for (int i = 0; i < nobj + nx; ++i) { Val v = ob_[i].init; garbage(ob_[i].t, v.b); ob_[i].t->init(ob_[i].m, v.b); }
    for (int r = 0; r < rounds; ++r) {
        for (int w = 0; w < nw; ++w) { asg[r][w] = nobj > 9 && w < nobj ? w : gen(nobj); inf_[r][w] = chance(1, 4) && !opt("near", 0); mix_sig(asg[r][w]); }
        for (int o = 0; o < nobj; ++o) { order[r][o] = o; knot[r][o] = chance(1, 2) ? 255 : 1 + gen(3); pau[r][o] = gen(20000); }
        for (int o = nobj - 1; o > 0; --o) std::swap(order[r][o], order[r][gen(o + 1)]);
        mode_[r] = gen(16); if (chance(1, 2)) mode_[r] |= 1;
    }
    exitmode = (int)opt("exit", -1); if (exitmode < 0) exitmode = chance(1, 3) ? 2 : 1; exit_round = gen(rounds); exit_pos = gen(nobj + 2);
    for (int w = 0; w < nw; ++w) { memset(&ws[w], 0, sizeof ws[w]); spawn(waiter, w); }
    spawn(controller, nw);
    for (int p = 0; p < np; ++p) {
        prog[p].clear(); int n = 1 + gen(7);
        for (int k = 0; k < n; ++k) {
            POp q; memset(&q, 0, sizeof q); q.obj = nobj + gen(nx); Obj& o = ob_[q.obj]; q.pause = chance(1, 3) ? gen(3000) : 0; q.dur = 50 + gen(20000);
            uint32_t c = gen(10);
            if (c < 6) { memcpy(q.d.b, o.init.b, MAXV); garbage(o.t, q.d.b); q.d.op = OP_WAITFOR; if (chance(1, 2) && (o.t->ops & ob(OP_WAITUNTIL))) { q.d.op = OP_WAITUNTIL; q.d.clk = gen(CK_COUNT); } if (!(o.t->ops & ob(OP_WAITFOR))) q.d.op = OP_NOTIFY1; }
            else if (c < 9) q.d.op = chance(1, 2) ? OP_NOTIFY1 : OP_NOTIFYALL;
            else { Pool pl; make_pool(o.t, pl); gen_op(o.t, pl, MIX_CORE, cfg.tso, q.d); }
            prog[p].push_back(q); mix_sig(q.d.op + q.obj * 64); }
        spawn(passer, nw + 1 + p);
    }
    gaps((nw + np + 1) * 60 * rounds);
    cfg.no_wait_bitset = chance(1, 6);
    if (chance(1, 2)) { cfg.p[K_EINTR] = 10000; } if (chance(1, 2)) { cfg.p[K_SPUR] = 10000; cfg.p[K_DELAY] = 30000; }
    if (chance(1, 3)) cfg.p[K_STALL] = 1000;
    if (oom) { static const uint32_t r[] = { 1500, 10000, 30000, 65535 }; cfg.p[K_OOM] = r[gen(4)]; }
    cfg.fair_after = 40000 + 4000 * nw; cfg.max_steps = 200000 + 20000 * nw;
    probe_name(0, "waits finished"); probe_name(1, "rounds started with every waiter blocked"); probe_name(2, "wake-ups of one object checked while others stay blocked"); probe_name(3, "process exit with threads running"); probe_name(4, "12 or more objects waited on at once");
}
void check() {
    HeapStat h = heap_stat(0);
    // each lock keeps one buffer and as many wait states as objects were waited on at once; a growing buffer exists twice
    int locks = std::min(npool, nobj + nx), states = std::min(nobj + nx, npool * peak);
    if (h.peak_blocks > (uint64_t)(states + locks + 1)) fail("memory-bound", "%llu blocks were in use at once although at most %d objects were waited on at once (%d objects in all, %d locks)", (unsigned long long)h.peak_blocks, peak, nobj + nx, npool);
    if (exited && atexit_count(0)) { run_atexit(0); h = heap_stat(0); }      // registered while the process was exiting
    if (exited && h.live_blocks) fail("exit-leak", "%llu blocks (%llu bytes) are still allocated although no wait is in progress after process exit", (unsigned long long)h.live_blocks, (unsigned long long)h.live_bytes);
    if (hist_on) for (int i = 0; i < nobj + nx; ++i) {
        const TypeInfo* t = ob_[i].t; OpDesc d; OpRes r; memset(&d, 0, sizeof d); memset(&r, 0, sizeof r); d.op = OP_LOAD;
        exec(t, ob_[i].m, d, r);
        if (!linearizable(t, hist, i, ob_[i].init, r.v)) fail("wait-result", "%s initial %s final %s: the results of the waits and operations have no explanation:%s", t->name, vstr(t, ob_[i].init.b).c_str(), vstr(t, r.v).c_str(), hist_str(tis, hist, i).c_str());
    }
    if (!exited) { run_atexit(0); h = heap_stat(0); if (h.live_blocks) fail("exit-leak", "%llu blocks (%llu bytes) are still allocated after process exit", (unsigned long long)h.live_blocks, (unsigned long long)h.live_bytes); }
}
Reg reg("bucket", setup, check);
}
