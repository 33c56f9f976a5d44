// Scenario "lin": threads perform random operations on one or two objects; every object's history must be linearizable,
// no operation may write outside its object, the final value (read through an operation and, for references, directly)
// must be the one the linearization leaves.
// Option ipc: the threads belong to three processes with their own static data, each of which maps the objects at another
// address; processes may be killed. Option edge: objects packed as tightly as their alignment allows, at the end or start of
// accessible memory, with the bytes around them changed concurrently by another thread.
#include "common.h"
using namespace sim; using namespace h;
namespace {
struct Obj { const TypeInfo* t; size_t off; Val init; Pool pool; } ob_[3]; int nobj;
struct POp { OpDesc d; int obj; bool useseen, twin; };
std::vector<POp> prog[6]; int nth; Hist hist; const TypeInfo* tis[3];
bool mixref, ipc, edge; int maprot; size_t elo, ehi; unsigned char eb[2][48];
unsigned char* base(int id) { if (!ipc) return ARENA; unsigned char* const m[] = { ARENA, ARENA2, ARENA3 }; return m[(id + maprot) % 3]; }
const TypeInfo* twin_[3];   // the same referenced type through the other kind of reference
void thread(int id) {
    Val seen[3]; for (int i = 0; i < nobj; ++i) seen[i] = ob_[i].init;
    for (size_t i = 0; i < prog[id].size(); ++i) {
        if (dropped(id, (int)i)) continue;
        POp& p = prog[id][i]; Obj& o = ob_[p.obj]; void* m = base(id) + o.off;
        hist.th[id].emplace_back(); Ev& e = hist.th[id].back(); e.d = p.d; e.obj = p.obj; e.pending = true; memset(&e.r, 0, sizeof e.r); e.ret = ~0ull;
        if (p.useseen) { memcpy(e.d.b, seen[p.obj].b, o.t->size); for (int k = 0; k < o.t->size; ++k) if (!o.t->vmask[k]) e.d.b[k] = p.d.b[k]; }
        e.inv = stamp();
        monitor(m, (char*)m + o.t->nops_storage, base(id), base(id) + ARENA_SIZE);
        exec(p.twin ? twin_[p.obj] : o.t, m, e.d, e.r);
        monitor_off();
        e.ret = stamp(); e.pending = false;
        mix(low(o.t, e.r.v) ^ (uint64_t)e.r.ok << 60);
        note("t%d obj%d %s.%d a=%s b=%s -> %s ok=%d", id, p.obj, op_name[e.d.op], e.d.mo, vstr(o.t, e.d.a).c_str(), vstr(o.t, e.d.b).c_str(), vstr(o.t, e.r.v).c_str(), e.r.ok);
        if (e.d.op != OP_STORE && !((e.d.op >= OP_OADD && e.d.op <= OP_BTC))) memcpy(seen[p.obj].b, e.r.v, o.t->size);
        if ((e.d.op == OP_CASW || e.d.op == OP_CASS) && e.r.ok) memcpy(seen[p.obj].b, e.d.a, o.t->size);
    }
}
// changes the bytes next to the objects and expects to find them as it left them
void neighbour(int) {
    bool lo = elo >= 48 && elo % 4096, hi = ehi % 4096 != 0; if (!lo && !hi) return;
    for (int k = 0; k < 40; ++k) {
        int side = lo && hi ? k & 1 : lo ? 0 : 1, i = (k * 7 + k / 3) % 48; unsigned char* p = side ? ARENA + ehi + i : ARENA + elo - 48 + i;
        *p = ++eb[side][i];
        yield();
        for (int q = 0; q < 2; ++q) if (q ? hi : lo) for (int j = 0; j < 48; ++j) { unsigned char* x = q ? ARENA + ehi + j : ARENA + elo - 48 + j; if (*x != eb[q][j]) fail("neighbour-changed", "the byte %d %s the objects holds %02x, last written %02x", q ? j : 48 - j, q ? "after" : "before", *x, eb[q][j]); }
    }
}
const TypeInfo* find_twin(const TypeInfo* t) {
    if (t->flavor != FL_REF && t->flavor != FL_IPCREF) return nullptr;
    const char* b = strchr(t->name, '<');
    for (TypeTab* x = g_types; x; x = x->next) for (int i = 0; i < x->n; ++i) if (x->t[i].flavor == (t->flavor ^ FL_REF ^ FL_IPCREF) && !strcmp(strchr(x->t[i].name, '<'), b)) return &x->t[i];
    return nullptr;
}
void setup() {
    mixref = opt("mixref", 0) != 0; ipc = opt("ipc", 0) != 0; edge = opt("edge", 0) != 0; maprot = gen(3);
    read_filter();
    int mx = (int)opt("mix", 0); bool tso = opt("tso", -1) < 0 ? chance(1, 2) : opt("tso", 0) != 0;
    hist.clear(); nobj = 1 + (chance(1, edge ? 2 : 4) ? 1 : 0) + (edge && chance(1, 4)); size_t base = 64 + gen(64); int end = edge ? gen(3) : 2;
    if (edge) base = end == 2 ? 4096 + gen(600) : 4096;
    for (int i = 0; i < nobj; ++i) {
        Obj& o = ob_[i]; o.t = i && chance(1, 2) ? ob_[0].t : pick_type(filter_ok); tis[i] = o.t; o.off = place(o.t, base); if (edge) o.off = (base + o.t->align - 1) / o.t->align * o.t->align; base = o.off + o.t->objsize; if (!edge && chance(1, 8)) base += 65536 - 256;
        make_pool(o.t, o.pool); o.init = o.pool.v[0]; twin_[i] = mixref && o.t->lockfree && chance(1, 2) ? find_twin(o.t) : nullptr; mix_sig(o.t->size * 131 + o.t->cls * 7 + o.off); for (const char* s = o.t->name; *s; ++s) mix_sig(*s);
    }
    if (edge) {
        if (end == 1) { size_t al = 1; for (int i = 0; i < nobj; ++i) if (ob_[i].t->align > al) al = ob_[i].t->align; size_t sh = (8192 - base) / al * al; if (nobj == 1) sh = (8192 - base) / ob_[0].t->align * ob_[0].t->align; for (int i = 0; i < nobj; ++i) ob_[i].off += sh; base += sh; }
        elo = ob_[0].off; ehi = base; arena_use(4096, 16384);
    }
    arena_use(0, base + 4096);
    for (size_t i = 0; i < base + 256; ++i) ARENA[i] = (unsigned char)(0xc3 ^ i * 7);
    for (int i = 0; i < nobj; ++i) { Val v = ob_[i].init; garbage(ob_[i].t, v.b); ob_[i].t->init(ARENA + ob_[i].off, v.b); }
    if (edge) { for (int j = 0; j < 48; ++j) { eb[0][j] = ARENA[elo - 48 + j]; eb[1][j] = ARENA[ehi + j]; } if (end == 0) guard_page(0, true); if (end == 1 && ehi == 8192) guard_page(8192, true); }
    nth = 2 + gen(3); int total = 0;
    int per = chance(1, 3) ? 2 + gen(3) : 3 + gen(5);
    for (int i = 0; i < nth; ++i) {
        prog[i].clear(); int n = 1 + gen(per);
        for (int k = 0; k < n; ++k) { POp p; p.obj = nobj > 1 ? gen(nobj) : 0; gen_op(ob_[p.obj].t, ob_[p.obj].pool, mx, tso, p.d); p.useseen = chance(1, 2); p.twin = twin_[p.obj] && chance(1, 2); prog[i].push_back(p); mix_sig(p.d.op * 4 + p.d.mo + i * 1000 + p.obj * 77); ++total; }
        spawn(thread, i, ipc ? i % 3 : 0);
    }
    if (edge && chance(1, 2)) spawn(neighbour, 0);
    if (ipc && chance(1, 3)) { static const uint32_t r[] = { 1500, 6000, 20000 }; cfg.p[K_KILL] = r[gen(3)]; cfg.kill_process = true; }
    cfg.tso = tso;
    gaps(total * (ob_[0].t->lockfree ? 3 : 25));
    if (!ob_[0].t->lockfree || (nobj > 1 && !ob_[1].t->lockfree)) { if (chance(1, 4)) { cfg.p[K_STALL] = 1500; cfg.p[K_ADV] = 3000; } if (chance(1, 4)) { cfg.p[K_EINTR] = 20000; cfg.p[K_SPUR] = 20000; cfg.p[K_DELAY] = 40000; } }
}
void check() {
    for (int i = 0; i < nobj; ++i) {
        const TypeInfo* t = ob_[i].t; OpDesc d; OpRes r; memset(&d, 0, sizeof d); memset(&r, 0, sizeof r); d.op = OP_LOAD;
        exec(t, ARENA + ob_[i].off, d, r);
        if (t->flavor == FL_REF || t->flavor == FL_IPCREF) if (!veq(t, ARENA + ob_[i].off, r.v)) fail("ref-memory", "%s: referenced object holds %s, load through a reference returns %s", t->name, vstr(t, ARENA + ob_[i].off).c_str(), vstr(t, r.v).c_str());
        if (!linearizable(t, hist, i, ob_[i].init, r.v)) fail("not-linearizable", "%s initial %s final %s:%s", t->name, vstr(t, ob_[i].init.b).c_str(), vstr(t, r.v).c_str(), hist_str(tis, hist, i).c_str());
        if (t->cls == CL_FLAG) continue;
        // nobody interferes any more: compare-exchange must get through
        OpDesc c; memset(&c, 0, sizeof c); c.op = chance(1, 2) ? OP_CASW : OP_CASS; memcpy(c.b, r.v, t->size); memcpy(c.a, ob_[i].pool.v[gen(ob_[i].pool.n)].b, t->size); garbage(t, c.a); garbage(t, c.b);
        int k = 0; for (; k < 64; ++k) { OpRes q; memset(&q, 0, sizeof q); exec(t, ARENA + ob_[i].off, c, q); if (!veq(t, q.v, r.v)) fail("cas-wrong-value", "%s: %s reports %s while the object holds %s", t->name, op_name[c.op], vstr(t, q.v).c_str(), vstr(t, r.v).c_str()); if (q.ok) break; if (c.op == OP_CASS) { k = 64; break; } memcpy(c.b, q.v, t->size); }
        if (k == 64) fail("cas-no-progress", "%s: %s with the expected value %s equal to the current one keeps failing without interference", t->name, op_name[c.op], vstr(t, c.b).c_str());
        OpRes q; memset(&q, 0, sizeof q); exec(t, ARENA + ob_[i].off, d, q); if (!veq(t, q.v, c.a)) fail("cas-not-stored", "%s: after a successful exchange to %s a load returns %s", t->name, vstr(t, c.a).c_str(), vstr(t, q.v).c_str());
    }
}
Reg reg("lin", setup, check);
}
