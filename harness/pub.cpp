// Scenario "pub": publication of ordinary data. One thread writes data and makes a release operation, others may make relaxed
// read-modify-writes, and whoever makes an acquire operation whose result proves that it comes after the release reads the data.
// The operations and the data accesses are compiled together (sut/litmus.inc). Oracle: the data read is the data written; in the
// happens-before builds, no two accesses to the data or to the library's internal data race.
// Which results prove that is computed by running the reference model through all orders of the operations.
// Mode 1 (hand-over): the consumer has read the data before, announces itself with the same operation, and must not see its old
// reading again. Mode 2: a thread and a handler that interrupts it, ordered by signal fences.
#include "common.h"
#include "litmus.h"
#include <set>
using namespace sim; using namespace h;
extern "C" { void lit_fence(int) __attribute__((weak)); void lit_signal_thread(LArg*) __attribute__((weak)); void lit_signal_handler(LArg*) __attribute__((weak)); }
namespace {
const LitType* lt; const TypeInfo* t; uint32_t* data; Val v0, varr; bool race; int mode, nchain, ncons, attempts, chains_left, cons_left; bool waits;
LArg pa, ca[3]; LitFn pf, cf[3]; OpDesc chd[3]; OpDesc fin; uint32_t old0, old1; bool got[3], hand_done; 
const TypeInfo* type_of(const LitType* l) { for (TypeTab* x = g_types; x; x = x->next) for (int i = 0; i < x->n; ++i) if (!strcmp(x->t[i].name, l->name)) return &x->t[i]; return nullptr; }
bool okonly(int o) { return (o >= OP_TADD && o <= OP_BTC) || o == OP_TADD1 || o == OP_TSUB1 || o == OP_BTS3 || o == OP_BTR3 || o == OP_BTC3 || o == OP_TEST || o == OP_TAS; }
bool is_cas(int o) { return o == OP_CASW || o == OP_CASS; }
bool is_wait(int o) { return (ob(o) & M_WAITS) != 0; }
bool rmw(int o) { return !(o == OP_LOAD || o == OP_CONV || o == OP_STORE || o == OP_ASSIGN || o == OP_TEST || o == OP_CLEAR || is_wait(o) || (ob(o) & M_NOTIFY)); }
// runs the operation on the model: new state, result; false: it blocks
bool model(const OpDesc& d, Val& v, LExp& r) {
    memset(&r, 0, sizeof r);
    if (is_wait(d.op)) { if (d.op == OP_WAIT && veq(t, v.b, d.b)) return false; memcpy(r.v, v.b, t->size); return true; }
    if (is_cas(d.op)) { memcpy(r.v, v.b, t->size); r.ok = veq(t, v.b, d.b); if (r.ok) { memcpy(v.b, d.a, t->size); vmaskv(t, v.b); } return true; }
    // every result the model accepts
    OpRes q; memset(&q, 0, sizeof q);
    for (int k = 0; k < 4; ++k) {
        Val w = v; q.ok = k & 1; memcpy(q.v, v.b, t->size);
        if (k >= 2) { // operations returning the new value: find it through the variant that returns nothing
            OpDesc e = d;
            switch (d.op) { case OP_ADD: case OP_OPADD: e.op = OP_OADD; break; case OP_SUB: case OP_OPSUB: e.op = OP_OSUB; break; case OP_NEG: e.op = OP_ONEG; break; case OP_BAND: case OP_OPAND: e.op = OP_OAND; break; case OP_BOR: case OP_OPOR: e.op = OP_OOR; break;
            case OP_BXOR: case OP_OPXOR: e.op = OP_OXOR; break; case OP_BCPL: e.op = OP_OCPL; break; case OP_PREINC: case OP_ADD1: e.op = OP_OADD1; break; case OP_PREDEC: case OP_SUB1: e.op = OP_OSUB1; break; default: continue; }
            OpRes z; memset(&z, 0, sizeof z); if (!apply(t, e, z, w)) continue; memcpy(q.v, w.b, t->size); w = v;
        }
        if (apply(t, d, q, w)) { v = w; memcpy(r.v, q.v, t->size); r.ok = q.ok; if (okonly(d.op)) memset(r.v, 0, sizeof r.v); else r.ok = false; return true; }
    }
    fail("internal", "no result for %s", op_name[d.op]);
}
// relaxed operations made by inline assembly are invisible to the race detector, so it cannot combine them with fences
bool seen_by_detector(int o) { return !t->lockfree || (t->size <= 8 && (o == OP_LOAD || o == OP_STORE || o == OP_XCHG || is_cas(o) || o == OP_FADD || o == OP_FSUB || o == OP_FAND || o == OP_FOR || o == OP_FXOR)); }
struct Less { bool operator()(const LExp& a, const LExp& b) const { int c = memcmp(a.v, b.v, MAXV); return c ? c < 0 : a.ok < b.ok; } };
typedef std::set<LExp, Less> Set;
Set U[3], W[3]; int budget;
void enumerate(const Val& v, int p, int f, int cmask, const int* left) {      // p: 0 not yet, 1 published, 2 made without effect
    if (--budget < 0) return;
    auto fails = [](const OpDesc& d, const Val& x) { return weak_build() && d.op == OP_CASW && veq(t, x.b, d.b); };       // for no reason
    if (p == 0 && fails(pa.d, v)) enumerate(v, 2, f, cmask, left);
    for (int i = 0; i < nchain; ++i) if (cmask >> i & 1 && fails(chd[i], v)) enumerate(v, p, f, cmask & ~(1 << i), left);
    for (int i = 0; i < ncons; ++i) if (left[i] && fails(ca[i].d, v)) { LExp r; memset(&r, 0, sizeof r); memcpy(r.v, v.b, t->size); (p == 1 ? W : U)[i].insert(r); int l[3] = { left[0], left[1], left[2] }; l[i]--; enumerate(v, p, f, cmask, l); }
    if (p == 0) { Val w = v; LExp r; model(pa.d, w, r); enumerate(w, is_cas(pa.d.op) && !r.ok ? 2 : 1, f, cmask, left); }
    for (int i = 0; i < nchain; ++i) if (cmask >> i & 1) { Val w = v; LExp r; model(chd[i], w, r); enumerate(w, p, f, cmask & ~(1 << i), left); }
    if (p && !cmask && !f && fin.op != OP_LOAD) { Val w = v; LExp r; model(fin, w, r); enumerate(w, p, 1, cmask, left); }
    for (int i = 0; i < ncons; ++i) if (left[i]) { Val w = v; LExp r; if (!model(ca[i].d, w, r)) continue; (p == 1 ? W : U)[i].insert(r); int l[3] = { left[0], left[1], left[2] }; l[i]--; enumerate(w, p, f, cmask, l); }
}
// orders release and acquire: only a failed exchange acquires
bool acquires_on_failure(const OpDesc& d) { return is_cas(d.op) && d.mo == 4 && (d.bit & 1); }
bool conclusive() {
    for (int i = 0; i < ncons; ++i) { U[i].clear(); W[i].clear(); }
    int l[3] = { attempts, attempts, attempts }; budget = 3000; enumerate(v0, 0, 0, (1 << nchain) - 1, l); if (budget < 0) return false;
    for (int i = 0; i < ncons; ++i) { LArg& a = ca[i]; a.nexp = 0; for (auto& e : W[i]) if (!U[i].count(e) && a.nexp < 8 && !(e.ok && acquires_on_failure(a.d))) a.exp[a.nexp++] = e; if (!a.nexp) return false; }
    return true;
}
bool fenced(int k) { return k == 3 || k >= 6; }
LitFn pick(const LitFn (*tab)[NK], const Pool& p, OpDesc& d, bool need_rmw) {
    for (int k = 0; k < 200; ++k) {
        if (chance(1, 4) && (t->ops & M_WAITS) && tab == lt->cons) { memset(&d, 0, sizeof d); d.op = OP_WAIT + gen(3); memcpy(d.b, v0.b, MAXV); d.t = chance(1, 2) ? 3600000000000ll * 100 : gen(20000); }
        else gen_op(t, p, MIX_ALL, false, d);
        d.cv = 0; if (need_rmw && !rmw(d.op)) continue; if (mode == 1 && weak_build() && d.op == OP_CASW) continue;
        int kk = gen(NK); for (int j = 0; j < NK; ++j) if (tab[d.op][(kk + j) % NK] && !(race && fenced((kk + j) % NK) && !seen_by_detector(d.op))) { d.mo = (kk + j) % NK; return tab[d.op][d.mo]; }
    }
    return nullptr;
}
void notify() { if (!waits) return; OpDesc d; OpRes r; memset(&d, 0, sizeof d); d.op = OP_NOTIFYALL; exec(t, lit_obj, d, r); }
void verify(int id) {
    LArg& a = ca[id];
    note("consumer %d: %s.%d b=%s proves publication, data %u %u", id, op_name[a.d.op], a.d.mo, vstr(t, a.d.b).c_str(), a.out[0], a.out[1]);
    if (a.out[0] != pa.in[0] || a.out[1] != pa.in[1] / pa.in[2])
        fail("stale-data", "%s: after %s.%d (a=%s b=%s bit=%u, initial value %s) had published the data, a %s.%d (a=%s b=%s bit=%u) that came after it was followed by a read of %u, %u instead of %u, %u", t->name, op_name[pa.d.op], pa.d.mo, vstr(t, pa.d.a).c_str(), vstr(t, pa.d.b).c_str(), pa.d.bit, vstr(t, v0.b).c_str(),
            op_name[a.d.op], a.d.mo, vstr(t, a.d.a).c_str(), vstr(t, a.d.b).c_str(), a.d.bit, a.out[0], a.out[1], pa.in[0], pa.in[1] / pa.in[2]);
    got[id] = true; probe(mode);
}
void producer(int) {
    if (mode == 1) { OpDesc d; OpRes r; memset(&d, 0, sizeof d); d.op = OP_LOAD; d.mo = 2; for (;;) { exec(t, lit_obj, d, r); if (veq(t, r.v, varr.b)) break; if (hand_done) return; yield(); } }
    note("producer: %s.%d a=%s b=%s bit=%u", op_name[pa.d.op], pa.d.mo, vstr(t, pa.d.a).c_str(), vstr(t, pa.d.b).c_str(), pa.d.bit);
    pf(&pa); note("producer done"); notify(); --chains_left;
}
void chain(int i) { OpRes r; memset(&r, 0, sizeof r); exec(t, lit_obj, chd[i], r); note("chain %s a=%s", op_name[chd[i].op], vstr(t, chd[i].a).c_str()); notify(); --chains_left; }
void consumer(int i) {
    if (mode == 1) {
        cf[i](&ca[i]);
        if (ca[i].out[2] != old0 || ca[i].out[3] != old1) fail("stale-data", "%s: data read before %s.%d had released it shows the overwriting %u, %u", t->name, op_name[ca[i].d.op], ca[i].d.mo, ca[i].out[2], ca[i].out[3]);
        hand_done = true; if (ca[i].res) verify(i); mix(ca[i].res); return; }
    for (int k = 0; k < attempts; ++k) { OpDesc& d = ca[i].d; if (d.op == OP_WAITUNTIL) d.t = (int64_t)mono_now() + ca[i].in[0] * 1000ll; cf[i](&ca[i]); mix(ca[i].res); if (ca[i].res) { verify(i); break; } }
    if (!is_wait(ca[i].d.op)) --cons_left;
}
void finale(int) { while (chains_left || cons_left) sleep_ns(2000); OpRes r; exec(t, lit_obj, fin, r); notify(); }
void sig_thread(int) {
    lit_signal_thread(&pa); mix(pa.out[0]);
    if (pa.out[0] && pa.out[1] != pa.in[0] / pa.in[2]) fail("stale-data", "a thread that had seen the flag set by its signal handler read %u after an acquire signal fence instead of the handler's %u", pa.out[1], pa.in[0] / pa.in[2]);
    if (pa.out[2] != old1) fail("stale-data", "a thread read %u before the handler could have written it", pa.out[2]);
}
void sig_handler(int) {
    LArg a = pa; lit_signal_handler(&a); mix(a.out[0]); probe(2);
    if (a.out[0] && a.out[1] != pa.in[1] / pa.in[2]) fail("stale-data", "a signal handler saw the flag that the interrupted thread set after a release signal fence, but read %u instead of the data %u written before it", a.out[1], pa.in[1] / pa.in[2]);
}
void setup() {
    race = opt("race", 0) != 0; waits = false; for (auto& g : got) g = false; hand_done = false;
    const LitType* c[64]; int n = 0; int wcls = (int)opt("cls", 0); for (LitType* l = g_lits; l; l = l->next) { const TypeInfo* x = type_of(l); if (x && (!wcls || x->cls == wcls)) c[n++] = l; }
    for (int i = 1; i < n; ++i) for (int j = i; j > 0 && strcmp(c[j - 1]->name, c[j]->name) > 0; --j) std::swap(c[j - 1], c[j]);
    if (!n) { fprintf(stderr, "no types for this scenario\n"); _Exit(3); }
    mode = !race && lit_signal_thread && chance(1, 50) ? 2 : chance(1, 3); cfg.tso = !race;
    lt = c[gen(n)]; t = type_of(lt); for (const char* s = t->name; *s; ++s) mix_sig(*s);
    data = lit_data; for (int i = 0; i < 64; ++i) lit_obj[i] = (unsigned char)(0xc3 ^ i * 7); for (int i = 0; i < 16; ++i) data[i] = i;
    old0 = data[0] = gen(1000); old1 = data[1] = gen(1000);
    memset(&pa, 0, sizeof pa); pa.in[0] = 1000 + gen(1000); pa.in[1] = 100000 + gen(1000000); pa.in[2] = 1 + gen(7);
    probe_name(0, "publications acquired"); probe_name(1, "data handed over and back"); probe_name(2, "handlers interrupting a publication");
    if (mode == 2) { pa.in[3] = gen(3); set_handler(spawn(sig_thread, 0), sig_handler); cfg.p[K_SIG] = 20000; mix_sig(2 + pa.in[3]); return; }
    Pool p; int tries = 0;
    for (;; ++tries) {
        if (tries > 60) { mode = 0; }
        make_pool(t, p); v0 = p.v[0]; vmaskv(t, v0.b); nchain = 0; ncons = 1; attempts = 1; waits = false; fin.op = OP_LOAD;
        for (auto& a : ca) memset(&a, 0, sizeof a);
        if (mode == 1) {
            if (!(cf[0] = pick(lt->hand, p, ca[0].d, true)) || !(pf = pick(lt->prod, p, pa.d, false))) { mode = 0; continue; }
            if (p.nan) continue;
            varr = v0; LExp ra, r1, rp; if (!model(ca[0].d, varr, ra) || veq(t, varr.b, v0.b)) continue;
            // not published: second operation on the announced state; published: on what the producer makes of it
            Val vu = varr, vp = varr; model(ca[0].d, vu, ra); model(pa.d, vp, rp); if (is_cas(pa.d.op) && !rp.ok) continue; model(ca[0].d, vp, r1);
            if (!Less()(ra, r1) && !Less()(r1, ra)) continue;
            ca[0].exp[0] = r1; ca[0].nexp = 1; break;
        }
        if (p.nan) continue;
        if (tries > 60) { // always possible
            Val d = distinct_value(t, p); v0 = p.v[0]; memset(&pa.d, 0, sizeof pa.d); memcpy(pa.d.a, d.b, MAXV); pa.d.op = t->cls == CL_FLAG ? (v0.b[0] ? OP_CLEAR : OP_TAS) : OP_STORE; pa.d.mo = 1; pf = lt->prod[pa.d.op][1];
            ca[0].d.op = t->cls == CL_FLAG ? OP_TEST : OP_LOAD; ca[0].d.mo = 1; cf[0] = lt->cons[ca[0].d.op][1];
        } else {
            if (!(pf = pick(lt->prod, p, pa.d, false))) continue;
            nchain = chance(1, 2) ? 0 : 1 + gen(2); ncons = 1 + gen(2); attempts = 1 + gen(nchain + ncons > 2 ? 2 : 4);
            if (tries > 30) { nchain = 0; ncons = 1; }
            bool bad = false;
            for (int i = 0; i < nchain; ++i) { int k = 0; do { gen_op(t, p, MIX_ALL, false, chd[i]); chd[i].cv = 0; chd[i].mo = 1; } while ((!rmw(chd[i].op) || !has_mo(t, chd[i].op, 1)) && ++k < 50); if (k >= 50) bad = true; }
            for (int i = 0; i < ncons; ++i) { if (!(cf[i] = pick(lt->cons, p, ca[i].d, false))) bad = true; else if (is_wait(ca[i].d.op)) { waits = true; ca[i].in[0] = (uint32_t)(ca[i].d.t / 1000 > 3000000000ll ? 3000000000u : ca[i].d.t / 1000); } }
            if (bad) continue;
            if (waits) { if (t->cls == CL_FLAG) { bool allw = nchain == 0; for (int i = 0; i < ncons; ++i) if (!is_wait(ca[i].d.op)) allw = false; Val w = v0; LExp r; model(pa.d, w, r); if (!allw || veq(t, w.b, v0.b)) continue; }
                else { memset(&fin, 0, sizeof fin); fin.op = OP_XCHG; Val f = distinct_value(t, p); if (veq(t, f.b, v0.b)) continue; memcpy(fin.a, f.b, MAXV); bool clash = false; for (int i = 0; i < ncons; ++i) if (is_wait(ca[i].d.op) && veq(t, ca[i].d.b, f.b)) clash = true; if (clash) continue; } }
        }
        if (conclusive()) break;
    }
    mix_sig(pa.d.op * 8 + pa.d.mo + mode * 10000 + tries); for (int i = 0; i < ncons; ++i) mix_sig(ca[i].d.op * 8 + ca[i].d.mo); for (int i = 0; i < nchain; ++i) mix_sig(chd[i].op);
    t->init(lit_obj, v0.b); if (t->lockfree) race_atomic(lit_obj, lit_obj + t->objsize); chains_left = 1 + nchain; cons_left = 0; for (int i = 0; i < ncons; ++i) if (!is_wait(ca[i].d.op)) ++cons_left;
    spawn(producer, 0); for (int i = 0; i < nchain; ++i) spawn(chain, i); for (int i = 0; i < ncons; ++i) spawn(consumer, i);
    if (waits && fin.op != OP_LOAD) { int f = spawn(finale, 0); protect_from_stall(f, true); }
    gaps(t->lockfree ? 8 : 40); if (chance(1, 3)) cfg.p[K_ADV] = 2500; if (waits && chance(1, 2)) { cfg.p[K_EINTR] = 15000; cfg.p[K_SPUR] = 15000; cfg.p[K_DELAY] = 40000; } if (waits) cfg.no_wait_bitset = chance(1, 6);
    cfg.fair_after = 20000; cfg.max_steps = 160000;
}
void check() {}
Reg reg("pub", setup, check);
}
