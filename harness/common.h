// Shared by the scenarios: independent sequential models of every operation, the linearizability checker and the
// operation generator.
#pragma once
#include "sim.h"
#include "ops.h"
#include <cstring>
#include <cstdio>
#include <vector>
#include <string>
#include <unordered_set>
namespace h {
using namespace sim;
extern const char* const op_name[];
constexpr uint64_t ob(int o) { return 1ull << o; }
constexpr uint64_t M_WAITS = ob(OP_WAIT) | ob(OP_WAITFOR) | ob(OP_WAITUNTIL);
constexpr uint64_t M_NOTIFY = ob(OP_NOTIFY1) | ob(OP_NOTIFYALL);
constexpr uint64_t M_CORE = ob(OP_LOAD) | ob(OP_STORE) | ob(OP_XCHG) | ob(OP_CASW) | ob(OP_CASS) | ob(OP_ASSIGN) | ob(OP_CONV);
constexpr uint64_t M_NEGS = ob(OP_FNEG) | ob(OP_NEG) | ob(OP_ONEG) | ob(OP_TNEG);
struct Val { unsigned char b[MAXV]; };
inline bool veq(const TypeInfo* t, const unsigned char* x, const unsigned char* y) { for (int i = 0; i < t->size; ++i) if ((x[i] ^ y[i]) & t->vmask[i]) return false; return true; }
inline void vmaskv(const TypeInfo* t, unsigned char* x) { for (int i = 0; i < t->size; ++i) x[i] &= t->vmask[i]; }
std::string vstr(const TypeInfo* t, const unsigned char* x);
// Applies the operation to the state. Returns false when the recorded result is impossible in this state.
bool apply(const TypeInfo* t, const OpDesc& d, const OpRes& r, Val& st);

struct Ev { uint64_t inv, ret; int obj; OpDesc d; OpRes r; bool pending; };   // ret = ~0 if the operation never returned
struct Hist { std::vector<Ev> th[MAXF]; void clear() { for (auto& t : th) t.clear(); } };
// Linearizability of one object's history. Returns true if explained by some order; fin: final value or null
bool linearizable(const TypeInfo* t, const Hist& h, int obj, const Val& init, const unsigned char* fin);
std::string hist_str(const TypeInfo* const* t, const Hist& h, int obj);

// generation
const TypeInfo* pick_type(bool (*ok)(const TypeInfo*));
struct Pool { Val v[6]; int n; bool nan; };
void make_pool(const TypeInfo* t, Pool& p);
bool has_mo(const TypeInfo* t, int op, int mo);
enum Mix { MIX_ALL, MIX_CORE, MIX_CAS, MIX_EXT };
void gen_op(const TypeInfo* t, const Pool& p, int mix, int sc_only, OpDesc& d);
size_t place(const TypeInfo* t, size_t base);        // an offset >= base suitable for the type, often only minimally aligned
void garbage(const TypeInfo* t, unsigned char* v);   // fills padding bits with garbage
inline int lo_bits(const TypeInfo* t) { return t->nbits; }
void read_filter();                                  // type selection from the scenario options
bool filter_ok(const TypeInfo* t);
bool same_value(const TypeInfo* t, const unsigned char* a, const unsigned char* b);
// a value that differs from every value of the pool used as "old"; makes room in the pool if necessary
Val distinct_value(const TypeInfo* t, Pool& p);
int64_t clock_now(int clk);                          // ns on the clock's own scale
int64_t clock_to_rep(int clk, int64_t ns);           // truncation the wrappers apply, back in ns
void gaps(uint32_t expected_steps);                  // picks a preemption density suited to the run length
inline void exec(const TypeInfo* t, void* m, const OpDesc& d, OpRes& r) { t->exec(m, &d, &r); }
uint64_t low(const TypeInfo* t, const unsigned char* v);
}
