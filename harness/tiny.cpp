#include "sim.h"
#include "ops.h"
#include <cstring>
#include <cstdio>
using namespace sim;
static const TypeInfo* ti; static uint64_t sum;
static void th(int id) {
    OpDesc d; OpRes r; memset(&d, 0, sizeof d);
    for (int i = 0; i < 4; ++i) { d.op = OP_FADD; d.a[0] = 1; ti->exec(ARENA, &d, &r); note("t%d got %d", id, r.v[0]); }
    if (opt("bad", 0)) { volatile unsigned char* p = ARENA + 64; (void)p; }
}
static void setup() { ti = nullptr; for (TypeTab* t = g_types; t; t = t->next) for (int i = 0; i < t->n; ++i) if (t->t[i].cls == CL_UINT) ti = &t->t[i];
    arena_use(0, 4096); unsigned char z[MAXV] = {0}; ti->init(ARENA, z); for (int i = 0; i < 3; ++i) spawn(th, i); }
static void check() { OpDesc d; OpRes r; memset(&d, 0, sizeof d); d.op = OP_LOAD; ti->exec(ARENA, &d, &r); if (r.v[0] != 12) fail("lost", "final %d", r.v[0]); }
static Reg reg("tiny", setup, check);
TypeTab* g_types;
extern "C" int64_t sim_user_clock(int) noexcept { return 0; }
extern "C" void sim_user_changed(uint64_t, uint64_t) noexcept { fail("operand-changed", "operand"); }
