// Interface between the instrumented operation wrappers (sut/) and the harness.
#pragma once
#include <cstdint>
#include <cstddef>
enum { MAXV = 64 };
enum Cls { CL_UINT, CL_SINT, CL_BOOL, CL_ENUM, CL_PTR, CL_VPTR, CL_FP32, CL_FP64, CL_FP80, CL_STRUCT, CL_FLAG };
enum Flavor { FL_ATOMIC, FL_REF, FL_IPC, FL_IPCREF };
#define OP_LIST(X) \
 X(LOAD) X(STORE) X(XCHG) X(CASW) X(CASS) X(ASSIGN) X(CONV) \
 X(FADD) X(FSUB) X(FAND) X(FOR) X(FXOR) X(FNEG) X(FCPL) \
 X(ADD) X(SUB) X(NEG) X(BAND) X(BOR) X(BXOR) X(BCPL) \
 X(OADD) X(OSUB) X(ONEG) X(OAND) X(OOR) X(OXOR) X(OCPL) \
 X(TADD) X(TSUB) X(TNEG) X(TAND) X(TOR) X(TXOR) X(TCPL) \
 X(BTS) X(BTR) X(BTC) \
 X(POSTINC) X(PREINC) X(POSTDEC) X(PREDEC) X(OPADD) X(OPSUB) X(OPAND) X(OPOR) X(OPXOR) \
 X(ADD1) X(SUB1) X(OADD1) X(OSUB1) X(TADD1) X(TSUB1) X(BTS3) X(BTR3) X(BTC3) \
 X(WAIT) X(WAITFOR) X(WAITUNTIL) X(NOTIFY1) X(NOTIFYALL) \
 X(TEST) X(TAS) X(CLEAR)
enum Op : uint8_t {
#define X(n) OP_##n,
OP_LIST(X)
#undef X
OP_COUNT };
// clocks for WAITUNTIL
enum Clk { CK_STEADY, CK_SYSTEM, CK_MONO_TRAITS, CK_REAL_TRAITS_US, CK_PLAIN_MS, CK_BOOT_TRAITS, CK_COUNT };
enum { MONO_TRAITS_OFF_S = 100000, PLAIN_OFF_S = 50000 };  // those clocks' epochs lie this long after CLOCK_MONOTONIC's
struct OpDesc {
    uint8_t op, mo;            // mo: 0 seq_cst, 1 relaxed, 2 the strongest non-seq_cst
    uint8_t clk, unit;         // WAITUNTIL clock; WAITFOR unit (0 ns 1 us 2 ms 3 s 4 h, 5 int milliseconds, 6 int minutes)
    uint8_t cv;                // references: 1 through a volatile-qualified, 2 through a const-qualified (loads), 3 through a copy
    uint32_t bit; int64_t t;   // bit index / difference operand for pointers / time
    unsigned char a[MAXV];     // operand or desired value
    unsigned char b[MAXV];     // expected / old value
};
struct OpRes { unsigned char v[MAXV]; bool ok; bool tmo; };
struct TypeInfo {
    const char* name; uint8_t cls, flavor; uint16_t size, objsize, align; bool lockfree, natwait; uint16_t ptr_scale, nbits;
    unsigned char vmask[MAXV]; uint64_t ops; // ops: bit mask of Op
    void (*init)(void* mem, const unsigned char* v);
    void (*exec)(void* mem, const OpDesc* d, OpRes* r);
    uint32_t nops_storage;     // bytes of the object that operations may write
};
struct TypeTab { const TypeInfo* t; int n; TypeTab* next; };
extern "C" { extern TypeTab* g_types; int64_t sim_user_clock(int id) noexcept; void sim_user_changed(uint64_t was, uint64_t is) noexcept; }
