// Compiled programs that use an operation and ordinary data in one function, so that the compiler sees both.
#pragma once
#include "ops.h"
enum { NK = 8 };   // memory order forms: 0 default arguments, 1 release / acquire, 2 acq_rel, 3 relaxed with a fence; compare-exchange only: 4 single order release / acquire, 5 acq_rel with acquire on failure; 6 and 7 relaxed with a seq_cst / acq_rel fence
struct LExp { unsigned char v[MAXV]; bool ok; };
struct LArg { OpDesc d; int nexp; LExp exp[8]; uint32_t in[4], out[4]; bool res; };
typedef void (*LitFn)(LArg* a);
// Object and data are distinct named objects, so that the compiler knows that an access to one is not an access to the other.
struct LitType {
    const char* name;
    const LitFn (*prod)[NK];   // data[0] = in[0], data[1] = in[1] / in[2]; operation
    const LitFn (*cons)[NK];   // operation; if it gave one of the results: res, out[0] = d[0], out[1] = d[1]
    const LitFn (*hand)[NK];   // out[2] = d[0]; operation; operation; if the second gave one of the results: res, out[0] = d[0], out[1] = d[1]
    const LitFn (*sb)[2][2];   // [0 seq_cst, 1 relaxed with fence][which object first] operation on one object (ok, v: out as bytes in exp[0]), load of the other (exp[1])
    void (*const* crit)(void* flag, uint32_t* data, int n);   // flag only
    LitType* next;
};
enum { L_NCRIT = 7 };
extern "C" { extern LitType* g_lits; extern unsigned char lit_obj[64], lit_obj2[64]; extern uint32_t lit_data[16]; void lit_fence(int order); void lit_signal_thread(LArg*); void lit_signal_handler(LArg*); }
