// FreeBSD <sys/umtx.h>, as far as Boost.Atomic uses it
#pragma once
#include <time.h>
#define UMTX_OP_WAIT 2
#define UMTX_OP_WAKE 3
#if SIM_OS_FREEBSD >= 800000
#define UMTX_OP_WAIT_UINT 11
#define UMTX_OP_WAIT_UINT_PRIVATE 15
#define UMTX_OP_WAKE_PRIVATE 16
#endif
#if SIM_OS_FREEBSD >= 1000000
#define UMTX_ABSTIME 0x01
struct _umtx_time { struct timespec _timeout; uint32_t _flags; uint32_t _clockid; };
#endif
extern "C" int _umtx_op(void* obj, int op, unsigned long val, void* uaddr, void* uaddr2);
