// OpenBSD and NetBSD <sys/futex.h>
#pragma once
#define FUTEX_WAIT 0
#define FUTEX_WAKE 1
#if defined(SIM_OS_OPENBSD)
#define FUTEX_REQUEUE 3
#define FUTEX_PRIVATE_FLAG 128
#define FUTEX_WAIT_PRIVATE (FUTEX_WAIT | FUTEX_PRIVATE_FLAG)
#else
#define FUTEX_REQUEUE 3
#define FUTEX_CMP_REQUEUE 4
#define FUTEX_WAIT_BITSET 9
#define FUTEX_WAKE_BITSET 10
#define FUTEX_PRIVATE_FLAG 128
#define FUTEX_CLOCK_REALTIME 256
#endif
