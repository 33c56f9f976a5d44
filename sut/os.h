// Preincluded (-include) when the code under test is compiled as if for another operating system: the standard headers of
// this system first, then the macros by which Boost recognises the other one and the parts of its interface Boost.Atomic uses.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <climits>
#include <cerrno>
#include <new>
#include <limits>
#include <chrono>
#include <ratio>
#include <type_traits>
#include <utility>
#include <string>
#include <memory>
#include <functional>
#include <exception>
#include <typeinfo>
#include <iosfwd>
#if __cplusplus >= 201703L
#include <optional>
#endif
#if __cplusplus >= 202002L
#include <compare>
#include <version>
#endif
#include <assert.h>
#include <stdint.h>
#include <limits.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
#include <sys/types.h>
#include <sys/param.h>
#include <sys/syscall.h>
#include <immintrin.h>
#if !defined(SIM_CC_SYNC)
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#undef __unix__
#undef __unix
#undef unix
#undef __GLIBC__
#undef __GNU__
#endif
#if defined(SIM_OS_FREEBSD)         // value: __FreeBSD_version
#define __unix__ 1
#define __FreeBSD__ (SIM_OS_FREEBSD / 100000)
#define __FreeBSD_version SIM_OS_FREEBSD
#elif defined(SIM_OS_DRAGONFLY)
#define __unix__ 1
#define __DragonFly__ 1
extern "C" int umtx_sleep(volatile const int* ptr, int value, int timeout_us);
extern "C" int umtx_wakeup(volatile const int* ptr, int count);
#elif defined(SIM_OS_DARWIN)        // value: minimum version, as in the compiler's macro
#define __APPLE__ 1
#define __MACH__ 1
#define __ENVIRONMENT_MAC_OS_X_VERSION_MIN_REQUIRED__ SIM_OS_DARWIN
#elif defined(SIM_OS_OPENBSD)
#define __unix__ 1
#define __OpenBSD__ 1
#define OpenBSD SIM_OS_OPENBSD
extern "C" int futex(volatile uint32_t* uaddr, int op, int val, const struct timespec* timeout, volatile uint32_t* uaddr2)
#if SIM_OS_OPENBSD < 202111
    __asm__("sim_raw_futex_old")
#endif
    ;
#elif defined(SIM_OS_NETBSD)
#define __unix__ 1
#define __NetBSD__ 10
#define SYS___futex 166
#elif defined(SIM_OS_WINDOWS)
#define _WIN32 1
#define _WIN64 1
#endif
#if defined(SIM_CC_SYNC)            // an architecture and compiler with nothing but the __sync intrinsics
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#endif
