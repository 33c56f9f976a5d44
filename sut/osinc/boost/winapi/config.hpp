// The parts of Boost.WinAPI that Boost.Atomic uses, with the types as wide as they are on Windows.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
struct sim_srw { void* p; };
struct sim_cv { void* p; };
int32_t WaitOnAddress(volatile void* addr, void* cmp, size_t size, uint32_t ms);
void WakeByAddressSingle(void* addr);
void WakeByAddressAll(void* addr);
void AcquireSRWLockExclusive(sim_srw* l);
void ReleaseSRWLockExclusive(sim_srw* l);
uint8_t TryAcquireSRWLockExclusive(sim_srw* l);
void InitializeConditionVariable(sim_cv* c);
void WakeConditionVariable(sim_cv* c);
void WakeAllConditionVariable(sim_cv* c);
int32_t SleepConditionVariableSRW(sim_cv* c, sim_srw* l, uint32_t ms, uint32_t flags);
uint32_t GetLastError();
int32_t SwitchToThread();
void Sleep(uint32_t ms);
}
#define BOOST_WINAPI_SRWLOCK_INIT { nullptr }
#define BOOST_WINAPI_CONDITION_VARIABLE_INIT { nullptr }
namespace boost { namespace winapi {
using DWORD_ = uint32_t; using BOOL_ = int32_t; using SRWLOCK_ = sim_srw; using CONDITION_VARIABLE_ = sim_cv;
using ::WaitOnAddress; using ::WakeByAddressSingle; using ::WakeByAddressAll; using ::AcquireSRWLockExclusive; using ::ReleaseSRWLockExclusive; using ::TryAcquireSRWLockExclusive;
using ::InitializeConditionVariable; using ::WakeConditionVariable; using ::WakeAllConditionVariable; using ::SleepConditionVariableSRW; using ::GetLastError; using ::SwitchToThread; using ::Sleep;
const DWORD_ infinite = 0xFFFFFFFFu;
const DWORD_ max_non_infinite_wait = 0xFFFFFFFEu;
const DWORD_ ERROR_TIMEOUT_ = 1460;
} }
