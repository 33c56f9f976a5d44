#include "litmus.h"
#include <boost/atomic/fences.hpp>
extern "C" __attribute__((noinline)) void lit_fence(int o) { switch (o) { case 0: boost::atomic_thread_fence(boost::memory_order_seq_cst); break; case 1: boost::atomic_thread_fence(boost::memory_order_acq_rel); break; case 2: boost::atomic_thread_fence(boost::memory_order_acquire); break; case 3: boost::atomic_thread_fence(boost::memory_order_release); break; case 4: boost::atomic_thread_fence(boost::memory_order_relaxed); break; } }
extern "C" { alignas(64) unsigned char lit_obj[64]; alignas(64) unsigned char lit_obj2[64]; uint32_t lit_data[16]; }
// A thread and a handler interrupting it: the thread publishes data[0] through f[0], the handler data[1] through f[1].
namespace { volatile uint32_t f_[2];
template<boost::memory_order R, boost::memory_order A> inline __attribute__((always_inline)) void thread_side(LArg* a) {
    uint32_t r0 = lit_data[1]; lit_data[0] = a->in[1] / a->in[2]; boost::atomic_signal_fence(R); f_[0] = 1;
    uint32_t v = f_[1]; boost::atomic_signal_fence(A); uint32_t r1 = lit_data[1]; a->out[0] = v; a->out[1] = r1; a->out[2] = r0; }
template<boost::memory_order R, boost::memory_order A> inline __attribute__((always_inline)) void handler_side(LArg* a) {
    uint32_t v = f_[0]; boost::atomic_signal_fence(A); uint32_t r = lit_data[0]; if (v) { lit_data[1] = a->in[0] / a->in[2]; boost::atomic_signal_fence(R); f_[1] = 1; } a->out[0] = v; a->out[1] = r; }
}
extern "C" __attribute__((noinline)) void lit_signal_thread(LArg* a) { using namespace boost; switch (a->in[3]) { case 0: thread_side<memory_order_release, memory_order_acquire>(a); break; case 1: thread_side<memory_order_acq_rel, memory_order_acq_rel>(a); break; default: thread_side<memory_order_seq_cst, memory_order_seq_cst>(a); } }
extern "C" __attribute__((noinline)) void lit_signal_handler(LArg* a) { using namespace boost; switch (a->in[3]) { case 0: handler_side<memory_order_release, memory_order_acquire>(a); break; case 1: handler_side<memory_order_acq_rel, memory_order_acq_rel>(a); break; default: handler_side<memory_order_seq_cst, memory_order_seq_cst>(a); } }
