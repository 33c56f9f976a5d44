From d7c0001faf3a8052df61f3c5a781efd4264d6014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:13 +0000
Subject: [PATCH 1/8] fix: timed generic waits recheck the value after
 registering the waiter

wait_for/wait_until for lock-free types without native waiting loaded the
value before taking the internal lock only. A change and notification in
between was missed and the thread slept until its deadline.
---
 include/boost/atomic/detail/wait_ops_generic.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 7503d5c..916373c 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -93,6 +93,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             while (new_val == old_val)
             {
                 const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
@@ -128,6 +129,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             const timespec abs_timeout(posix_clock_traits< Clock >::to_timespec(timeout));
             if (BOOST_LIKELY(abs_timeout.tv_sec >= 0))
             {
-- 
2.43.0


From 4e24dc0603b0d4e6beb24ace6e17bd6b6dff89dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:47 +0000
Subject: [PATCH 2/8] fix: emulated timed waits on kernels without
 FUTEX_WAIT_BITSET

wait_state::wait_until treated ENOSYS like a notification, so the wait was
repeated in a busy loop for ever, even after the timeout. Fall back to the
relative timeout, as wait_ops_futex.hpp does.
---
 src/lock_pool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lock_pool.cpp b/src/lock_pool.cpp
index fe477e3..cec3f01 100644
--- a/src/lock_pool.cpp
+++ b/src/lock_pool.cpp
@@ -706,6 +706,9 @@ inline bool wait_state::wait_until(lock_state& state, clockid_t clock_id, timesp
                 err = errno;
                 if (BOOST_LIKELY(err != EINTR))
                 {
+                    if (BOOST_UNLIKELY(err == ENOSYS))
+                        goto use_relative_timeout;
+
                     timed_out = err == ETIMEDOUT;
                     break;
                 }
@@ -714,6 +717,8 @@ inline bool wait_state::wait_until(lock_state& state, clockid_t clock_id, timesp
         while (futex_operations::load(m_cond, boost::memory_order_relaxed) == prev_cond);
 
         goto finish;
+
+    use_relative_timeout:; // the kernel does not support absolute timeouts
     }
 
 #endif // defined(BOOST_ATOMIC_DETAIL_FUTEX_WAIT_BITSET) && ...
-- 
2.43.0


From 3adfcc37369a620802f793a8b78873adcd11885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:46 +0000
Subject: [PATCH 3/8] fix: release the empty wait state list buffer when a wait
 state allocation fails after the pool cleanup

---
 src/lock_pool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lock_pool.cpp b/src/lock_pool.cpp
index cec3f01..e773b91 100644
--- a/src/lock_pool.cpp
+++ b/src/lock_pool.cpp
@@ -1018,7 +1018,12 @@ inline wait_state* wait_state_list::find_or_create(const volatile void* addr) no
     {
         w = new (std::nothrow) wait_state(index);
         if (BOOST_UNLIKELY(w == nullptr))
+        {
+            // The pool cleanup has already run, make sure we don't leave an empty buffer behind
+            if (BOOST_UNLIKELY(m_free_memory))
+                free_spare();
             return nullptr;
+        }
         *pw = w;
     }
 
-- 
2.43.0


From 3d82de1a47a16b1c4ed9738d5589bd32f7483cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:40 +0000
Subject: [PATCH 4/8] fix: 128-bit compare_exchange on AArch64 must not return
 a torn value

A load-exclusive pair is only single-copy atomic if the paired store-exclusive
succeeds. When the comparison failed no store was performed, so the value
returned in expected could be a mixture of two stored values.
---
 .../detail/core_arch_ops_gcc_aarch64.hpp      | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp b/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
index c249d60..1b2516f 100644
--- a/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
+++ b/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
@@ -1801,20 +1801,25 @@ struct core_arch_operations< 16u, Signed, Interprocess > :
         storage_union original;
         storage_union e = { expected };
         storage_union d = { desired };
+        storage_union result;
         bool success;
 
+        // The store must be performed even if the comparison fails, as otherwise the original value may be torn
 #define BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN(ld_mo, st_mo)\
         __asm__ __volatile__\
         (\
-            "mov %w[success], #0\n\t"\
+            "1:\n\t"\
             "ld" ld_mo "xp %x[original_0], %x[original_1], %[storage]\n\t"\
             "cmp %x[original_0], %x[expected_0]\n\t"\
             "ccmp %x[original_1], %x[expected_1], #0, eq\n\t"\
-            "b.ne 1f\n\t"\
-            "st" st_mo "xp %w[success], %x[desired_0], %x[desired_1], %[storage]\n\t"\
-            "eor %w[success], %w[success], #1\n\t"\
-            "1:\n\t"\
-            : [success] "=&r" (success), [storage] "+Q" (storage), [original_0] "=&r" (original.as_uint64[0u]), [original_1] "=&r" (original.as_uint64[1u])\
+            "csel %x[result_0], %x[desired_0], %x[original_0], eq\n\t"\
+            "csel %x[result_1], %x[desired_1], %x[original_1], eq\n\t"\
+            "st" st_mo "xp %w[success], %x[result_0], %x[result_1], %[storage]\n\t"\
+            "cbnz %w[success], 1b\n\t"\
+            "cset %w[success], eq\n\t"\
+            : [success] "=&r" (success), [storage] "+Q" (storage),\
+              [original_0] "=&r" (original.as_uint64[0u]), [original_1] "=&r" (original.as_uint64[1u]),\
+              [result_0] "=&r" (result.as_uint64[0u]), [result_1] "=&r" (result.as_uint64[1u])\
             : [desired_0] "r" (d.as_uint64[0u]), [desired_1] "r" (d.as_uint64[1u]), [expected_0] "r" (e.as_uint64[0u]), [expected_1] "r" (e.as_uint64[1u])\
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
@@ -1835,8 +1840,10 @@ struct core_arch_operations< 16u, Signed, Interprocess > :
         storage_union original;
         storage_union e = { expected };
         storage_union d = { desired };
+        storage_union result;
         bool success;
 
+        // The store must be performed even if the comparison fails, as otherwise the original value may be torn
 #define BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN(ld_mo, st_mo)\
         __asm__ __volatile__\
         (\
@@ -1844,12 +1851,14 @@ struct core_arch_operations< 16u, Signed, Interprocess > :
             "ld" ld_mo "xp %x[original_0], %x[original_1], %[storage]\n\t"\
             "cmp %x[original_0], %x[expected_0]\n\t"\
             "ccmp %x[original_1], %x[expected_1], #0, eq\n\t"\
-            "b.ne 2f\n\t"\
-            "st" st_mo "xp %w[success], %x[desired_0], %x[desired_1], %[storage]\n\t"\
+            "csel %x[result_0], %x[desired_0], %x[original_0], eq\n\t"\
+            "csel %x[result_1], %x[desired_1], %x[original_1], eq\n\t"\
+            "st" st_mo "xp %w[success], %x[result_0], %x[result_1], %[storage]\n\t"\
             "cbnz %w[success], 1b\n\t"\
-            "2:\n\t"\
             "cset %w[success], eq\n\t"\
-            : [success] "=&r" (success), [storage] "+Q" (storage), [original_0] "=&r" (original.as_uint64[0u]), [original_1] "=&r" (original.as_uint64[1u])\
+            : [success] "=&r" (success), [storage] "+Q" (storage),\
+              [original_0] "=&r" (original.as_uint64[0u]), [original_1] "=&r" (original.as_uint64[1u]),\
+              [result_0] "=&r" (result.as_uint64[0u]), [result_1] "=&r" (result.as_uint64[1u])\
             : [desired_0] "r" (d.as_uint64[0u]), [desired_1] "r" (d.as_uint64[1u]), [expected_0] "r" (e.as_uint64[0u]), [expected_1] "r" (e.as_uint64[1u])\
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
-- 
2.43.0


From 964ecf76819669b6d8c23dfca9cf54c028e368c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:39 +0000
Subject: [PATCH 5/8] fix: compare_exchange on AArch64 and AArch32 must honour
 an acquire failure order after a release success order

With memory_order_release as the success order the instructions were selected for
release alone, so a failed compare_exchange with an acquire failure order performed
a plain exclusive load and did not synchronize with the store it read from.
---
 .../detail/core_arch_ops_gcc_aarch32.hpp      | 22 +++++----
 .../detail/core_arch_ops_gcc_aarch64.hpp      | 47 +++++++++++--------
 2 files changed, 41 insertions(+), 28 deletions(-)

diff --git a/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp b/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp
index 8eae197..a413e2c 100644
--- a/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp
+++ b/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp
@@ -47,6 +47,12 @@ struct core_arch_operations_gcc_aarch32_base
 {
     static constexpr bool full_cas_based = false;
     static constexpr bool is_always_lock_free = true;
+
+    //! Selects memory order to apply in compare_exchange operations
+    static BOOST_FORCEINLINE constexpr memory_order cas_memory_order(memory_order success_order, memory_order failure_order) noexcept
+    {
+        return (success_order == memory_order_release && failure_order != memory_order_relaxed) ? memory_order_acq_rel : success_order;
+    }
 };
 
 template< bool Signed, bool Interprocess >
@@ -148,7 +154,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
@@ -181,7 +187,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
@@ -430,7 +436,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
@@ -463,7 +469,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
@@ -711,7 +717,7 @@ struct core_arch_operations< 4u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
@@ -743,7 +749,7 @@ struct core_arch_operations< 4u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
@@ -1030,7 +1036,7 @@ struct core_arch_operations< 8u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
@@ -1064,7 +1070,7 @@ struct core_arch_operations< 8u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH32_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH32_MO_INSN
 
         expected = original;
diff --git a/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp b/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
index 1b2516f..a172264 100644
--- a/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
+++ b/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
@@ -36,14 +36,21 @@ struct core_arch_operations_gcc_aarch64_base
 {
     static constexpr bool full_cas_based = false;
     static constexpr bool is_always_lock_free = true;
+
+    //! Selects memory order to apply in compare_exchange operations
+    static BOOST_FORCEINLINE constexpr memory_order cas_memory_order(memory_order success_order, memory_order failure_order) noexcept
+    {
+        return (success_order == memory_order_release && failure_order != memory_order_relaxed) ? memory_order_acq_rel : success_order;
+    }
 };
 
 // Due to bug https://gcc.gnu.org/bugzilla/show_bug.cgi?id=63359 we have to explicitly specify size of the registers
 // to use in the asm blocks below. Use %w prefix for the 32-bit registers and %x for 64-bit ones.
 
 // A note about compare_exchange implementations. Since failure_order must never include release semantics and
-// must not be stronger than success_order, we can always use success_order to select instructions. Thus, when
-// CAS fails, only the acquire semantics of success_order is applied, which may be stronger than failure_order.
+// must not be stronger than success_order, we can always use success_order to select instructions, unless it is
+// memory_order_release and failure_order includes acquire semantics. Thus, when CAS fails, only the acquire semantics
+// of the selected order is applied, which may be stronger than failure_order.
 
 template< bool Signed, bool Interprocess >
 struct core_arch_operations< 1u, Signed, Interprocess > :
@@ -165,7 +172,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -186,7 +193,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -213,7 +220,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -235,7 +242,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -571,7 +578,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -592,7 +599,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -619,7 +626,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -641,7 +648,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -977,7 +984,7 @@ struct core_arch_operations< 4u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -997,7 +1004,7 @@ struct core_arch_operations< 4u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -1024,7 +1031,7 @@ struct core_arch_operations< 4u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -1045,7 +1052,7 @@ struct core_arch_operations< 4u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -1381,7 +1388,7 @@ struct core_arch_operations< 8u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -1401,7 +1408,7 @@ struct core_arch_operations< 8u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -1428,7 +1435,7 @@ struct core_arch_operations< 8u, Signed, Interprocess > :
             : "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
         bool success = original == expected;
 #else
         bool success;
@@ -1449,7 +1456,7 @@ struct core_arch_operations< 8u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #endif
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
@@ -1824,7 +1831,7 @@ struct core_arch_operations< 16u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
         expected = original.as_storage;
@@ -1863,7 +1870,7 @@ struct core_arch_operations< 16u, Signed, Interprocess > :
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
-        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(success_order)
+        BOOST_ATOMIC_DETAIL_AARCH64_MO_SWITCH(cas_memory_order(success_order, failure_order))
 #undef BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN
 
         expected = original.as_storage;
-- 
2.43.0


From 6356aea7f9c9a942adfa6e789b087b700e7c133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:18 +0000
Subject: [PATCH 6/8] fix: compare_exchange on AArch64 and AArch32 must not
 modify the register of an input operand

The 8 and 16-bit compare_exchange zero-extended expected in place although it was declared
an input operand. If the compiler took it from a wider variable that is still in use,
the upper bits of that variable were lost.
---
 .../atomic/detail/core_arch_ops_gcc_aarch32.hpp  | 16 ++++++++--------
 .../atomic/detail/core_arch_ops_gcc_aarch64.hpp  | 12 ++++--------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp b/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp
index a413e2c..c81db8e 100644
--- a/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp
+++ b/include/boost/atomic/detail/core_arch_ops_gcc_aarch32.hpp
@@ -149,8 +149,8 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             "st" st_mo "exb %[success], %[desired], %[storage]\n\t"\
             "eor %[success], %[success], #1\n\t"\
             "1:\n\t"\
-            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage)\
-            : [expected] "r" (expected), [desired] "r" (desired)\
+            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage), [expected] "+&r" (expected)\
+            : [desired] "r" (desired)\
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
@@ -182,8 +182,8 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             "eors %[success], %[success], #1\n\t"\
             "beq 1b\n\t"\
             "2:\n\t"\
-            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage)\
-            : [expected] "r" (expected), [desired] "r" (desired)\
+            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage), [expected] "+&r" (expected)\
+            : [desired] "r" (desired)\
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
@@ -431,8 +431,8 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             "st" st_mo "exh %[success], %[desired], %[storage]\n\t"\
             "eor %[success], %[success], #1\n\t"\
             "1:\n\t"\
-            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage)\
-            : [expected] "r" (expected), [desired] "r" (desired)\
+            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage), [expected] "+&r" (expected)\
+            : [desired] "r" (desired)\
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
@@ -464,8 +464,8 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             "eors %[success], %[success], #1\n\t"\
             "beq 1b\n\t"\
             "2:\n\t"\
-            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage)\
-            : [expected] "r" (expected), [desired] "r" (desired)\
+            : [original] "=&r" (original), [success] "=&r" (success), [storage] "+Q" (storage), [expected] "+&r" (expected)\
+            : [desired] "r" (desired)\
             : BOOST_ATOMIC_DETAIL_ASM_CLOBBER_CC_COMMA "memory"\
         );
 
diff --git a/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp b/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
index a172264..ecaae25 100644
--- a/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
+++ b/include/boost/atomic/detail/core_arch_ops_gcc_aarch64.hpp
@@ -180,10 +180,9 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
 #define BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN(ld_mo, st_mo)\
         __asm__ __volatile__\
         (\
-            "uxtb %w[expected], %w[expected]\n\t"\
             "mov %w[success], #0\n\t"\
             "ld" ld_mo "xrb %w[original], %[storage]\n\t"\
-            "cmp %w[original], %w[expected]\n\t"\
+            "cmp %w[original], %w[expected], uxtb\n\t"\
             "b.ne 1f\n\t"\
             "st" st_mo "xrb %w[success], %w[desired], %[storage]\n\t"\
             "eor %w[success], %w[success], #1\n\t"\
@@ -228,10 +227,9 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
 #define BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN(ld_mo, st_mo)\
         __asm__ __volatile__\
         (\
-            "uxtb %w[expected], %w[expected]\n\t"\
             "1:\n\t"\
             "ld" ld_mo "xrb %w[original], %[storage]\n\t"\
-            "cmp %w[original], %w[expected]\n\t"\
+            "cmp %w[original], %w[expected], uxtb\n\t"\
             "b.ne 2f\n\t"\
             "st" st_mo "xrb %w[success], %w[desired], %[storage]\n\t"\
             "cbnz %w[success], 1b\n\t"\
@@ -586,10 +584,9 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
 #define BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN(ld_mo, st_mo)\
         __asm__ __volatile__\
         (\
-            "uxth %w[expected], %w[expected]\n\t"\
             "mov %w[success], #0\n\t"\
             "ld" ld_mo "xrh %w[original], %[storage]\n\t"\
-            "cmp %w[original], %w[expected]\n\t"\
+            "cmp %w[original], %w[expected], uxth\n\t"\
             "b.ne 1f\n\t"\
             "st" st_mo "xrh %w[success], %w[desired], %[storage]\n\t"\
             "eor %w[success], %w[success], #1\n\t"\
@@ -634,10 +631,9 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
 #define BOOST_ATOMIC_DETAIL_AARCH64_MO_INSN(ld_mo, st_mo)\
         __asm__ __volatile__\
         (\
-            "uxth %w[expected], %w[expected]\n\t"\
             "1:\n\t"\
             "ld" ld_mo "xrh %w[original], %[storage]\n\t"\
-            "cmp %w[original], %w[expected]\n\t"\
+            "cmp %w[original], %w[expected], uxth\n\t"\
             "b.ne 2f\n\t"\
             "st" st_mo "xrh %w[success], %w[desired], %[storage]\n\t"\
             "cbnz %w[success], 1b\n\t"\
-- 
2.43.0


From aa317c1eb78e8ad7b95e0f9f41e0bdbe2958c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:28 +0000
Subject: [PATCH 7/8] fix: 8- and 16-bit compare_exchange on PowerPC must
 compare zero-extended expected value

lbarx and lharx zero-extend the loaded value and cmpw compares 32 bits, but the upper bits of a register holding an
8- or 16-bit asm operand are unspecified. A compare-exchange with the correct expected value could fail forever.
---
 include/boost/atomic/detail/core_arch_ops_gcc_ppc.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/atomic/detail/core_arch_ops_gcc_ppc.hpp b/include/boost/atomic/detail/core_arch_ops_gcc_ppc.hpp
index d1ea947..22bcbd4 100644
--- a/include/boost/atomic/detail/core_arch_ops_gcc_ppc.hpp
+++ b/include/boost/atomic/detail/core_arch_ops_gcc_ppc.hpp
@@ -433,7 +433,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             "li %1, 1\n\t"
             BOOST_ATOMIC_DETAIL_PPC_ASM_LABEL("1")
             : "=&b" (expected), "=&b" (success), "+Z" (storage)
-            : "b" (expected), "b" (desired)
+            : "b" (static_cast< unsigned int >(expected)), "b" (desired)
             : "cr0"
         );
         if (success)
@@ -467,7 +467,7 @@ struct core_arch_operations< 1u, Signed, Interprocess > :
             "li %1, 1\n\t"
             BOOST_ATOMIC_DETAIL_PPC_ASM_LABEL("1")
             : "=&b" (expected), "=&b" (success), "+Z" (storage)
-            : "b" (expected), "b" (desired)
+            : "b" (static_cast< unsigned int >(expected)), "b" (desired)
             : "cr0"
         );
         if (success)
@@ -801,7 +801,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             "li %1, 1\n\t"
             BOOST_ATOMIC_DETAIL_PPC_ASM_LABEL("1")
             : "=&b" (expected), "=&b" (success), "+Z" (storage)
-            : "b" (expected), "b" (desired)
+            : "b" (static_cast< unsigned int >(expected)), "b" (desired)
             : "cr0"
         );
         if (success)
@@ -835,7 +835,7 @@ struct core_arch_operations< 2u, Signed, Interprocess > :
             "li %1, 1\n\t"
             BOOST_ATOMIC_DETAIL_PPC_ASM_LABEL("1")
             : "=&b" (expected), "=&b" (success), "+Z" (storage)
-            : "b" (expected), "b" (desired)
+            : "b" (static_cast< unsigned int >(expected)), "b" (desired)
             : "cr0"
         );
         if (success)
-- 
2.43.0


From 84cf5a3dd2cbffa16c2097b5d2df036e7f8756b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:28 +0000
Subject: [PATCH 8/8] fix: extra operations on integers and enums narrower than
 their storage must keep the storage extended

Where 8- and 16-bit atomics are kept in 32-bit storage (e.g. PowerPC before lbarx), extra operations were selected by the
storage size, so negate and complement left bits above the value set and *_and_test considered them. Subsequent
compare-exchange operations with the correct expected value failed. Select the operations by the value size.
---
 include/boost/atomic/detail/atomic_impl.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/atomic/detail/atomic_impl.hpp b/include/boost/atomic/detail/atomic_impl.hpp
index c662426..e46b37a 100644
--- a/include/boost/atomic/detail/atomic_impl.hpp
+++ b/include/boost/atomic/detail/atomic_impl.hpp
@@ -362,7 +362,12 @@ public:
 protected:
     using core_operations = typename base_type::core_operations;
     using wait_operations = typename base_type::wait_operations;
-    using extra_operations = atomics::detail::extra_operations< core_operations >;
+    // Note: The storage may be larger than the value, in which case it keeps the value sign- or zero-extended, depending on the underlying type
+    using extra_operations = atomics::detail::extra_operations<
+        core_operations,
+        sizeof(value_type),
+        atomics::detail::is_signed< typename std::underlying_type< value_type >::type >::value
+    >;
     using storage_type = typename base_type::storage_type;
     using value_arg_type = typename base_type::value_arg_type;
 
@@ -635,7 +640,8 @@ public:
 protected:
     using core_operations = typename base_type::core_operations;
     using wait_operations = typename base_type::wait_operations;
-    using extra_operations = atomics::detail::extra_operations< core_operations >;
+    // Note: The storage may be larger than the value, in which case it keeps the value sign- or zero-extended
+    using extra_operations = atomics::detail::extra_operations< core_operations, sizeof(value_type) >;
     using storage_type = typename base_type::storage_type;
     using value_arg_type = value_type;
 
-- 
2.43.0

