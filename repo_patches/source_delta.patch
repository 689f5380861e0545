From 39bc84fbd83d91ca24335b4aff097863e5ca1803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 01/12] fix: wake readers when a timed writer gives up on a
 WriterPrefer shared mutex

A writer that timed out stopped being a waiting writer without telling the
readers that slept only because of it; they kept sleeping although the mutex
was available to them.
---
 include/alternate_shared_mutex.hpp | 1 +
 include/checked_shared_mutex.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/alternate_shared_mutex.hpp b/include/alternate_shared_mutex.hpp
index 64b79e4..6979e3e 100644
--- a/include/alternate_shared_mutex.hpp
+++ b/include/alternate_shared_mutex.hpp
@@ -152,6 +152,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // readers may have been waiting for this writer
         return false;
       }
     }
diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 4362520..b6ce87c 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -301,6 +301,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // readers may have been waiting for this writer
         return false;
       }
     }
-- 
2.43.0


From 255d1c6c34c5021459e2ae3218d4ce1ea62633a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 02/12] fix: forget the request that was refused because of a
 deadlock

The validator left the refused thread in the list of waiters, so that later
acquisitions were reported as deadlocks by mistake (or the search for a cycle
never ended).
---
 include/yamc_lock_validator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index 008d74e..0964fbd 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -162,6 +162,7 @@ public:
         << " " << (shared ? "shared-lock" : "lock") << '\n';
       dump_mutexmap(std::cout, table.mutexmap);
       std::cout << "==== DEADLOCK DETECTED ====" << std::endl;
+      remove_elem(table.mutexmap[mkey].waiters, tid);
       return false;
     }
 #if YAMC_CHECK_VERBOSE
-- 
2.43.0


From 3ecba1954f1f0cd51f255507ecf3467b6ed6ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 03/12] fix: a writer refused because of a deadlock no longer
 waits

With WriterPrefer the refused writer stayed counted as a waiting writer, which
locked out all readers for ever.
---
 include/checked_shared_mutex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index b6ce87c..62c9476 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -117,6 +117,8 @@ protected:
 #if YAMC_CHECKED_CALL_ABORT
         std::abort();
 #else
+        RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // readers may have been waiting for this writer
         throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "deadlock");
 #endif
       }
-- 
2.43.0


From 24db9ff2b87b5b4d655d77bd789cb858c8b6b887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 04/12] fix: barrier::arrive_and_drop lowers the expected count
 for every caller

Only the last arrival of a phase lowered the expected count; a participant
that dropped out earlier was still waited for in all later phases.
---
 include/yamc_barrier.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index 135d717..0e950ec 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -66,12 +66,9 @@ class barrier {
   mutable std::condition_variable cv_;
   mutable std::mutex mtx_;
 
-  void phase_completion_step(bool drop)
+  void phase_completion_step()
   {
     completion_();
-    if (drop) {
-      --init_count_;
-    }
     counter_ = init_count_;
     ++phase_;
     cv_.notify_all();
@@ -108,7 +105,7 @@ public:
     arrival_token token{phase_};
     counter_ -= update;
     if (counter_ == 0) {
-      phase_completion_step(false);
+      phase_completion_step();
     }
     return token;
   }
@@ -129,7 +126,7 @@ public:
     auto arrival_phase = phase_;
     counter_ -= 1;
     if (counter_ == 0) {
-      phase_completion_step(false);
+      phase_completion_step();
     }
     while (phase_ <= arrival_phase) {
       cv_.wait(lk);
@@ -141,9 +138,10 @@ public:
     std::unique_lock<decltype(mtx_)> lk(mtx_);
     assert(0 < counter_);
     auto arrival_phase = phase_;
+    --init_count_;  // expected count for all subsequent phases
     counter_ -= 1;
     if (counter_ == 0) {
-      phase_completion_step(true);
+      phase_completion_step();
     }
     while (phase_ <= arrival_phase) {
       cv_.wait(lk);
-- 
2.43.0


From bd5d2a87ee18dcdccceb8d26d1bb3ad04cb4af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 05/12] fix: barrier waits survive the wrap-around of the phase
 counter

A waiter of phase UINT_MAX compared as if its phase had never been completed.
---
 include/yamc_barrier.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index 0e950ec..ce6d6bb 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -113,7 +113,7 @@ public:
   void wait(arrival_token&& arrival) const
   {
     std::unique_lock<decltype(mtx_)> lk(mtx_);
-    while (phase_ <= arrival.phase_) {
+    while (phase_ == arrival.phase_) {
       cv_.wait(lk);
     }
   }
@@ -128,7 +128,7 @@ public:
     if (counter_ == 0) {
       phase_completion_step();
     }
-    while (phase_ <= arrival_phase) {
+    while (phase_ == arrival_phase) {
       cv_.wait(lk);
     }
   }
@@ -143,7 +143,7 @@ public:
     if (counter_ == 0) {
       phase_completion_step();
     }
-    while (phase_ <= arrival_phase) {
+    while (phase_ == arrival_phase) {
       cv_.wait(lk);
     }
   }
-- 
2.43.0


From 5be2dcc277712d1edf4c5f3274a82cb7b4a54ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 06/12] fix: POSIX semaphore waits are not disturbed by signals
 or deadlines before the epoch

acquire and the timed acquisitions threw EINTR when a signal handler ran, and
EINVAL when the deadline was before the epoch of system_clock.
---
 include/posix_semaphore.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index 4775445..0f3fa77 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -87,14 +87,21 @@ class counting_semaphore {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (tp < system_clock::time_point{}) {
+      // time point before the epoch is not a valid struct timespec
+      abs_timeout.tv_sec = 0;
+      abs_timeout.tv_nsec = 0;
+    }
 
     errno = 0;
-    if (::sem_timedwait(&sem_, &abs_timeout) == 0) {
-      return true;
-    } else if (errno != ETIMEDOUT) {
-      throw_errno("sem_timedwait");
+    while (::sem_timedwait(&sem_, &abs_timeout) != 0) {
+      if (errno == ETIMEDOUT) {
+        return false;
+      } else if (errno != EINTR) {
+        throw_errno("sem_timedwait");
+      }
     }
-    return false;
+    return true;
   }
 
 public:
@@ -133,8 +140,10 @@ public:
   void acquire()
   {
     errno = 0;
-    if (::sem_wait(&sem_) != 0) {
-      throw_errno("sem_wait");
+    while (::sem_wait(&sem_) != 0) {
+      if (errno != EINTR) {
+        throw_errno("sem_wait");
+      }
     }
   }
 
-- 
2.43.0


From 74adb97fc7e50597b5c9736feaf034aac2445caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 07/12] fix: shared_lock::unlock without a mutex throws also in
 debug builds

The assertion fired before the documented operation_not_permitted.
---
 include/yamc_shared_lock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yamc_shared_lock.hpp b/include/yamc_shared_lock.hpp
index 229fd15..77a738e 100644
--- a/include/yamc_shared_lock.hpp
+++ b/include/yamc_shared_lock.hpp
@@ -159,10 +159,10 @@ public:
 
   void unlock()
   {
-    assert(pm_ != nullptr);
     if (!owns_) {
       throw std::system_error(std::make_error_code(std::errc::operation_not_permitted), "shared_lock::unlock");
     }
+    assert(pm_ != nullptr);
     pm_->unlock_shared();
     owns_ = false;
   }
-- 
2.43.0


From cde0bf266b6e3b3145b47c0e8141c7a1cfa36a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:58 +0000
Subject: [PATCH 08/12] fix: threads that were woken no longer count as waiting
 in deadlock detection

---
 include/checked_shared_mutex.hpp |  2 ++
 include/yamc_lock_validator.hpp  | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 62c9476..40e52b9 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -118,6 +118,7 @@ protected:
         std::abort();
 #else
         RwLockPolicy::after_wait_wlock(state_);
+        validator::notified(reinterpret_cast<uintptr_t>(this));
         cv_.notify_all();  // readers may have been waiting for this writer
         throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "deadlock");
 #endif
@@ -303,6 +304,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        detail::validator::notified(reinterpret_cast<uintptr_t>(this));
         cv_.notify_all();  // readers may have been waiting for this writer
         return false;
       }
diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index 0964fbd..140b9a3 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -142,7 +142,12 @@ public:
   static void unlocked(uintptr_t mkey, std::thread::id tid, bool shared)
   {
     auto&& table = global_table();
-    remove_elem(table.mutexmap[mkey].owners, tid);
+    auto& e = table.mutexmap[mkey];
+    remove_elem(e.owners, tid);
+    if (e.owners.empty()) {
+      // nobody waits for available mutex; notified threads will enqueue again if necessary
+      e.waiters.clear();
+    }
 #if YAMC_CHECK_VERBOSE
     std::cout << "Thread#" << tid << " released Mutex#" << table.mutexmap[mkey].mid
       << " " << (shared ? "shared-lock" : "lock") << '\n';
@@ -178,6 +183,13 @@ public:
     auto&& table = global_table();
     remove_elem(table.mutexmap[mkey].waiters, tid);
   }
+
+  static void notified(uintptr_t mkey)
+  {
+    // notified threads will enqueue again if necessary
+    auto&& table = global_table();
+    table.mutexmap[mkey].waiters.clear();
+  }
 };
 
 
@@ -189,6 +201,7 @@ public:
   static void unlocked(uintptr_t, std::thread::id, bool) {}
   static bool enqueue(uintptr_t, std::thread::id, bool) { return true; }
   static void dequeue(uintptr_t, std::thread::id) {}
+  static void notified(uintptr_t) {}
 };
 
 
-- 
2.43.0


From bd8f71b275d77485251c21dfcca7c38be6e130a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 09/12] fix: Windows timed operations with a timeout in the
 past or beyond the range of DWORD

---
 include/win_native_mutex.hpp | 10 ++++++++--
 include/win_semaphore.hpp    | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index 85d8990..4e98537 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -68,8 +68,14 @@ class native_mutex {
   {
     using namespace std::chrono;
     // round up timeout to milliseconds precision
-    DWORD timeout_in_msec = static_cast<DWORD>(duration_cast<milliseconds>(timeout + nanoseconds{999999}).count());
-    DWORD result = ::WaitForSingleObject(hmtx_, timeout_in_msec);
+    auto rest_in_msec = duration_cast<milliseconds>(timeout + nanoseconds{999999}).count();
+    DWORD timeout_in_msec, result;
+    do {
+      // expired timeout means no wait, and single wait shall be shorter than INFINITE
+      timeout_in_msec = (rest_in_msec <= 0) ? 0 : (rest_in_msec < INFINITE) ? static_cast<DWORD>(rest_in_msec) : INFINITE - 1;
+      rest_in_msec -= timeout_in_msec;
+      result = ::WaitForSingleObject(hmtx_, timeout_in_msec);
+    } while (result == WAIT_TIMEOUT && 0 < rest_in_msec);
 #if YAMC_WIN_ACCURATE_TIMEOUT
     if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
       // Win32 wait functions will return early than specified timeout interval by design.
diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index c70550b..0198f3e 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -71,8 +71,14 @@ class counting_semaphore {
   {
     using namespace std::chrono;
     // round up timeout to milliseconds precision
-    DWORD timeout_in_msec = static_cast<DWORD>(duration_cast<milliseconds>(timeout + nanoseconds{999999}).count());
-    DWORD result = ::WaitForSingleObject(hsem_, timeout_in_msec);
+    auto rest_in_msec = duration_cast<milliseconds>(timeout + nanoseconds{999999}).count();
+    DWORD timeout_in_msec, result;
+    do {
+      // expired timeout means no wait, and single wait shall be shorter than INFINITE
+      timeout_in_msec = (rest_in_msec <= 0) ? 0 : (rest_in_msec < INFINITE) ? static_cast<DWORD>(rest_in_msec) : INFINITE - 1;
+      rest_in_msec -= timeout_in_msec;
+      result = ::WaitForSingleObject(hsem_, timeout_in_msec);
+    } while (result == WAIT_TIMEOUT && 0 < rest_in_msec);
 #if YAMC_WIN_ACCURATE_TIMEOUT
     if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
       // Win32 wait functions will return early than specified timeout interval by design.
-- 
2.43.0


From bf7e2f5b56c3207476df3635dc54c345b6095ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 10/12] fix: win::native_mutex::native_handle returns the
 handle itself

---
 include/win_native_mutex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index 4e98537..ed37a3d 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -148,7 +148,7 @@ public:
   using native_handle_type = ::HANDLE;
   native_handle_type native_handle()
   {
-    return &hmtx_;
+    return hmtx_;
   }
 };
 
-- 
2.43.0


From 6242119ed793889c742c340abfb8c6b529224b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 11/12] fix: win::counting_semaphore::release accepts zero

---
 include/win_semaphore.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index 0198f3e..0bc6aa9 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -127,6 +127,10 @@ public:
   void release(std::ptrdiff_t update = 1)
   {
     validate_native_handle("counting_semaphore::release");
+    if (update == 0) {
+      // ReleaseSemaphore() function rejects zero count.
+      return;
+    }
     BOOL result = ::ReleaseSemaphore(hsem_, (LONG)update, NULL);
     if (!result) {
       // [thread.mutex.requirements.mutex]
-- 
2.43.0


From da1e8d8e47edd432be7420f8253b5650e4cb0257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 12/12] fix: posix::rwlock timed locking with a deadline before
 the epoch

A negative tv_nsec made pthread_rwlock_timed{wr,rd}lock fail with EINVAL,
so try_lock_until and try_lock_shared_until returned false on a free lock.
---
 include/posix_native_mutex.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/posix_native_mutex.hpp b/include/posix_native_mutex.hpp
index 83314d7..99a957e 100644
--- a/include/posix_native_mutex.hpp
+++ b/include/posix_native_mutex.hpp
@@ -236,6 +236,11 @@ class rwlock {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (tp < system_clock::time_point{}) {
+      // time point before the epoch is not a valid struct timespec
+      abs_timeout.tv_sec = 0;
+      abs_timeout.tv_nsec = 0;
+    }
     return (::pthread_rwlock_timedwrlock(&rwlock_, &abs_timeout) == 0);
   }
 
@@ -245,6 +250,11 @@ class rwlock {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (tp < system_clock::time_point{}) {
+      // time point before the epoch is not a valid struct timespec
+      abs_timeout.tv_sec = 0;
+      abs_timeout.tv_nsec = 0;
+    }
     return (::pthread_rwlock_timedrdlock(&rwlock_, &abs_timeout) == 0);
   }
 #endif
-- 
2.43.0

