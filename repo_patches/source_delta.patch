From bc6041e511b841cdcd05c0023c84ec150c07f3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 01/34] fix: publish the ready state of a yielded coroutine
 only after its context is saved

coroutine_context::yield() changed the status to READY before jumping away, so another thread
could resume the coroutine by its previous context while its stack was still in use.
---
 src/libcopp/coroutine/coroutine_context.cpp | 25 +++++++++------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/libcopp/coroutine/coroutine_context.cpp b/src/libcopp/coroutine/coroutine_context.cpp
index 4abd2f6..ecd6332 100755
--- a/src/libcopp/coroutine/coroutine_context.cpp
+++ b/src/libcopp/coroutine/coroutine_context.cpp
@@ -397,18 +397,19 @@ LIBCOPP_COPP_API int coroutine_context::start(void *priv_data) {
   jump_to(callee_, callee_stack_, callee_stack_, jump_data);
 #endif
 
-  // Move changing status to EN_CRS_EXITED is finished
-  if (check_flags(flag_type::EN_CFT_FINISHED)) {
-    // if in finished status, change it to exited
-    status_.store(status_type::EN_CRS_EXITED, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
-  }
-
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
   COPP_UNLIKELY_IF (unhandle_exception_) {
     std::swap(unhandled, unhandle_exception_);
   }
 #endif
 
+  // Only now the context of this coroutine is saved and its stack is no longer in use, so this is the first moment at
+  // which another thread may be allowed to resume it.
+  // Move changing status to EN_CRS_EXITED if finished
+  status_.store(
+      check_flags(flag_type::EN_CFT_FINISHED) ? status_type::EN_CRS_EXITED : status_type::EN_CRS_READY,
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
+
   return COPP_EC_SUCCESS;
 }
 
@@ -424,14 +425,10 @@ LIBCOPP_COPP_API int coroutine_context::yield(void **priv_data) LIBCOPP_MACRO_NO
     return COPP_EC_NOT_INITED;
   }
 
-  int from_status = status_type::EN_CRS_RUNNING;
-  int to_status = status_type::EN_CRS_READY;
-  if (check_flags(flag_type::EN_CFT_FINISHED)) {
-    to_status = status_type::EN_CRS_FINISHED;
-  }
-  if (false == status_.compare_exchange_strong(from_status, to_status,
-                                               LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acq_rel,
-                                               LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acquire)) {
+  // The status is changed by start() after the context of this coroutine is saved. If it's changed here, another thread
+  // may jump into this coroutine by the old context while the stack is still in use.
+  int from_status = status_.load(LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acquire);
+  if (status_type::EN_CRS_RUNNING != from_status) {
     switch (from_status) {
       case status_type::EN_CRS_INVALID:
         return COPP_EC_NOT_INITED;
-- 
2.43.0


From 81873350e53f538e11b1d70d1dcceee7bef28550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 02/34] fix: lock_holder move assignment must take the lock
 over from its source

Both holders kept owning the lock after a move assignment, so it was released twice.
---
 include/libcopp/utils/lock_holder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libcopp/utils/lock_holder.h b/include/libcopp/utils/lock_holder.h
index 4a4ebf7..96d09e4 100755
--- a/include/libcopp/utils/lock_holder.h
+++ b/include/libcopp/utils/lock_holder.h
@@ -96,6 +96,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY lock_holder {
     }
 
     lock_flag_ = other.lock_flag_;
+    other.lock_flag_ = nullptr;
     return *this;
   }
 
-- 
2.43.0


From 4b48e3157416fe67711e9e58946411b3716709ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 03/34] fix: stack_pool::clear must drop the stacks it gave
 back from the free list

---
 include/libcopp/stack/stack_pool.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index 374d1b8..4283200 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -301,6 +301,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
     for (typename std::list<stack_context>::iterator iter = free_list_.begin(); iter != free_list_.end(); ++iter) {
       alloc_.deallocate(*iter);
     }
+    free_list_.clear();
 
     LIBCOPP_UTIL_LOCK_ATOMIC_THREAD_FENCE(LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
   }
-- 
2.43.0


From ea1945e5c68213c3aa8ddd88c1a4d0497d47007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 04/34] fix: finish a waiting task before its action is
 destroyed when the last reference is dropped

---
 include/libcotask/task.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 7b87efc..399660d 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -784,6 +784,17 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     size_t left = --p->ref_count_;
     if (0 == left) {
+      // a waiting task must be finished while its action is still available and it's still referenced
+      EN_TASK_STATUS status = p->get_status();
+      if (status < EN_TS_DONE && status > EN_TS_CREATED) {
+        ++p->ref_count_;
+        p->kill(EN_TS_TIMEOUT);
+        left = --p->ref_count_;
+        if (0 != left) {
+          return;
+        }
+      }
+
       // save coroutine context first, make sure it's still available after destroy task
       using this_coroutine_type = typename task<TCO_MACRO>::coroutine_type;
       using this_coroutine_ptr_type = typename this_coroutine_type::ptr_type;
-- 
2.43.0


From e9fcc92988abeb1a23489bf53847d77da7420353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 05/34] fix: cancel and kill of a task that is already exiting
 must not finish it again

---
 include/libcotask/task.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 399660d..5af81a2 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -573,6 +573,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
         return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING;
       }
 
+      // already done, canceled or killed, it has been or is being notified by another call
+      COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+      }
+
       COPP_LIKELY_IF (_cas_status(from_status, EN_TS_CANCELED)) {
         break;
       }
@@ -602,6 +607,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     EN_TASK_STATUS from_status = get_status();
 
     do {
+      // already done, canceled or killed, it has been or is being notified by another call
+      COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+      }
+
       COPP_LIKELY_IF (_cas_status(from_status, status)) {
         break;
       }
-- 
2.43.0


From e2097c569f8117350d49254f82136efd277fba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:42 +0000
Subject: [PATCH 06/34] fix: task::next must check for the end of the task with
 its action lock held

---
 include/libcotask/task.h | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 5af81a2..e9c5076 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -234,24 +234,27 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       return ptr_type(this);
     }
 
-    // can not add next task when finished
-    if (is_exiting() || is_completed()) {
-      // run next task immedialy
-      EN_TASK_STATUS next_task_status = next_task->get_status();
-      if (EN_TS_CREATED == next_task_status) {
-        next_task->start(priv_data);
-      } else if (EN_TS_WAITING == next_task_status) {
-        next_task->resume(priv_data);
-      }
-      return next_task;
-    }
-
+    {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
-    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
-        inner_action_lock_);
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
 #endif
 
-    next_list_.member_list_.push_back(std::make_pair(next_task, priv_data));
+      // the status must be checked with the lock held, or this task may activate its next tasks just before the new one
+      // is appended, and the new one will never run
+      if (!is_exiting() && !is_completed()) {
+        next_list_.member_list_.push_back(std::make_pair(next_task, priv_data));
+        return next_task;
+      }
+    }
+
+    // can not add next task when finished, run next task immedialy
+    EN_TASK_STATUS next_task_status = next_task->get_status();
+    if (EN_TS_CREATED == next_task_status) {
+      next_task->start(priv_data);
+    } else if (EN_TS_WAITING == next_task_status) {
+      next_task->resume(priv_data);
+    }
     return next_task;
   }
 
-- 
2.43.0


From 6643192b991726ce7d40fbf86aa2cfddc5c9dc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:54 +0000
Subject: [PATCH 07/34] fix: uint64_id_allocator must not reuse sequences when
 the clock is moved backward

---
 src/libcopp/utils/uint64_id_allocator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libcopp/utils/uint64_id_allocator.cpp b/src/libcopp/utils/uint64_id_allocator.cpp
index b197308..f6d44f4 100644
--- a/src/libcopp/utils/uint64_id_allocator.cpp
+++ b/src/libcopp/utils/uint64_id_allocator.cpp
@@ -39,7 +39,12 @@ static uint64_t allocate_id_by_atomic() {
     if (0 == time_part || time_part != next_time_part) {
       uint64_t now_time = time_part;
       while (time_part == now_time) {
-        now_time = (static_cast<uint64_t>(time(nullptr)) & time_mask) - 1577836800;  // 2020-01-01 00:00:00+00:00 UTC
+        now_time = (static_cast<uint64_t>(time(nullptr)) - 1577836800) & time_mask;  // 2020-01-01 00:00:00+00:00 UTC
+      }
+
+      // the clock may be moved backward, never go back to the sequences which are already used
+      if (0 != time_part && now_time < next_time_part) {
+        now_time = next_time_part;
       }
 
       // if failed, maybe another thread do it
-- 
2.43.0


From 42792b84138dc7453387e3641ed407a1cdc18b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 08/34] fix: swapping a trivial success result with an error
 result must exchange both values

---
 include/libcopp/future/storage.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/libcopp/future/storage.h b/include/libcopp/future/storage.h
index 6350f4d..3e73249 100644
--- a/include/libcopp/future/storage.h
+++ b/include/libcopp/future/storage.h
@@ -434,11 +434,20 @@ class LIBCOPP_COPP_API_HEAD_ONLY result_base<TOK, TERR, true> {
 
   inline void swap(result_base &other) LIBCOPP_MACRO_NOEXCEPT {
     using std::swap;
-    if (is_success()) {
-      swap(success_data_, other.success_data_);
-    } else {
-      swap(error_data_, other.error_data_);
+    if (mode_ == other.mode_) {
+      if (is_success()) {
+        swap(success_data_, other.success_data_);
+      } else {
+        swap(error_data_, other.error_data_);
+      }
+      return;
     }
+
+    result_base &success = is_success() ? *this : other;
+    result_base &error = is_success() ? other : *this;
+    success_type success_data = success.success_data_;
+    success.error_data_ = error.error_data_;
+    error.success_data_ = success_data;
     swap(mode_, other.mode_);
   }
 
-- 
2.43.0


From 3ab4baab6495856d1d04006b825f863afdf5826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 09/34] fix: moving a poller or result onto itself must keep
 its value

---
 include/libcopp/future/storage.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/libcopp/future/storage.h b/include/libcopp/future/storage.h
index 3e73249..bb57fd9 100644
--- a/include/libcopp/future/storage.h
+++ b/include/libcopp/future/storage.h
@@ -113,6 +113,10 @@ struct LIBCOPP_COPP_API_HEAD_ONLY
   }
 
   UTIL_FORCEINLINE static void move_storage(storage_type &out, storage_type &&in) LIBCOPP_MACRO_NOEXCEPT {
+    if (&out == &in) {
+      return;
+    }
+
     if (in) {
       out.reset(reinterpret_cast<void *>(&out));
     } else {
@@ -184,6 +188,10 @@ struct LIBCOPP_COPP_API_HEAD_ONLY poll_storage_base<T, std::unique_ptr<T, small_
   }
 
   UTIL_FORCEINLINE static void move_storage(storage_type &out, storage_type &&in) LIBCOPP_MACRO_NOEXCEPT {
+    if (&out == &in) {
+      return;
+    }
+
     if (in.second) {
       out.first = in.first;
       out.second.reset(&out.first);
@@ -502,6 +510,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY result_base<TOK, TERR, false> {
   }
 
   result_base &operator=(result_base &&other) {
+    if (this == &other) {
+      return *this;
+    }
+
     swap(other);
     other.reset();
     return *this;
-- 
2.43.0


From 7fb012fd183426dcbfa6c8ec396dc42a6f95befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:19 +0000
Subject: [PATCH 10/34] fix: task_manager::cancel must keep a task which is
 running and can not be canceled

---
 include/libcotask/task_manager.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index a7dc903..30567fa 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -586,24 +586,23 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
         return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_NOT_FOUND;
       }
 
-      task_inst = std::move(iter->second.task_);
-
-      remove_timeout_timer(iter->second);
-      tasks_.erase(iter);  // remove from container
+      task_inst = iter->second.task_;
     }
 
     // unlock and then run cancel
     if (task_inst) {
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-      using task_manager_helper = typename task_type::task_manager_helper;
-      // already cleanup, there is no need to cleanup again
-      task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
-#endif
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
-      return task_inst->cancel(unhandled, priv_data);
+      int ret = task_inst->cancel(unhandled, priv_data);
 #else
-      return task_inst->cancel(priv_data);
+      int ret = task_inst->cancel(priv_data);
 #endif
+
+      // a running task can not be canceled and is still managed, otherwise remove it
+      if (task_inst->is_exiting()) {
+        remove_task(id, task_inst);
+      }
+
+      return ret;
     } else {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_NOT_FOUND;
     }
-- 
2.43.0


From 6d0b78ab5844e2b94504f6f510e90e544be1afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:21 +0000
Subject: [PATCH 11/34] fix: task_manager::reset must detach all its tasks and
 refuse to be used until they are finished

---
 include/libcotask/task_manager.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 30567fa..1e6f5b0 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -235,13 +235,17 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      flags_ = 0;
       last_tick_time_.tv_sec = 0;
       last_tick_time_.tv_nsec = 0;
     }
 
     // then, kill all tasks
     for (typename std::vector<task_ptr_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
+#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      // this manager may be destroyed before the task is finished
+      using task_manager_helper = typename task_type::task_manager_helper;
+      task_manager_helper::cleanup_task_manager(**iter, reinterpret_cast<void *>(this));
+#endif
       if (!(*iter)->is_exiting()) {
         (*iter)->kill(EN_TS_KILLED);
       }
@@ -938,20 +942,18 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      flags_ = 0;
       last_tick_time_.tv_sec = 0;
       last_tick_time_.tv_nsec = 0;
     }
 
     // then, kill all tasks
     for (typename std::vector<task_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
-      if (!(*iter).is_exiting()) {
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-        using task_manager_helper = typename task_type::task_manager_helper;
-        // already cleanup, there is no need to cleanup again
-        task_manager_helper::cleanup_task_manager(*(*iter).get_context(), reinterpret_cast<void *>(this));
+      // this manager may be destroyed before the task is finished
+      using task_manager_helper = typename task_type::task_manager_helper;
+      task_manager_helper::cleanup_task_manager(*(*iter).get_context(), reinterpret_cast<void *>(this));
 #  endif
-
+      if (!(*iter).is_exiting()) {
         (*iter).kill(task_status_type::kKilled);
       }
     }
-- 
2.43.0


From 4284581f783f3a85d061632f8ca87e168f6258ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 12/34] fix: task_manager::tick must detach a timeout task
 which is already exiting

---
 include/libcotask/task_manager.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 1e6f5b0..9b60630 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -763,12 +763,14 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       }
 
       // task call can not be used when lock is on
-      if (task_inst && !task_inst->is_exiting()) {
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      if (task_inst) {
         using task_manager_helper = typename task_type::task_manager_helper;
         // already cleanup, there is no need to cleanup again
         task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
+      }
 #endif
+      if (task_inst && !task_inst->is_exiting()) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
         task_inst->kill(eptrs, EN_TS_TIMEOUT, nullptr);
 #else
@@ -1366,12 +1368,14 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       }
 
       // task call can not be used when lock is on
-      if (!task_inst.is_exiting()) {
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      if (task_inst.get_context()) {
         using task_manager_helper = typename task_type::task_manager_helper;
         // already cleanup, there is no need to cleanup again
         task_manager_helper::cleanup_task_manager(*task_inst.get_context(), reinterpret_cast<void *>(this));
+      }
 #  endif
+      if (!task_inst.is_exiting()) {
         task_inst.kill(task_status_type::kTimeout);
       }
     }
-- 
2.43.0


From dcaf3d0eef8641dff2b1b61c23151adfbd7e7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 13/34] fix: a finished task must not notify a manager which
 its followers destroyed

---
 include/libcotask/task.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index e9c5076..d4f066b 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -696,10 +696,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
   void active_next_tasks() {
 #endif
     std::list<std::pair<ptr_type, void *> > next_list;
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-    void *manager_ptr;
-    void (*manager_fn)(void *, self_type &);
-#endif
     // first, lock and swap container
     {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
@@ -707,12 +703,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
           inner_action_lock_);
 #endif
       next_list.swap(next_list_.member_list_);
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-      manager_ptr = binding_manager_ptr_;
-      manager_fn = binding_manager_fn_;
-      binding_manager_ptr_ = nullptr;
-      binding_manager_fn_ = nullptr;
-#endif
     }
 
     // then, do all the pending tasks
@@ -742,7 +732,20 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 #endif
 
     // finally, notify manager to cleanup(maybe start or resume with task's API but not task_manager's)
+    // the manager may be destroyed by the tasks and callers above, so do not take it before they are done
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+    void *manager_ptr;
+    void (*manager_fn)(void *, self_type &);
+    {
+#  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
+#  endif
+      manager_ptr = binding_manager_ptr_;
+      manager_fn = binding_manager_fn_;
+      binding_manager_ptr_ = nullptr;
+      binding_manager_fn_ = nullptr;
+    }
     if (nullptr != manager_ptr && nullptr != manager_fn) {
       (*manager_fn)(manager_ptr, *this);
     }
-- 
2.43.0


From 2b9110171ceb8064f6f1f7d3d50c9d2fafa25bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 14/34] fix: carry nanoseconds of task timeouts into seconds

---
 include/libcotask/task_manager.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 9b60630..e245ed8 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -39,6 +39,13 @@ struct LIBCOPP_COTASK_API_HEAD_ONLY tickspec_t {
   time_t tv_sec; /* Seconds.  */
   int tv_nsec;   /* Nanoseconds.  */
 
+  inline void normalize() {
+    if (tv_nsec >= 1000000000) {
+      tv_sec += tv_nsec / 1000000000;
+      tv_nsec %= 1000000000;
+    }
+  }
+
   inline friend bool operator==(const tickspec_t &l, const tickspec_t &r) {
     return l.tv_sec == r.tv_sec && l.tv_nsec == r.tv_nsec;
   }
@@ -709,6 +716,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
         detail::task_timer_node<id_type> new_checkpoint = (*iter);
         new_checkpoint.expired_time.tv_sec += sec;
         new_checkpoint.expired_time.tv_nsec += nsec;
+        new_checkpoint.expired_time.normalize();
         real_checkpoints.insert(new_checkpoint);
       }
 
@@ -835,6 +843,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
     timer_node.task_id = node.task_->get_id();
     timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
     timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    timer_node.expired_time.normalize();
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
         task_timeout_timer_.insert(timer_node);
@@ -1317,6 +1326,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
         detail::task_timer_node<id_type> new_checkpoint = (*iter);
         new_checkpoint.expired_time.tv_sec += sec;
         new_checkpoint.expired_time.tv_nsec += nsec;
+        new_checkpoint.expired_time.normalize();
         real_checkpoints.insert(new_checkpoint);
       }
 
@@ -1432,6 +1442,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
     timer_node.task_id = node.task_.get_id();
     timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
     timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    timer_node.expired_time.normalize();
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
         task_timeout_timer_.insert(timer_node);
-- 
2.43.0


From c85695f1337eec256d0693559cc206e330651005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 15/34] fix: move assignment of callable_future must end the
 callable it replaces

---
 include/libcopp/coroutine/callable_promise.h | 46 +++++++++++---------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 88e72f1..6feaf8e 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -317,29 +317,16 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_future {
 
   callable_future& operator=(const callable_future&) = delete;
   callable_future& operator=(callable_future&& other) noexcept {
-    current_handle_ = other.current_handle_;
-    other.current_handle_ = nullptr;
+    if (this != &other) {
+      handle_type other_handle = other.current_handle_;
+      other.current_handle_ = nullptr;
+      force_destroy();
+      current_handle_ = other_handle;
+    }
     return *this;
   }
 
-  ~callable_future() {
-    // Move current_handle_ to stack here to allow recursive call of force_destroy
-    handle_type current_handle = current_handle_;
-    current_handle_ = nullptr;
-
-    while (current_handle && !current_handle.done() &&
-           !current_handle.promise().check_flag(promise_flag::kHasReturned)) {
-      if (current_handle.promise().get_status() < promise_status::kDone) {
-        current_handle.promise().set_status(promise_status::kKilled);
-      }
-      current_handle.resume();
-    }
-
-    if (current_handle) {
-      current_handle.promise().set_flag(promise_flag::kDestroying, true);
-      current_handle.destroy();
-    }
-  }
+  ~callable_future() { force_destroy(); }
 
   awaitable_type operator co_await() { return awaitable_type{current_handle_}; }
 
@@ -451,6 +438,25 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_future {
   UTIL_FORCEINLINE promise_type& get_internal_promise() noexcept { return current_handle_.promise(); }
 
  private:
+  void force_destroy() noexcept {
+    // Move current_handle_ to stack here to allow recursive call of force_destroy
+    handle_type current_handle = current_handle_;
+    current_handle_ = nullptr;
+
+    while (current_handle && !current_handle.done() &&
+           !current_handle.promise().check_flag(promise_flag::kHasReturned)) {
+      if (current_handle.promise().get_status() < promise_status::kDone) {
+        current_handle.promise().set_status(promise_status::kKilled);
+      }
+      current_handle.resume();
+    }
+
+    if (current_handle) {
+      current_handle.promise().set_flag(promise_flag::kDestroying, true);
+      current_handle.destroy();
+    }
+  }
+
   handle_type current_handle_;
 };
 
-- 
2.43.0


From 6310f18cb0b90cc51f6a84bbedc1b333ad4bc8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 16/34] fix: a killed callable must be resumed when the one it
 waits for is finished

---
 src/libcopp/coroutine/std_coroutine_common.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcopp/coroutine/std_coroutine_common.cpp b/src/libcopp/coroutine/std_coroutine_common.cpp
index b08f415..5074082 100644
--- a/src/libcopp/coroutine/std_coroutine_common.cpp
+++ b/src/libcopp/coroutine/std_coroutine_common.cpp
@@ -203,9 +203,10 @@ LIBCOPP_COPP_API void promise_base_type::resume_waiting(handle_delegate current_
   // Resume the waiting promise.
   if (waiting_delegate.handle && !waiting_delegate.handle.done()) {
     current_waiting_ = nullptr;
-    // Prevent the waiting coroutine remuse this again.
     if (nullptr != waiting_delegate.promise) {
       waiting_delegate.promise->remove_caller(current_delegate, inherit_status);
+      // The current coroutine is still suspended by the waiting one and must be resumed when that is finished.
+      waiting_delegate.promise->add_caller(current_delegate);
     }
     waiting_delegate.handle.resume();
   } else if (current_delegate.handle && !current_delegate.handle.done() &&
-- 
2.43.0


From 7c4e86cdb96c0bd67b8285b3b6e9ac8d4c94ad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 17/34] fix: callers removed or destroyed while others are
 resumed must not be resumed

---
 .../libcopp/coroutine/std_coroutine_common.h  |  23 +++-
 .../coroutine/std_coroutine_common.cpp        | 108 +++++++++++-------
 2 files changed, 86 insertions(+), 45 deletions(-)

diff --git a/include/libcopp/coroutine/std_coroutine_common.h b/include/libcopp/coroutine/std_coroutine_common.h
index 8f86aca..9145e15 100644
--- a/include/libcopp/coroutine/std_coroutine_common.h
+++ b/include/libcopp/coroutine/std_coroutine_common.h
@@ -183,6 +183,28 @@ class promise_caller_manager {
   };
 
   using multi_caller_set = std::unordered_set<handle_delegate, handle_delegate_hash>;
+
+  // Callers which are being resumed by one call of resume_callers()
+  struct LIBCOPP_COPP_API_HEAD_ONLY resuming_callers {
+    multi_caller_set callers;
+    promise_caller_manager *owner;
+    resuming_callers *previous;
+
+    explicit resuming_callers(promise_caller_manager *manager) noexcept
+        : owner(manager), previous(manager->resuming_) {
+      manager->resuming_ = this;
+    }
+    ~resuming_callers() {
+      // owner is nullptr when the manager is destroyed by one of the callers
+      if (nullptr != owner) {
+        owner->resuming_ = previous;
+      }
+    }
+  };
+
+  LIBCOPP_COPP_API static void move_callers(multi_caller_set &from, multi_caller_set &to);
+
+  resuming_callers *resuming_;
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
   std::variant<handle_delegate, multi_caller_set> callers_;
 #  else
@@ -325,7 +347,6 @@ class promise_base_type {
   LIBCOPP_COPP_API pick_promise_status_awaitable yield_value(pick_promise_status_awaitable &&args) const noexcept;
   static LIBCOPP_COPP_API_HEAD_ONLY inline pick_promise_status_awaitable pick_current_status() noexcept { return {}; }
 
- private:
   LIBCOPP_COPP_API void resume_callers();
 
  private:
diff --git a/src/libcopp/coroutine/std_coroutine_common.cpp b/src/libcopp/coroutine/std_coroutine_common.cpp
index 5074082..0e3e8de 100644
--- a/src/libcopp/coroutine/std_coroutine_common.cpp
+++ b/src/libcopp/coroutine/std_coroutine_common.cpp
@@ -18,7 +18,7 @@
 LIBCOPP_COPP_NAMESPACE_BEGIN
 
 LIBCOPP_COPP_API promise_caller_manager::promise_caller_manager()
-    :
+    : resuming_(nullptr),
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
       callers_(handle_delegate{nullptr})
 #  else
@@ -27,7 +27,11 @@ LIBCOPP_COPP_API promise_caller_manager::promise_caller_manager()
 {
 }
 
-LIBCOPP_COPP_API promise_caller_manager::~promise_caller_manager() {}
+LIBCOPP_COPP_API promise_caller_manager::~promise_caller_manager() {
+  for (resuming_callers *resuming = resuming_; nullptr != resuming; resuming = resuming->previous) {
+    resuming->owner = nullptr;
+  }
+}
 
 LIBCOPP_COPP_API void promise_caller_manager::add_caller(handle_delegate delegate) noexcept {
   if (!delegate.handle || delegate.handle.done()) {
@@ -65,10 +69,16 @@ LIBCOPP_COPP_API void promise_caller_manager::add_caller(handle_delegate delegat
 
 LIBCOPP_COPP_API bool promise_caller_manager::remove_caller(handle_delegate delegate) noexcept {
   bool has_caller = false;
+  for (resuming_callers *resuming = resuming_; nullptr != resuming; resuming = resuming->previous) {
+    if (resuming->callers.erase(delegate) > 0) {
+      has_caller = true;
+    }
+  }
+
   do {
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
     if (std::holds_alternative<multi_caller_set>(callers_)) {
-      has_caller = std::get<multi_caller_set>(callers_).erase(delegate) > 0;
+      has_caller = std::get<multi_caller_set>(callers_).erase(delegate) > 0 || has_caller;
       break;
     }
 
@@ -84,7 +94,7 @@ LIBCOPP_COPP_API bool promise_caller_manager::remove_caller(handle_delegate dele
     }
 
     if (multiple_callers_) {
-      has_caller = multiple_callers_->erase(delegate) > 0;
+      has_caller = multiple_callers_->erase(delegate) > 0 || has_caller;
     }
 #  endif
   } while (false);
@@ -93,65 +103,75 @@ LIBCOPP_COPP_API bool promise_caller_manager::remove_caller(handle_delegate dele
 }
 
 LIBCOPP_COPP_API size_t promise_caller_manager::resume_callers() {
+  // A resumed caller may remove other callers, or destroy this object.
   size_t resume_count = 0;
+  resuming_callers resuming{this};
+  handle_delegate unique_caller{nullptr};
+
+  // Also take over what outer calls have not resumed yet, nobody is waiting when this call returned.
+  for (resuming_callers *outer = resuming.previous; nullptr != outer; outer = outer->previous) {
+    resuming.callers.insert(outer->callers.begin(), outer->callers.end());
+    outer->callers.clear();
+  }
+
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
   if (std::holds_alternative<handle_delegate>(callers_)) {
-    auto caller = std::get<handle_delegate>(callers_);
+    unique_caller = std::get<handle_delegate>(callers_);
     std::get<handle_delegate>(callers_) = nullptr;
-    if (caller.handle && !caller.handle.done() &&
-        (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
-      caller.handle.resume();
-      ++resume_count;
-    }
   } else if (std::holds_alternative<multi_caller_set>(callers_)) {
-    multi_caller_set callers;
-    callers.swap(std::get<multi_caller_set>(callers_));
-    for (auto &caller : callers) {
-      if (caller.handle && !caller.handle.done() &&
-          (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
-        type_erased_handle_type handle = caller.handle;
-        handle.resume();
-        ++resume_count;
-      }
-    }
+    move_callers(std::get<multi_caller_set>(callers_), resuming.callers);
   }
 #  else
-  auto unique_caller = unique_caller_;
+  unique_caller = unique_caller_;
   unique_caller_ = nullptr;
-  std::unique_ptr<multi_caller_set> multiple_callers;
-  multiple_callers.swap(multiple_callers_);
-
-  // The promise object may be destroyed after first caller.resume()
-  if (unique_caller.handle && !unique_caller.handle.done() &&
-      (nullptr == unique_caller.promise || !unique_caller.promise->check_flag(promise_flag::kDestroying))) {
-    unique_caller.handle.resume();
-    ++resume_count;
-  }
-
-  if (multiple_callers) {
-    for (auto &caller : *multiple_callers) {
-      if (caller.handle && !caller.handle.done() &&
-          (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
-        type_erased_handle_type handle = caller.handle;
-        handle.resume();
-        ++resume_count;
-      }
-    }
+  if (multiple_callers_) {
+    move_callers(*multiple_callers_, resuming.callers);
   }
 #  endif
+
+  while (unique_caller || !resuming.callers.empty()) {
+    handle_delegate caller = unique_caller;
+    if (caller) {
+      unique_caller = nullptr;
+    } else {
+      caller = *resuming.callers.begin();
+      resuming.callers.erase(resuming.callers.begin());
+    }
+
+    if (caller.handle && !caller.handle.done() &&
+        (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
+      caller.handle.resume();
+      ++resume_count;
+    }
+  }
   return resume_count;
 }
 
+LIBCOPP_COPP_API void promise_caller_manager::move_callers(multi_caller_set &from, multi_caller_set &to) {
+  if (to.empty()) {
+    to.swap(from);
+  } else {
+    to.insert(from.begin(), from.end());
+    from.clear();
+  }
+}
+
 LIBCOPP_COPP_API bool promise_caller_manager::has_multiple_callers() const noexcept {
+  size_t count = 0;
+  // One caller is just being resumed
+  for (const resuming_callers *resuming = resuming_; nullptr != resuming; resuming = resuming->previous) {
+    count += resuming->callers.size();
+  }
+  if (count > 0) {
+    return true;
+  }
+
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
-  if (std::holds_alternative<handle_delegate>(callers_)) {
-    return false;
-  } else if (std::holds_alternative<multi_caller_set>(callers_)) {
+  if (std::holds_alternative<multi_caller_set>(callers_)) {
     return std::get<multi_caller_set>(callers_).size() > 1;
   }
   return false;
 #  else
-  size_t count = 0;
   if (unique_caller_.handle && !unique_caller_.handle.done() &&
       (nullptr == unique_caller_.promise || !unique_caller_.promise->check_flag(promise_flag::kDestroying))) {
     ++count;
-- 
2.43.0


From 1d9348321a4ad19d5bedc5eb70733e549a79bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 18/34] fix: every caller of a callable must be resumed and get
 its value

---
 include/libcopp/coroutine/callable_promise.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 6feaf8e..60f4b04 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -238,6 +238,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_awaitable<TPROMISE, TERROR_TRANSFORM,
   callable_awaitable(handle_type handle) : base_type(handle) {}
 
   inline value_type await_resume() {
+    bool has_multiple_callers = get_callee().promise().has_multiple_callers();
     detach();
     auto& callee_promise = get_callee().promise();
     callee_promise.resume_waiting(get_callee(), true);
@@ -246,8 +247,19 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_awaitable<TPROMISE, TERROR_TRANSFORM,
       return TERROR_TRANSFORM()(callee_promise.get_status());
     }
 
-    return std::move(callee_promise.data());
+    return return_value(callee_promise.data(), has_multiple_callers, std::is_copy_constructible<value_type>());
   }
+
+ private:
+  // Keep the value for the other callers
+  UTIL_FORCEINLINE static value_type return_value(value_type& data, bool has_multiple_callers, std::true_type) {
+    if (has_multiple_callers) {
+      return data;
+    }
+    return std::move(data);
+  }
+
+  UTIL_FORCEINLINE static value_type return_value(value_type& data, bool, std::false_type) { return std::move(data); }
 };
 
 template <class TVALUE, class TERROR_TRANSFORM = promise_error_transform<TVALUE>>
@@ -452,6 +464,8 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_future {
     }
 
     if (current_handle) {
+      // Some callers may be not resumed yet, if one of the callers destroys this callable
+      current_handle.promise().resume_callers();
       current_handle.promise().set_flag(promise_flag::kDestroying, true);
       current_handle.destroy();
     }
-- 
2.43.0


From db9926e50b8299b233f330e6323068e3496c90ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 19/34] fix: keep the suspend callback of a generator until it
 has returned

---
 include/libcopp/coroutine/generator_promise.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index 75db8e8..5904e3f 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -4,6 +4,7 @@
 
 #include <libcopp/utils/config/libcopp_build_features.h>
 
+#include <libcopp/utils/atomic_int_type.h>
 #include <libcopp/utils/intrusive_ptr.h>
 
 // clang-format off
@@ -289,7 +290,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_vtable {
     }
   }
 
-  size_t intrusive_ref_counter_;
+  copp::util::lock::atomic_int_type<size_t> intrusive_ref_counter_;
   await_suspend_callback_type await_suspend_callback_;
   await_resume_callback_type await_resume_callback_;
 };
@@ -329,9 +330,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_awaitable_base : public awaitable_bas
       // Allow kill resume to forward error information
       caller.promise().set_flag(promise_flag::kInternalWaitting, true);
 
-      // Custom event. awaitable object may be deleted after this call
-      if (vtable_ && vtable_->get_await_suspend_callback()) {
-        vtable_->get_await_suspend_callback()(context_->shared_from_this());
+      // Custom event. awaitable object may be deleted after this call, the callback must be kept until it returned
+      copp::util::intrusive_ptr<vtable_type> vtable = vtable_;
+      if (vtable && vtable->get_await_suspend_callback()) {
+        vtable->get_await_suspend_callback()(context_->shared_from_this());
       }
 
       return true;
-- 
2.43.0


From 6d7d829388efa7b715bc36931fc372d4246724ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 20/34] fix: some() and all() must count the futures which are
 ready in advance

---
 include/libcopp/coroutine/callable_promise.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 60f4b04..d326ef1 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -645,8 +645,8 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
       co_return promise_status::kDone;
     }
 
-    if (ready_count >= context.pending.size() + ready_futures.size()) {
-      ready_count = context.pending.size() + ready_futures.size();
+    if (ready_count >= context.pending.size() + context.ready.size()) {
+      ready_count = context.pending.size() + context.ready.size();
     }
     context.ready_bound = ready_count;
     context.scan_bound = context.ready.size();
-- 
2.43.0


From 915d94b16f6f46a88b9e20c1d91006ae39746f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 21/34] fix: some() must survive being finished while futures
 are registered

---
 include/libcopp/coroutine/callable_promise.h | 57 ++++++++++++++++----
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index d326ef1..0752b54 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -481,6 +481,8 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_context {
   using ready_output_type = typename some_ready<future_type>::type;
 
   std::list<future_type*> pending;
+  std::list<future_type*> unregistered;  // also pending, but caller is not added into them yet
+  bool* finished = nullptr;              // notify await_suspend() that this object is no longer available
   ready_output_type ready;
   size_t ready_bound = 0;
   size_t scan_bound = 0;
@@ -499,6 +501,11 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
 
  private:
   static void force_resume_all(context_type& context) {
+    if (nullptr != context.finished) {
+      *context.finished = true;
+      context.finished = nullptr;
+    }
+
     for (auto& pending_future : context.pending) {
       delegate_action_type::resume_future(context.caller_handle, *pending_future);
     }
@@ -527,6 +534,23 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
 
       delegate_action_type::resume_future(context.caller_handle, future);
     }
+
+    scan_unregistered(context);
+  }
+
+  // Futures may be ready before caller is added into them, there is no notification from these futures
+  static void scan_unregistered(context_type& context) {
+    auto iter = context.unregistered.begin();
+
+    while (iter != context.unregistered.end()) {
+      if (delegate_action_type::is_pending(**iter)) {
+        ++iter;
+        continue;
+      }
+      context.ready.push_back(gsl::make_not_null(*iter));
+      iter = context.unregistered.erase(iter);
+      ++context.scan_bound;
+    }
   }
 
  public:
@@ -543,7 +567,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
         return true;
       }
 
-      return context_->pending.empty();
+      return context_->pending.empty() && context_->unregistered.empty();
     }
 
 #  if defined(LIBCOPP_MACRO_ENABLE_CONCEPTS) && LIBCOPP_MACRO_ENABLE_CONCEPTS
@@ -565,11 +589,26 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
 
       // set caller for all futures
       if (!context_->caller_handle) {
-        context_->caller_handle = caller;
-        // Copy pending here, the callback may call resume and will change the pending list
-        std::list<future_type*> copy_pending = context_->pending;
-        for (auto& pending_future : copy_pending) {
-          delegate_action_type::suspend_future(context_->caller_handle, *pending_future);
+        // The callback may call resume, this awaitable object and the context may be destroyed then
+        context_type* context = context_;
+        bool finished = false;
+        context->caller_handle = caller;
+        context->finished = &finished;
+        while (!finished && !context->unregistered.empty()) {
+          future_type& pending_future = *context->unregistered.front();
+          if (!delegate_action_type::is_pending(pending_future)) {
+            scan_unregistered(*context);
+            continue;
+          }
+          context->pending.splice(context->pending.end(), context->unregistered, context->unregistered.begin());
+          delegate_action_type::suspend_future(context->caller_handle, pending_future);
+        }
+
+        if (!finished) {
+          context->finished = nullptr;
+          if (context->scan_bound >= context->ready_bound) {
+            caller.resume();
+          }
         }
       }
 
@@ -634,7 +673,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
       auto& future_ref =
           pick_some_reference<typename std::remove_reference<decltype(future_object)>::type>::unwrap(future_object);
       if (delegate_action_type::is_pending(future_ref)) {
-        context.pending.push_back(&future_ref);
+        context.unregistered.push_back(&future_ref);
       } else {
         context.ready.push_back(gsl::make_not_null(&future_ref));
       }
@@ -645,8 +684,8 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
       co_return promise_status::kDone;
     }
 
-    if (ready_count >= context.pending.size() + context.ready.size()) {
-      ready_count = context.pending.size() + context.ready.size();
+    if (ready_count >= context.unregistered.size() + context.ready.size()) {
+      ready_count = context.unregistered.size() + context.ready.size();
     }
     context.ready_bound = ready_count;
     context.scan_bound = context.ready.size();
-- 
2.43.0


From 9dbce50cfe173a14edd705845a1228f4bfb4853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 22/34] fix: remove_task of a running C++20 task must report
 success

task_future::kill returns a bool, not an error code: removing a running task
returned 1 although the task was removed and killed.
---
 include/libcotask/task_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index e245ed8..13dcf55 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -1142,7 +1142,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
       task_status_type task_status = task_inst.get_status();
       if (task_status > task_status_type::kCreated && task_status < task_status_type::kDone) {
-        return task_inst.kill(task_status_type::kKilled);
+        task_inst.kill(task_status_type::kKilled);
       }
     }
 
-- 
2.43.0


From a06b1ad33959a3c083fc76fd457428c490f7e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 23/34] fix: the data of a kill must not be lost when another
 thread runs the task

kill() of a running task stored its private data after it had changed the
status, without any synchronisation: the thread which runs the task could see
the status first and resume the body with stale data.
---
 include/libcotask/task.h | 45 ++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index d4f066b..794e332 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -505,7 +505,14 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
         }
       }
 
-      finish_priv_data_ = priv_data;
+      {
+        // another thread may have killed this task just now and is still setting it
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+        LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+            inner_action_lock_);
+#endif
+        finish_priv_data_ = priv_data;
+      }
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
       _notify_finished(unhandled, priv_data);
 #else
@@ -516,10 +523,18 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     while (true) {
       if (from_status >= EN_TS_DONE) {  // canceled or killed
+        void *finish_priv_data;
+        {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+          LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+              inner_action_lock_);
+#endif
+          finish_priv_data = finish_priv_data_;
+        }
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
-        _notify_finished(unhandled, finish_priv_data_);
+        _notify_finished(unhandled, finish_priv_data);
 #else
-        _notify_finished(finish_priv_data_);
+        _notify_finished(finish_priv_data);
 #endif
         break;
       }
@@ -615,20 +630,28 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
         return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
       }
 
-      COPP_LIKELY_IF (_cas_status(from_status, status)) {
-        break;
+      if (EN_TS_RUNNING == from_status) {
+        // the thread which is running this task will finish it, and must see the private data as soon as the status
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+        LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+            inner_action_lock_);
+#endif
+        COPP_LIKELY_IF (_cas_status(from_status, status)) {
+          finish_priv_data_ = priv_data;
+          return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
+        }
+      } else {
+        COPP_LIKELY_IF (_cas_status(from_status, status)) {
+          break;
+        }
       }
     } while (true);
 
-    if (EN_TS_RUNNING != from_status) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
-      _notify_finished(unhandled, priv_data);
+    _notify_finished(unhandled, priv_data);
 #else
-      _notify_finished(priv_data);
+    _notify_finished(priv_data);
 #endif
-    } else {
-      finish_priv_data_ = priv_data;
-    }
 
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
   }
-- 
2.43.0


From 4d5d58ef0363ad370ef1fc462f44c333f41883fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 24/34] fix: the flags of a task manager must be changed
 atomically

tick() and reset() on different threads change them at the same time: a lost
update left the manager in a tick or reset for ever, and it ignored every
later tick or refused every later operation.
---
 include/libcotask/task_manager.h | 74 +++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 31 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 13dcf55..b8c9bf7 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -4,6 +4,8 @@
 
 #include <libcopp/utils/config/libcopp_build_features.h>
 
+#include <libcopp/utils/atomic_int_type.h>
+
 #include <libcotask/task_macros.h>
 
 // clang-format off
@@ -190,20 +192,25 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
   using flag_t = flag_type;
 
  private:
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+  using flags_value_type = LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<int>;
+#else
+  using flags_value_type = LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::unsafe_int_type<int>>;
+#endif
+
   struct flag_guard_type {
-    int *data_;
+    flags_value_type *data_;
     typename flag_type::type flag_;
-    inline flag_guard_type(int *flags, typename flag_type::type v) : data_(flags), flag_(v) {
-      if (nullptr == data_ || (*data_ & flag_)) {
+    inline flag_guard_type(flags_value_type *flags, typename flag_type::type v) : data_(flags), flag_(v) {
+      if (nullptr == data_ || (data_->fetch_or(flag_) & flag_)) {
         flag_ = flag_type::EN_TM_NONE;
         data_ = nullptr;
-      } else {
-        (*data_) |= flag_;
       }
     }
     inline ~flag_guard_type() {
       if (*this) {
-        (*data_) &= ~flag_;
+        data_->fetch_and(~flag_);
       }
     }
 
@@ -284,7 +291,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ARGS_ERROR;
     }
 
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -360,7 +367,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
    * @see tick
    */
   int set_timeout(id_type id, time_t timeout_sec, int timeout_nsec) {
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -402,7 +409,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
    * @return 0 or error code
    */
   int remove_task(id_type id, const task_type *confirm_ptr) {
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -451,7 +458,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
    * @return smart pointer of task
    */
   task_ptr_type find_task(id_type id) {
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return task_ptr_type();
     }
 
@@ -482,7 +489,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #else
   int start(id_type id, void *priv_data = nullptr) {
 #endif
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -531,7 +538,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #else
   int resume(id_type id, void *priv_data = nullptr) {
 #endif
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -580,7 +587,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #else
   int cancel(id_type id, void *priv_data = nullptr) {
 #endif
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -632,7 +639,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #else
   int kill(id_type id, enum EN_TASK_STATUS status, void *priv_data = nullptr) {
 #endif
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -698,7 +705,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -877,7 +884,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock action_lock_;
 #endif
-  int flags_;
+  flags_value_type flags_;
 };
 
 #if defined(LIBCOPP_MACRO_ENABLE_STD_COROUTINE) && LIBCOPP_MACRO_ENABLE_STD_COROUTINE
@@ -901,20 +908,25 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
   };
 
  private:
+#  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+  using flags_value_type = LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<uint32_t>;
+#  else
+  using flags_value_type = LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::unsafe_int_type<uint32_t>>;
+#  endif
+
   struct flag_guard_type {
-    uint32_t *data_;
+    flags_value_type *data_;
     flag_type flag_;
-    inline flag_guard_type(uint32_t *flags, flag_type v) : data_(flags), flag_(v) {
-      if (nullptr == data_ || (*data_ & static_cast<uint32_t>(flag_))) {
+    inline flag_guard_type(flags_value_type *flags, flag_type v) : data_(flags), flag_(v) {
+      if (nullptr == data_ || (data_->fetch_or(static_cast<uint32_t>(flag_)) & static_cast<uint32_t>(flag_))) {
         flag_ = flag_type::kNone;
         data_ = nullptr;
-      } else {
-        (*data_) |= static_cast<uint32_t>(flag_);
       }
     }
     inline ~flag_guard_type() {
       if (*this) {
-        (*data_) &= ~static_cast<uint32_t>(flag_);
+        data_->fetch_and(~static_cast<uint32_t>(flag_));
       }
     }
 
@@ -990,7 +1002,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
    * @see tick
    */
   int add_task(const task_type &task, time_t timeout_sec, int timeout_nsec) noexcept {
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -1062,7 +1074,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
    * @see tick
    */
   int set_timeout(id_type id, time_t timeout_sec, int timeout_nsec) noexcept {
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -1106,7 +1118,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
    * @return 0 or error code
    */
   int remove_task(id_type id, const task_context_base<TVALUE> *confirm_context) {
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -1155,7 +1167,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
    * @return pointer of task
    */
   const task_type *find_task(id_type id) noexcept {
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return nullptr;
     }
 
@@ -1173,7 +1185,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
   }
 
   int start(id_type id) {
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -1207,7 +1219,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
   }
 
   int cancel(id_type id) {
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -1245,7 +1257,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
   }
 
   int kill(id_type id, task_status_type target_status) {
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -1308,7 +1320,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -1476,7 +1488,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 #  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock action_lock_;
 #  endif
-  uint32_t flags_;
+  flags_value_type flags_;
 };
 #endif
 
-- 
2.43.0


From 3ff431424a36535da014643ea94cc787fb2fe9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 25/34] fix: tick of a task manager must look at its times and
 deadlines under the lock

---
 include/libcotask/task_manager.h | 163 +++++++++++++++++++++----------
 1 file changed, 109 insertions(+), 54 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index b8c9bf7..09c541d 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -691,14 +691,22 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
    */
   int tick(time_t sec, int nsec = 0) {
     detail::tickspec_t now_tick_time;
-    // time can not be back
-    if (sec < last_tick_time_.tv_sec || (sec == last_tick_time_.tv_sec && nsec <= last_tick_time_.tv_nsec)) {
-      return 0;
-    }
-
     now_tick_time.tv_sec = sec;
     now_tick_time.tv_nsec = nsec;
 
+    {
+      // hold lock
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
+          action_lock_};
+#endif
+
+      // time can not be back
+      if (now_tick_time <= last_tick_time_) {
+        return 0;
+      }
+    }
+
     // we will ignore tick when in a recursive call
     flag_guard_type tick_flag(&flags_, flag_type::EN_TM_IN_TICK);
     if (!tick_flag) {
@@ -709,44 +717,51 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
-    // first tick, init and reset task timeout
-    if (0 == last_tick_time_.tv_sec && 0 == last_tick_time_.tv_nsec) {
+    {
       // hold lock
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
       LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
           action_lock_};
 #endif
 
-      std::set<detail::task_timer_node<id_type>> real_checkpoints;
-      for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
-           task_timeout_timer_.end() != iter; ++iter) {
-        detail::task_timer_node<id_type> new_checkpoint = (*iter);
-        new_checkpoint.expired_time.tv_sec += sec;
-        new_checkpoint.expired_time.tv_nsec += nsec;
-        new_checkpoint.expired_time.normalize();
-        real_checkpoints.insert(new_checkpoint);
+      // another tick may have been done since the time was checked
+      if (now_tick_time <= last_tick_time_) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
       }
 
-      task_timeout_timer_.swap(real_checkpoints);
-      for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
-           task_timeout_timer_.end() != iter; ++iter) {
-        const typename std::set<detail::task_timer_node<id_type>>::value_type &checkpoint = *iter;
-        using co_iter_type = typename container_type::iterator;
-        co_iter_type  co_iter = tasks_.find(checkpoint.task_id);
+      // first tick, init and reset task timeout
+      if (0 == last_tick_time_.tv_sec && 0 == last_tick_time_.tv_nsec) {
+        std::set<detail::task_timer_node<id_type>> real_checkpoints;
+        for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
+             task_timeout_timer_.end() != iter; ++iter) {
+          detail::task_timer_node<id_type> new_checkpoint = (*iter);
+          new_checkpoint.expired_time.tv_sec += sec;
+          new_checkpoint.expired_time.tv_nsec += nsec;
+          new_checkpoint.expired_time.normalize();
+          real_checkpoints.insert(new_checkpoint);
+        }
+
+        task_timeout_timer_.swap(real_checkpoints);
+        for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
+             task_timeout_timer_.end() != iter; ++iter) {
+          const typename std::set<detail::task_timer_node<id_type>>::value_type &checkpoint = *iter;
+          using co_iter_type = typename container_type::iterator;
+          co_iter_type  co_iter = tasks_.find(checkpoint.task_id);
 
-        if (tasks_.end() != co_iter) {
-          co_iter->second.timer_node = iter;
+          if (tasks_.end() != co_iter) {
+            co_iter->second.timer_node = iter;
+          }
         }
+        last_tick_time_ = now_tick_time;
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
       }
-      last_tick_time_ = now_tick_time;
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
     std::list<std::exception_ptr> eptrs;
 #endif
     // remove timeout tasks
-    while (false == task_timeout_timer_.empty()) {
+    while (true) {
       task_ptr_type task_inst;
 
       {
@@ -756,6 +771,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
             action_lock_};
 #endif
 
+        if (task_timeout_timer_.empty()) {
+          break;
+        }
+
         const typename std::set<detail::task_timer_node<id_type>>::value_type &timer_node =
             *task_timeout_timer_.begin();
         // all tasks those expired time less than now are timeout
@@ -794,7 +813,15 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       }
     }
 
-    last_tick_time_ = now_tick_time;
+    {
+      // hold lock
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
+          action_lock_};
+#endif
+
+      last_tick_time_ = now_tick_time;
+    }
 
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
     task_type::maybe_rethrow(eptrs);
@@ -1306,14 +1333,22 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
    */
   int tick(time_t sec, int nsec = 0) {
     detail::tickspec_t now_tick_time;
-    // time can not be back
-    if (sec < last_tick_time_.tv_sec || (sec == last_tick_time_.tv_sec && nsec <= last_tick_time_.tv_nsec)) {
-      return 0;
-    }
-
     now_tick_time.tv_sec = sec;
     now_tick_time.tv_nsec = nsec;
 
+    {
+      // hold lock
+#  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
+          action_lock_};
+#  endif
+
+      // time can not be back
+      if (now_tick_time <= last_tick_time_) {
+        return 0;
+      }
+    }
+
     // we will ignore tick when in a recursive call
     flag_guard_type tick_flag(&flags_, flag_type::kTimerTick);
     if (!tick_flag) {
@@ -1324,41 +1359,48 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
-    // first tick, init and reset task timeout
-    if (0 == last_tick_time_.tv_sec && 0 == last_tick_time_.tv_nsec) {
+    {
       // hold lock
 #  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
       LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
           action_lock_};
 #  endif
 
-      std::set<detail::task_timer_node<id_type>> real_checkpoints;
-      for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
-           task_timeout_timer_.end() != iter; ++iter) {
-        detail::task_timer_node<id_type> new_checkpoint = (*iter);
-        new_checkpoint.expired_time.tv_sec += sec;
-        new_checkpoint.expired_time.tv_nsec += nsec;
-        new_checkpoint.expired_time.normalize();
-        real_checkpoints.insert(new_checkpoint);
+      // another tick may have been done since the time was checked
+      if (now_tick_time <= last_tick_time_) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
       }
 
-      task_timeout_timer_.swap(real_checkpoints);
-      for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
-           task_timeout_timer_.end() != iter; ++iter) {
-        const typename std::set<detail::task_timer_node<id_type>>::value_type &checkpoint = *iter;
-        using co_iter_type = typename container_type::iterator;
-        co_iter_type  co_iter = tasks_.find(checkpoint.task_id);
+      // first tick, init and reset task timeout
+      if (0 == last_tick_time_.tv_sec && 0 == last_tick_time_.tv_nsec) {
+        std::set<detail::task_timer_node<id_type>> real_checkpoints;
+        for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
+             task_timeout_timer_.end() != iter; ++iter) {
+          detail::task_timer_node<id_type> new_checkpoint = (*iter);
+          new_checkpoint.expired_time.tv_sec += sec;
+          new_checkpoint.expired_time.tv_nsec += nsec;
+          new_checkpoint.expired_time.normalize();
+          real_checkpoints.insert(new_checkpoint);
+        }
+
+        task_timeout_timer_.swap(real_checkpoints);
+        for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
+             task_timeout_timer_.end() != iter; ++iter) {
+          const typename std::set<detail::task_timer_node<id_type>>::value_type &checkpoint = *iter;
+          using co_iter_type = typename container_type::iterator;
+          co_iter_type  co_iter = tasks_.find(checkpoint.task_id);
 
-        if (tasks_.end() != co_iter) {
-          co_iter->second.timer_node = iter;
+          if (tasks_.end() != co_iter) {
+            co_iter->second.timer_node = iter;
+          }
         }
+        last_tick_time_ = now_tick_time;
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
       }
-      last_tick_time_ = now_tick_time;
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
     // remove timeout tasks
-    while (false == task_timeout_timer_.empty()) {
+    while (true) {
       task_type task_inst;
 
       {
@@ -1368,6 +1410,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
             action_lock_};
 #  endif
 
+        if (task_timeout_timer_.empty()) {
+          break;
+        }
+
         const typename std::set<detail::task_timer_node<id_type>>::value_type &timer_node =
             *task_timeout_timer_.begin();
         // all tasks those expired time less than now are timeout
@@ -1402,7 +1448,16 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       }
     }
 
-    last_tick_time_ = now_tick_time;
+    {
+      // hold lock
+#  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
+          action_lock_};
+#  endif
+
+      last_tick_time_ = now_tick_time;
+    }
+
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
   }
 
-- 
2.43.0


From fd4a5a5ebbb59a593e8f762606e4d945fdcd81bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 26/34] fix: a task ended by another thread while it is added
 must not stay in the manager

---
 include/libcotask/task_manager.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 09c541d..c9c597e 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -326,6 +326,12 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
     if (!task_manager_helper::setup_task_manager(*task, reinterpret_cast<void *>(this), &task_cleanup_callback)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER;
     }
+
+    // the task may be finished by another thread before it's bound to this manager, and then it won't be removed
+    if (task->is_exiting()) {
+      task_manager_helper::cleanup_task_manager(*task, reinterpret_cast<void *>(this));
+      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_IS_EXITING;
+    }
 #endif
 
     // try to insert to container
-- 
2.43.0


From a7bb4452da25125211f835530a64504f41609eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 27/34] fix: a task added while another thread resets the
 manager must be refused

---
 include/libcotask/task_manager.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index c9c597e..5999daf 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -316,6 +316,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
         action_lock_};
 #endif
 
+    // a reset may have been started by another thread and does not see tasks added from now on
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
+      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
+    }
+
     id_type task_id = task->get_id();
     if (tasks_.end() != tasks_.find(task_id)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_EXIST;
@@ -1055,6 +1060,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
         action_lock_};
 #  endif
 
+    // a reset may have been started by another thread and does not see tasks added from now on
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
+      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
+    }
+
     id_type task_id = task.get_id();
     if (tasks_.end() != tasks_.find(task_id)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_EXIST;
-- 
2.43.0


From 7760296bb605b27bce3867c2f8aa4c7cd2e2036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 28/34] fix: gc of a stack pool must check its limits under the
 lock

---
 include/libcopp/stack/stack_pool.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index 4283200..de2f918 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -225,6 +225,11 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
 
   size_t gc() {
     size_t ret = 0;
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+        action_lock_);
+#endif
+
     // gc only if free stacks is greater than used
     if (limits_.used_stack_size >= limits_.free_stack_size && limits_.used_stack_number >= limits_.free_stack_number) {
       return ret;
@@ -241,11 +246,6 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
       }
     }
 
-#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
-    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
-        action_lock_);
-#endif
-
     size_t keep_size = limits_.free_stack_size >> 1;
     size_t keep_number = limits_.free_stack_number >> 1;
     size_t left_gc = conf_.gc_number;
-- 
2.43.0


From 62633189db21c3c0b22244a416d662a6a0b519c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 29/34] fix: stack allocators must refuse sizes which overflow
 when rounded up

---
 src/libcopp/stack/allocator/stack_allocator_malloc.cpp | 4 ++++
 src/libcopp/stack/allocator/stack_allocator_posix.cpp  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/libcopp/stack/allocator/stack_allocator_malloc.cpp b/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
index 343c88b..cd2fdf9 100755
--- a/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
@@ -50,6 +50,10 @@ LIBCOPP_COPP_API void stack_allocator_malloc::allocate(stack_context &ctx, std::
   size = (std::min)(size, stack_traits::maximum_size());
 
   std::size_t size_ = stack_traits::round_to_page_size(size);
+  if (size_ < size) {  // overflow
+    ctx.sp = nullptr;
+    return;
+  }
 
   void *start_ptr = malloc(size_);
 
diff --git a/src/libcopp/stack/allocator/stack_allocator_posix.cpp b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
index efb5b11..15ef397 100755
--- a/src/libcopp/stack/allocator/stack_allocator_posix.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
@@ -61,6 +61,10 @@ LIBCOPP_COPP_API void stack_allocator_posix::allocate(stack_context &ctx, std::s
   size = (std::min)(size, stack_traits::maximum_size());
 
   std::size_t size_ = stack_traits::round_to_page_size(size) + stack_traits::page_size();  // add one protected page
+  if (size_ < size) {  // overflow
+    ctx.sp = nullptr;
+    return;
+  }
   assert(size > 0 && size_ > 0);
 
   // conform to POSIX.4 (POSIX.1b-1993, _POSIX_C_SOURCE=199309L)
-- 
2.43.0


From a2192c4d471fbade3297fb523356b80c061426ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 30/34] fix: stack_allocator_memory must not hand out more than
 the attached memory

---
 src/libcopp/stack/allocator/stack_allocator_memory.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libcopp/stack/allocator/stack_allocator_memory.cpp b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
index 2616a69..b3a83bf 100755
--- a/src/libcopp/stack/allocator/stack_allocator_memory.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
@@ -101,6 +101,13 @@ LIBCOPP_COPP_API void stack_allocator_memory::allocate(stack_context &ctx, std::
   size = (std::min)(size, memory_size_);
 
   std::size_t size_ = stack_traits::round_to_page_size(size);
+  if (size_ > memory_size_) {  // only whole pages of the attached memory can be used
+    size_ = memory_size_ - memory_size_ % stack_traits::page_size();
+  }
+  if (0 == size_) {
+    ctx.sp = nullptr;
+    return;
+  }
   assert(size > 0 && size_ > 0 && size_ <= memory_size_);
 
   ctx.size = size_;
-- 
2.43.0


From 9f964df582e2d9563b804fc37222ebecae9f815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 31/34] fix: coroutines whose objects do not fit into the stack
 must be refused

---
 .../coroutine/coroutine_context_container.h    | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/libcopp/coroutine/coroutine_context_container.h b/include/libcopp/coroutine/coroutine_context_container.h
index 3d5a46c..a970877 100755
--- a/include/libcopp/coroutine/coroutine_context_container.h
+++ b/include/libcopp/coroutine/coroutine_context_container.h
@@ -13,6 +13,7 @@
 #include <libcopp/utils/config/stl_include_prefix.h>  // NOLINT(build/include_order)
 // clang-format on
 #include <cstddef>
+#include <limits>
 // clang-format off
 #include <libcopp/utils/config/stl_include_suffix.h>  // NOLINT(build/include_order)
 // clang-format on
@@ -75,13 +76,22 @@ class coroutine_context_container : public coroutine_context {
       stack_sz = stack_traits::default_size();
     }
 
+    // the sums below must not overflow
+    if (stack_sz > (std::numeric_limits<size_t>::max)() / 4 || private_buffer_size >= stack_sz ||
+        coroutine_size >= stack_sz) {
+      return ret;
+    }
+
     // padding to sizeof size_t
     coroutine_size = align_address_size(coroutine_size);
     const size_t this_align_size = align_address_size(sizeof(this_type));
     coroutine_size += this_align_size;
     private_buffer_size = coroutine_context::align_private_data_size(private_buffer_size);
 
-    if (stack_sz <= coroutine_size + private_buffer_size) {
+    // there must be enough left for the initial context on the stack
+    constexpr const size_t initial_context_size = 512;
+    const size_t reserve_size = align_stack_size(coroutine_size + private_buffer_size) + initial_context_size;
+    if (stack_sz <= reserve_size) {
       return ret;
     }
 
@@ -92,6 +102,12 @@ class coroutine_context_container : public coroutine_context {
       return ret;
     }
 
+    // allocator may return a smaller stack than what we want
+    if (callee_stack.size <= reserve_size) {
+      alloc.deallocate(callee_stack);
+      return ret;
+    }
+
     // placement new
     unsigned char *this_addr = reinterpret_cast<unsigned char *>(callee_stack.sp);
     // stack down
-- 
2.43.0


From 09bb839f18ee48df5ff1ce30d6719261d9d8d788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 32/34] fix: task creation must refuse private buffers larger
 than the stack

---
 include/libcotask/task.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 794e332..82d21b1 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -101,7 +101,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     size_t action_size = coroutine_type::align_address_size(sizeof(a_t));
     size_t task_size = coroutine_type::align_address_size(sizeof(self_type));
 
-    if (stack_size <= sizeof(impl::task_impl *) + private_buffer_size + action_size + task_size) {
+    // private_buffer_size may be so large that the sum overflows
+    if (private_buffer_size >= stack_size ||
+        stack_size <= sizeof(impl::task_impl *) + private_buffer_size + action_size + task_size) {
       return ptr_type();
     }
 
-- 
2.43.0


From 3614c17f6e6d5190132c50acfbfaee3a55422b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:00 +0000
Subject: [PATCH 33/34] fix: then() must not move the allocator out of the task

---
 include/libcotask/task.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 82d21b1..9780365 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -395,9 +395,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       then(create(std::forward<Ty>(functor), stack_size_, get_private_buffer_size()), priv_data);
     }
 
-    return then(
-        create(std::forward<Ty>(functor), coroutine_obj_->get_allocator(), stack_size_, get_private_buffer_size()),
-        priv_data);
+    // the allocator given to create() is moved into the new task, this task still need its own one
+    typename coroutine_type::allocator_type alloc(coroutine_obj_->get_allocator());
+    return then(create(std::forward<Ty>(functor), alloc, stack_size_, get_private_buffer_size()), priv_data);
   }
 
   template <typename Ty>
@@ -406,7 +406,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       return then(create(func, stack_size_, get_private_buffer_size()), priv_data);
     }
 
-    return then(create(func, coroutine_obj_->get_allocator(), stack_size_, get_private_buffer_size()), priv_data);
+    typename coroutine_type::allocator_type alloc(coroutine_obj_->get_allocator());
+    return then(create(func, alloc, stack_size_, get_private_buffer_size()), priv_data);
   }
 
   /**
-- 
2.43.0


From 1dc9a772b09304c85cc520ac97ebdc6540ed402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:00 +0000
Subject: [PATCH 34/34] fix: task_manager::reset must kill all tasks when one
 of them throws

---
 include/libcotask/task_manager.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 5999daf..cf173f9 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -253,7 +253,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       last_tick_time_.tv_nsec = 0;
     }
 
-    // then, kill all tasks
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+    std::list<std::exception_ptr> eptrs;
+#endif
+    // then, kill all tasks, exceptions of one task must not keep the others alive
     for (typename std::vector<task_ptr_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
       // this manager may be destroyed before the task is finished
@@ -261,9 +264,17 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       task_manager_helper::cleanup_task_manager(**iter, reinterpret_cast<void *>(this));
 #endif
       if (!(*iter)->is_exiting()) {
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+        (*iter)->kill(eptrs, EN_TS_KILLED, nullptr);
+#else
         (*iter)->kill(EN_TS_KILLED);
+#endif
       }
     }
+
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+    task_type::maybe_rethrow(eptrs);
+#endif
   }
 
   /**
-- 
2.43.0

