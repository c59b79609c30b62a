From 95a26912326d9c65cae1c8cc3040296c6ff9cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 01/41] fix: when_all: do not revive the arrival count from the
 stop callback

If the last child arrives while a stop request is being delivered, the stop
callback could raise the count from zero again and complete the operation a
second time.
---
 include/stdexec/__detail/__when_all.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__when_all.hpp b/include/stdexec/__detail/__when_all.hpp
index 305bf4f..e2797f5 100644
--- a/include/stdexec/__detail/__when_all.hpp
+++ b/include/stdexec/__detail/__when_all.hpp
@@ -565,8 +565,21 @@ namespace STDEXEC
       constexpr void operator()() const noexcept
       {
         // Temporarily increment the count to avoid concurrent/recursive arrivals to
-        // pull the rug under our feet. Relaxed memory order is fine here.
-        __state_->__count_.fetch_add(1, __std::memory_order_relaxed);
+        // pull the rug under our feet. Relaxed memory order is fine here. If the count is
+        // already zero, then the last child has arrived and the operation is completing (it
+        // is waiting for this callback to return). The count must not be revived then, or
+        // the operation would be completed twice.
+        auto __count = __state_->__count_.load(__std::memory_order_relaxed);
+        do
+        {
+          if (__count == 0)
+          {
+            return;
+          }
+        }
+        while (!__state_->__count_.compare_exchange_weak(__count,
+                                                         __count + 1,
+                                                         __std::memory_order_relaxed));
 
         __state_t __expected = __started;
         // Transition to the "stopped" state if and only if we're in the
-- 
2.43.0


From 541c6a7fbf27e232470afa94ae76cc1d91ea1963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 02/41] fix: when_any: do not revive the arrival count from the
 stop callback

If the last child arrives while a stop request is being delivered, the stop
callback could raise the count from zero again and complete the operation a
second time.
---
 include/exec/when_any.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/exec/when_any.hpp b/include/exec/when_any.hpp
index 1e1a58b..0b05447 100644
--- a/include/exec/when_any.hpp
+++ b/include/exec/when_any.hpp
@@ -88,8 +88,21 @@ namespace experimental::execution
         constexpr void operator()() const noexcept
         {
           // Temporarily increment the count to avoid concurrent/recursive arrivals to
-          // pull the rug under our feet. Relaxed memory order is fine here.
-          __op_->__count_.fetch_add(1, __std::memory_order_relaxed);
+          // pull the rug under our feet. Relaxed memory order is fine here. If the count is
+          // already zero, then the last child has arrived and the operation is completing (it
+          // is waiting for this callback to return). The count must not be revived then, or
+          // the operation would be completed twice.
+          auto __count = __op_->__count_.load(__std::memory_order_relaxed);
+          do
+          {
+            if (__count == 0)
+            {
+              return;
+            }
+          }
+          while (!__op_->__count_.compare_exchange_weak(__count,
+                                                        __count + 1,
+                                                        __std::memory_order_relaxed));
 
           __op_->__stop_source_.request_stop();
 
-- 
2.43.0


From 303606fe514c5ec25f92eb954ffe1e7046ab7820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 03/41] fix: timed_thread_context completes operations that are
 still queued when it is closed

---
 include/exec/timed_thread_scheduler.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index b19e5a2..35f7fc6 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -151,6 +151,7 @@ namespace experimental::execution
 
     void run()
     {
+      bool closed = false;
       while (true)
       {
         while (command_type* op = command_queue_.pop_front())
@@ -190,13 +191,19 @@ namespace experimental::execution
         {
           std::ptrdiff_t expected = 0;
           while (
-            !n_submissions_in_flight_.compare_exchange_weak(expected,
-                                                            context_closed,
-                                                            STDEXEC::__std::memory_order_relaxed))
+            !closed
+            && !n_submissions_in_flight_.compare_exchange_weak(expected,
+                                                               context_closed,
+                                                               STDEXEC::__std::memory_order_acquire))
           {
             STDEXEC::__spin_loop_pause();
             expected = 0;
           }
+          // Process the commands that have been queued before the context was closed
+          if (!std::exchange(closed, true))
+          {
+            continue;
+          }
           op = heap_.front();
           while (op)
           {
@@ -235,7 +242,7 @@ namespace experimental::execution
         ready_ = true;
         cv_.notify_one();
       }
-      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
+      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_release);
     }
 
     void request_stop()
-- 
2.43.0


From d40236e262addedfd52f46fd00e80db105a11099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 04/41] fix: timed_thread_context does not lose a stop command
 that overtakes its schedule command

---
 include/exec/timed_thread_scheduler.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index 35f7fc6..d60a729 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -104,6 +104,8 @@ namespace experimental::execution
       timed_thread_schedule_operation_base* prev_  = nullptr;
       timed_thread_schedule_operation_base* left_  = nullptr;
       timed_thread_schedule_operation_base* right_ = nullptr;
+      // set by the context's thread if the stop command has overtaken the schedule command
+      bool stop_processed_ = false;
       void (*set_stopped_)(timed_thread_operation_base*) noexcept;
     };
 
@@ -159,6 +161,11 @@ namespace experimental::execution
           if (op->command_ == command_type::command_type::schedule)
           {
             auto* task  = static_cast<task_type*>(op);
+            if (task->stop_processed_)
+            {
+              task->set_stopped_(task);
+              continue;
+            }
             task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
             heap_.insert(task);
           }
@@ -170,6 +177,10 @@ namespace experimental::execution
             {
               stop_op->target_->set_stopped_(stop_op->target_);
             }
+            else
+            {
+              stop_op->target_->stop_processed_ = true;
+            }
             stop_op->set_value_(stop_op);
           }
         }
-- 
2.43.0


From df789cf3a1546bf58b295c61f589333ff14f02fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 05/41] fix: timed_thread_context does not go to sleep while a
 command is being queued

---
 include/exec/timed_thread_scheduler.hpp             | 13 ++++++++++++-
 include/stdexec/__detail/__intrusive_mpsc_queue.hpp |  9 +++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index d60a729..19ca4ed 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -156,8 +156,19 @@ namespace experimental::execution
       bool closed = false;
       while (true)
       {
-        while (command_type* op = command_queue_.pop_front())
+        while (true)
         {
+          command_type* op = command_queue_.pop_front();
+          if (!op)
+          {
+            if (command_queue_.empty())
+            {
+              break;
+            }
+            // A producer that will not notify us is in the middle of adding a command
+            STDEXEC::__spin_loop_pause();
+            continue;
+          }
           if (op->command_ == command_type::command_type::schedule)
           {
             auto* task  = static_cast<task_type*>(op);
diff --git a/include/stdexec/__detail/__intrusive_mpsc_queue.hpp b/include/stdexec/__detail/__intrusive_mpsc_queue.hpp
index 01b9d4d..9f842e2 100644
--- a/include/stdexec/__detail/__intrusive_mpsc_queue.hpp
+++ b/include/stdexec/__detail/__intrusive_mpsc_queue.hpp
@@ -56,6 +56,15 @@ namespace STDEXEC
       return __prev == &__stub_;
     }
 
+    // Must only be called by the consumer. If pop_front() returns nullptr although the queue is not
+    // empty then a producer is in the middle of adding a node, and its push_back() will not
+    // necessarily return true.
+    [[nodiscard]]
+    constexpr auto empty() const noexcept -> bool
+    {
+      return this->__tail_ == &__stub_;
+    }
+
     constexpr auto pop_front() noexcept -> _Node*
     {
       _Node* __tail = this->__tail_;
-- 
2.43.0


From 3df164b9c976dced277e76f4725c181ab471cae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 06/41] fix: timed_thread_context is not used by a stop
 callback after it has been destroyed

---
 include/exec/timed_thread_scheduler.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index 19ca4ed..9a488c1 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -267,6 +267,21 @@ namespace experimental::execution
       n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_release);
     }
 
+    // Acquires the reference for the stop command only if the context cannot be closed in between.
+    // Otherwise, the context's thread stops the target and could be gone before the command arrives.
+    void schedule_stop(stop_type* op, STDEXEC::__std::atomic<int>& ref_count)
+    {
+      if (n_submissions_in_flight_.fetch_add(1, STDEXEC::__std::memory_order_relaxed) >= 0
+          && ref_count.fetch_add(1, STDEXEC::__std::memory_order_relaxed) == 1
+          && command_queue_.push_back(op))
+      {
+        std::scoped_lock lock{ready_mutex_};
+        ready_ = true;
+        cv_.notify_one();
+      }
+      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_release);
+    }
+
     void request_stop()
     {
       std::scoped_lock lock{ready_mutex_};
@@ -377,10 +392,7 @@ namespace experimental::execution
 
       constexpr void request_stop() noexcept
       {
-        if (ref_count_.fetch_add(1, STDEXEC::__std::memory_order_relaxed) == 1)
-        {
-          context_.schedule(&stop_op_);
-        }
+        context_.schedule_stop(&stop_op_, ref_count_);
       }
 
       timed_thread_context&                         context_;
-- 
2.43.0


From 70936252745ee8067926cf8617b0b059a0be6b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 07/41] fix: spawn_future: keep the state alive while a stop
 request is being delivered

When the future's receiver requests stop and the spawned operation reacts by
completing synchronously, __complete destroyed the state, and with it the stop
source whose request_stop() was still running in __try_cancel.
---
 include/stdexec/__detail/__spawn_future.hpp | 28 +++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/include/stdexec/__detail/__spawn_future.hpp b/include/stdexec/__detail/__spawn_future.hpp
index fd74006..c5bb594 100644
--- a/include/stdexec/__detail/__spawn_future.hpp
+++ b/include/stdexec/__detail/__spawn_future.hpp
@@ -374,9 +374,20 @@ namespace STDEXEC
       // be completed with set_stopped because the future received and processed a stop request
       // before the producer could finish.
       void (*__callback_)(__spawn_future_state*, void*) noexcept;
+      // One reference for whichever of the producer and the consumer cleans up, and one for a
+      // __try_cancel in progress: the stop request it makes may complete the producer on the same
+      // thread, which mustn't destroy the stop source that is busy delivering the request.
+      __std::atomic<int> __refs_{1};
 
       void __destroy() noexcept
       {
+        // acquire-release so the writes made under one reference happen-before the destruction
+        // initiated by the release of the other
+        if (__refs_.fetch_sub(1, __std::memory_order_acq_rel) != 1)
+        {
+          return;
+        }
+
         [[maybe_unused]]
         auto __assoc = std::move(__assoc_);
 
@@ -506,6 +517,22 @@ namespace STDEXEC
         //           store-release entailed by that exchange would synchronize with the producer as
         //           required.
 
+        // If the spawned operation reacts to the stop request by completing synchronously and a
+        // receiver is already registered then __complete runs to its end within request_stop, so we
+        // must keep the current object alive until we're done with it. This is safe to do here:
+        // whoever might be about to destroy the object must first destroy the stop callback that
+        // has invoked us or observe that we've abandoned the operation, below.
+        struct __release
+        {
+          void operator()(__spawn_future_state* __state) const noexcept
+          {
+            __state->__destroy();
+          }
+        };
+
+        __self->__refs_.fetch_add(1, __std::memory_order_relaxed);
+        std::unique_ptr<__spawn_future_state, __release> __ref{__self};
+
         // It feels wasteful to do this when we might not need to but, once we update
         // __registered_receiver_ to (__self + 1), there's a chance the current object
         // will be destroyed so it's not safe to defer this.
@@ -588,6 +615,7 @@ namespace STDEXEC
           // invoke __cb (the copy of __callback_ that we put on the stack) with a null self-pointer
           // to signal that it ought to invoke set_stopped(std::move(*__rcvr)) without touching the
           // operation.
+          __ref.reset();
           __cb(nullptr, __rcvr);
         }
         else
-- 
2.43.0


From 5350559f5072b86796d78a8d987a6527698eefad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 08/41] fix: async_scope: an unstarted future operation
 deregisters its stop callback before giving up its state

The stop callback was destroyed after the destructor had handed the state over
to the spawned operation, which may delete it at any moment; a stop request in
between used the state after it was freed.
---
 include/exec/async_scope.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/exec/async_scope.hpp b/include/exec/async_scope.hpp
index 7635dbb..653983d 100644
--- a/include/exec/async_scope.hpp
+++ b/include/exec/async_scope.hpp
@@ -382,6 +382,8 @@ namespace experimental::execution
 
       constexpr ~__future_opstate() noexcept
       {
+        // no stop request may be forwarded to a state which we no longer own
+        __forward_consumer_.reset();
         if (__state_ != nullptr)
         {
           auto             __raw_state = __state_.get();
-- 
2.43.0


From 9ea1bcb049c6da9d39b27b0d0b043cea55ae923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:26 +0000
Subject: [PATCH 09/41] fix: transform_sender is noexcept only when copying or
 moving the sender is

---
 include/stdexec/__detail/__transform_sender.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__transform_sender.hpp b/include/stdexec/__detail/__transform_sender.hpp
index 88f2151..3d365cd 100644
--- a/include/stdexec/__detail/__transform_sender.hpp
+++ b/include/stdexec/__detail/__transform_sender.hpp
@@ -64,7 +64,7 @@ namespace STDEXEC
         }
         else if constexpr (__same_as<__result_t, _Sndr>)
         {
-          return __declfn<__result_t, __is_nothrow>();
+          return __declfn<__result_t, (_Nothrow && __is_nothrow)>();
         }
         else if constexpr (__same_as<_OpTag, start_t>)
         {
-- 
2.43.0


From 4005303c4e3cc166219be1107d52a862beba9aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:26 +0000
Subject: [PATCH 10/41] fix: split, ensure_started: the last of several
 consumers detaching concurrently stops the shared operation

---
 include/exec/detail/shared.hpp | 48 ++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/include/exec/detail/shared.hpp b/include/exec/detail/shared.hpp
index 58407d9..43e612d 100644
--- a/include/exec/detail/shared.hpp
+++ b/include/exec/detail/shared.hpp
@@ -413,14 +413,18 @@ namespace experimental::execution::__shared
       }
     }
 
+    // Called when another sender or operation state is given an interest in the result.
+    constexpr void __attach() noexcept
+    {
+      __consumers_.fetch_add(1, __std::memory_order_relaxed);
+    }
+
     constexpr void __detach() noexcept
     {
-      // increments the use count:
-      auto __started_ptr = __started_ref_.load();
-      // If the use count is 3 (one for *this, one for __started_ref_, and one for
-      // __started_ptr), then we are the final "consumer". Ask the operation to stop
-      // early.
-      if (3 == __started_ptr.use_count())
+      // If we are the final "consumer", ask the operation to stop early. The caller still holds a
+      // reference to *this. NB: the use count of the shared_ptr can't answer this question: when
+      // the last two consumers detach concurrently, neither would observe that it is the last.
+      if (1 == __consumers_.fetch_sub(1, __std::memory_order_acq_rel))
       {
         this->__stop_source_.request_stop();
       }
@@ -431,7 +435,9 @@ namespace experimental::execution::__shared
       __started_ref_.store({}, __std::memory_order_release);
     }
 
-    __std::atomic_flag __started_{};
+    // the number of senders and operation states which are interested in the result:
+    __std::atomic<std::size_t> __consumers_{1};
+    __std::atomic_flag         __started_{};
     // this shared_ptr is non-null when the operation is running:
     __std::__atomic_shared_ptr<__shared_state> __started_ref_;
     connect_result_t<_CvSender, __receiver_t>  __shared_op_;
@@ -492,11 +498,30 @@ namespace experimental::execution::__shared
           __shared::__mk_sh_state(static_cast<_CvChild&&>(__child), static_cast<_Env&&>(__env)))
     {}
 
-    __sndr(__sndr&&)            = default;
-    __sndr& operator=(__sndr&&) = default;
+    __sndr(__sndr&&) = default;
+
+    constexpr __sndr& operator=(__sndr&& __other) noexcept
+    {
+      auto __tmp{static_cast<__sndr&&>(__other)};
+      __sh_state_.swap(__tmp.__sh_state_);
+      return *this;
+    }
+
+    constexpr __sndr(__sndr const & __other) noexcept
+      requires __same_as<_Tag, split_t>
+      : __sh_state_(__other.__sh_state_)
+    {
+      if (__sh_state_)
+      {
+        __sh_state_->__attach();
+      }
+    }
 
-    __sndr(__sndr const &)            = default;
-    __sndr& operator=(__sndr const &) = default;
+    constexpr __sndr& operator=(__sndr const & __other) noexcept
+      requires __same_as<_Tag, split_t>
+    {
+      return *this = __sndr{__other};
+    }
 
     constexpr ~__sndr()
     {
@@ -525,6 +550,7 @@ namespace experimental::execution::__shared
     constexpr auto connect(_Receiver __rcvr) const & noexcept  //
       -> __local_state<_Tag, _CvChild, _Env, _Receiver>
     {
+      __sh_state_->__attach();
       return __local_state<_Tag, _CvChild, _Env, _Receiver>{__sh_state_,
                                                             static_cast<_Receiver&&>(__rcvr)};
     }
-- 
2.43.0


From 027294b1d794b4fdcc30218d3f907c52ff902eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:26 +0000
Subject: [PATCH 11/41] fix: bwos lifo_queue: a successful steal synchronises
 with the grant of the block

---
 include/exec/detail/bwos_lifo_queue.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/exec/detail/bwos_lifo_queue.hpp b/include/exec/detail/bwos_lifo_queue.hpp
index a45863c..96a2f92 100644
--- a/include/exec/detail/bwos_lifo_queue.hpp
+++ b/include/exec/detail/bwos_lifo_queue.hpp
@@ -552,8 +552,13 @@ namespace experimental::execution::bwos
       result.status = lifo_queue_error_code::empty;
       return result;
     }
-    // Try to claim the item at spos by atomically incrementing steal_tail_
-    if (!steal_tail_.compare_exchange_strong(spos, spos + 1, STDEXEC::__std::memory_order_relaxed))
+    // Try to claim the item at spos by atomically incrementing steal_tail_. Acquire ordering pairs
+    // with the release store in grant(): the owner may have taken this block over, written new items
+    // and granted it again since tail_ was loaded above.
+    if (!steal_tail_.compare_exchange_strong(spos,
+                                             spos + 1,
+                                             STDEXEC::__std::memory_order_acquire,
+                                             STDEXEC::__std::memory_order_relaxed))
     {
       // Another thief claimed this item, retry
       result.status = lifo_queue_error_code::conflict;
-- 
2.43.0


From 18bf7c56a858cfabeb6294ce0ae6b954a9057684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 12/41] fix: static_thread_pool schedule_all: start() does not
 use an operation which may have completed

---
 include/exec/static_thread_pool.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index f84d038..fd5016b 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1574,7 +1574,8 @@ namespace experimental::execution
         bool                                 has_started_{false};
         __intrusive_queue<&task_base::next_> tasks_{};
         std::size_t                          tasks_size_{};
-        __std::atomic<std::size_t>           countdown_{std::ranges::size(range_)};
+        // one for each item, and one for start()
+        __std::atomic<std::size_t>           countdown_{std::ranges::size(range_) + 1};
       };
 
       template <class Range, class ItemReceiver>
@@ -1766,8 +1767,21 @@ namespace experimental::execution
           }
 
           std::unique_lock lock{this->start_mutex_};
-          this->has_started_ = true;
-          this->pool_.bulk_enqueue(remote_queue, std::move(this->tasks_), this->tasks_size_);
+          this->has_started_                             = true;
+          __intrusive_queue<&task_base::next_> tasks      = std::move(this->tasks_);
+          std::size_t const                    tasks_size = this->tasks_size_;
+          auto&                                pool       = this->pool_;
+          lock.unlock();
+
+          // Give up start()'s own share of the countdown. It is the last one only if no item is
+          // left to be enqueued.
+          if (this->countdown_.fetch_sub(1, __std::memory_order_acq_rel) == 1)
+          {
+            STDEXEC::set_value(std::move(this->rcvr_));
+            return;
+          }
+          // The last of these tasks completes the operation: *this must not be used any more.
+          pool.bulk_enqueue(remote_queue, std::move(tasks), tasks_size);
         }
 
        private:
-- 
2.43.0


From ca8e0b23bc303c384b75b041fecde9e297b4400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 13/41] fix: static_thread_pool schedule_all: the completion of
 the last item synchronises with the others

---
 include/exec/static_thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index fd5016b..c0b731a 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1669,7 +1669,7 @@ namespace experimental::execution
 
         void set_value() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
+          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_acq_rel);
           if (countdown == 1)
           {
             STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
@@ -1678,7 +1678,7 @@ namespace experimental::execution
 
         void set_stopped() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
+          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_acq_rel);
           if (countdown == 1)
           {
             STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
-- 
2.43.0


From b6649b74159369d9b701511e24b71c67bddc2889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 14/41] fix: parallel_scheduler: destroy the backend pointer
 and the predecessor's operation when they were not used up

---
 .../stdexec/__detail/__parallel_scheduler.hpp | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 5d0c290..05ce4ac 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -209,18 +209,28 @@ namespace STDEXEC
 
       STDEXEC_IMMOVABLE(__system_op);
 
+      ~__system_op()
+      {
+        if (!__started_)
+        {
+          std::destroy_at(&__preallocated_.__as<__backend_ptr_t>());
+        }
+      }
+
       /// Starts the work stored in `this`.
       void start() & noexcept
       {
+        auto& __sched_impl = __preallocated_.__as<__backend_ptr_t>();
+        auto  __impl       = std::move(__sched_impl);
+        std::destroy_at(&__sched_impl);
+        __started_ = true;
+
         bool const __stop_requested = __rcvr_.__register_stop_callback();
         if (__stop_requested)
         {
           __rcvr_.set_stopped();
           return;
         }
-        auto& __sched_impl = __preallocated_.__as<__backend_ptr_t>();
-        auto  __impl       = std::move(__sched_impl);
-        std::destroy_at(&__sched_impl);
         __impl->schedule(__rcvr_, __preallocated_.__as_storage());
       }
 
@@ -233,6 +243,9 @@ namespace STDEXEC
       __aligned_storage<STDEXEC_PARALLEL_SCHEDULER_SCHEDULE_OP_SIZE,
                         STDEXEC_PARALLEL_SCHEDULER_SCHEDULE_OP_ALIGN>
         __preallocated_;
+
+      /// Whether the backend interface has been taken out of `__preallocated_`.
+      bool __started_ = false;
     };
   }  // namespace __detail
 
@@ -602,6 +615,7 @@ namespace STDEXEC
       __prepare_storage_for_backend_impl(__bulk_state_base_t* __base) -> std::span<std::byte>
       {
         auto* __self = static_cast<__system_bulk_op*>(__base);
+        __self->__prepare_storage_for_backend = nullptr;
         // We don't need anymore the storage for the previous operation state.
         __self->__preallocated_.template __as<__inner_op_state>().~__inner_op_state();
         // Reuse the preallocated storage for the backend.
@@ -626,6 +640,15 @@ namespace STDEXEC
         new (__preallocated_.__as_ptr()) __inner_op_state(static_cast<_InitF&&>(__initFunc)(*this));
       }
 
+      ~__system_bulk_op()
+      {
+        // Unless the storage has been handed to the backend, it still holds the inner operation state.
+        if (this->__prepare_storage_for_backend != nullptr)
+        {
+          __preallocated_.template __as<__inner_op_state>().~__inner_op_state();
+        }
+      }
+
       __system_bulk_op(__system_bulk_op const &)                    = delete;
       __system_bulk_op(__system_bulk_op&&)                          = delete;
       auto operator=(__system_bulk_op const &) -> __system_bulk_op& = delete;
-- 
2.43.0


From 980594f1c43b49c175dfa432991211cd31d4fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 15/41] fix: parallel_scheduler: concurrent first calls of
 get_parallel_scheduler return the same scheduler

---
 .../__detail/__parallel_scheduler_default_impl.hpp    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp b/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
index 86ce869..c2a7167 100644
--- a/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
@@ -350,11 +350,16 @@ namespace STDEXEC::__parallel_scheduler_default_impl
       // Note: we are lazy-loading the instance to avoid creating it if it is not needed.
       auto __new_instance = __factory_.load(__std::memory_order_relaxed)();
 
-      // Store the newly created instance.
+      // Store the newly created instance, unless another thread was faster. In that case use
+      // the instance of the other thread, and let go of ours after releasing the lock.
       __acquire_instance_lock();
-      __instance_ = __new_instance;
+      if (!__instance_)
+      {
+        __instance_ = __new_instance;
+      }
+      __rcvr = __instance_;
       __release_instance_lock();
-      return __new_instance;
+      return __rcvr;
     }
 
     /// Set `__new_factory` as the new factory for `_Interface` and return the old one.
-- 
2.43.0


From 5e0eb92352f1712d55be2de1c41c57adf21ff12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 16/41] fix: parallel_scheduler: an exception thrown by a bulk
 function is delivered as an error

---
 .../stdexec/__detail/__parallel_scheduler.hpp | 53 ++++++++++++++-----
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 05ce4ac..079287e 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -26,6 +26,7 @@ import stdexec;
 
 #  include "__execution_fwd.hpp"
 
+#  include "__atomic.hpp"
 #  include "__bulk.hpp"
 #  include "__domain.hpp"
 #  include "__manual_lifetime.hpp"
@@ -36,6 +37,7 @@ import stdexec;
 #  include "__transform_sender.hpp"
 
 #  if !STDEXEC_USE_MODULES()
+#    include <exception>
 #    include <optional>
 #    include <utility>
 #  endif
@@ -384,6 +386,12 @@ namespace STDEXEC
       void set_value() noexcept override
       {
         auto __state = reinterpret_cast<_BulkState*>(this);
+        if (__state->__failed_.load(__std::memory_order_relaxed))
+        {
+          // One of the calls of the bulk functor has thrown.
+          set_error(std::move(__state->__error_));
+          return;
+        }
         auto __args  = std::move(__base_t::__arguments_.__get());
         __base_t::__arguments_.__destroy();
         std::destroy_at(this);
@@ -412,6 +420,35 @@ namespace STDEXEC
 
       /// Calls the bulk functor passing `__index` and the values from the previous sender.
       void execute(size_t __begin, size_t __end) noexcept override
+      {
+        STDEXEC_TRY
+        {
+          __execute(__begin, __end);
+        }
+        STDEXEC_CATCH_ALL
+        {
+          // Keep the first exception; it is delivered when the backend is done with the calls.
+          auto __state = reinterpret_cast<_BulkState*>(this);
+          if (!__state->__failed_.exchange(true, __std::memory_order_relaxed))
+          {
+            __state->__error_ = std::current_exception();
+          }
+        }
+      }
+
+     protected:
+      void __query_env(__type_index __query_type,
+                       __type_index __value_type,
+                       void*        __dest) const noexcept override
+      {
+        if (__query_type == __mtypeid<get_stop_token_t>)
+        {
+          __query(get_stop_token, __value_type, __dest);
+        }
+      }
+
+     private:
+      void __execute(size_t __begin, size_t __end)
       {
         auto __state = reinterpret_cast<_BulkState*>(this);
         if constexpr (_BulkState::__is_unchunked)
@@ -442,18 +479,6 @@ namespace STDEXEC
         }
       }
 
-     protected:
-      void __query_env(__type_index __query_type,
-                       __type_index __value_type,
-                       void*        __dest) const noexcept override
-      {
-        if (__query_type == __mtypeid<get_stop_token_t>)
-        {
-          __query(get_stop_token, __value_type, __dest);
-        }
-      }
-
-     private:
       void __query(get_stop_token_t, __type_index __value_type, void* __dest) const noexcept
       {
         auto __state         = reinterpret_cast<_BulkState const *>(this);
@@ -500,6 +525,10 @@ namespace STDEXEC
       std::span<std::byte> (*__prepare_storage_for_backend)(__bulk_state_base*){nullptr};
       /// The size of the bulk operation.
       _Size __size_;
+      /// Whether a call of the bulk functor has thrown.
+      __std::atomic<bool> __failed_{false};
+      /// The exception of the first call of the bulk functor that has thrown.
+      std::exception_ptr __error_{};
 
       __bulk_state_base(_Fn&& __fun, _Rcvr&& __rcvr, _Size __size)
         : __fun_{std::move(__fun)}
-- 
2.43.0


From b91f638912801e946ef884cad3302dae8f8ce1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:44 +0000
Subject: [PATCH 17/41] fix: task_scheduler: bulk on an inline scheduler does
 not recurse without end

---
 include/stdexec/__detail/__task_scheduler.hpp | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 476a259..96605e2 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -139,6 +139,26 @@ namespace STDEXEC
       }
     };
 
+    // The environment of the bulk operations on the underlying scheduler. There is no start
+    // scheduler in it: if there were, bulk on a scheduler that completes where it is started
+    // (e.g., inline_scheduler) would be dispatched to the receiver's task_scheduler again.
+    struct __bulk_env
+    {
+      [[nodiscard]]
+      auto query(get_allocator_t) const noexcept -> __any_allocator<std::byte>
+      {
+        return __detail::__proxy_env{__rcvr_}.query(get_allocator);
+      }
+
+      [[nodiscard]]
+      constexpr auto query(get_stop_token_t) const noexcept -> never_stop_token
+      {
+        return never_stop_token{};
+      }
+
+      receiver_proxy& __rcvr_;
+    };
+
     //////////////////////////////////////////////////////////////////////////////////////
     // __just_with_scheduler
     template <class _Sch>
@@ -806,7 +826,7 @@ namespace STDEXEC
                                           par,
                                           __count,
                                           __task::__bulk_chunked_fn{__rcvr_proxy});
-      __schedule<__task::__env_t<true>>(__rcvr_proxy, std::move(__sndr), __storage);
+      __schedule<__task::__bulk_env>(__rcvr_proxy, std::move(__sndr), __storage);
     }
 
     constexpr void
@@ -818,7 +838,7 @@ namespace STDEXEC
                                             par,
                                             __count,
                                             __task::__bulk_unchunked_fn{__rcvr_proxy});
-      __schedule<__task::__env_t<true>>(__rcvr_proxy, std::move(__sndr), __storage);
+      __schedule<__task::__bulk_env>(__rcvr_proxy, std::move(__sndr), __storage);
     }
 
     [[nodiscard]]
-- 
2.43.0


From f69e446bf16893d498b1c93456976ecf3fa4b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:44 +0000
Subject: [PATCH 18/41] fix: task_scheduler: forward stop requests from tokens
 of other types

---
 include/stdexec/__detail/__task_scheduler.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 96605e2..701ed32 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -332,6 +332,9 @@ namespace STDEXEC
 
       constexpr void start() noexcept
       {
+        // Forward stop requests when the receiver's stop token is not an inplace_stop_token.
+        // If stop was requested already, the backend sees that in the token it gets.
+        (void) __rcvr_proxy_.__register_stop_callback();
         __backend_.schedule(__rcvr_proxy_, std::span{__storage_});
       }
 
-- 
2.43.0


From 6f62887a33d10415c1b1e40c0ede254281515863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:53 +0000
Subject: [PATCH 19/41] fix: task_scheduler: sequential bulk calls the function
 once per index

---
 include/stdexec/__detail/__task_scheduler.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 701ed32..afab947 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -403,16 +403,19 @@ namespace STDEXEC
           using __values_t = __decayed_tuple<_As...>;
           __state_->__values_.template emplace<__values_t>(static_cast<_As&&>(__as)...);
 
-          // Start the bulk operation.
+          // Start the bulk operation. If we are not parallelizing, a single call to execute
+          // runs all the iterations.
+          using __state_t           = __bulk_state<_BulkTag, _Policy, _Fn, _Rcvr, _Values>;
+          size_t const __num_calls = __state_t::__parallelize ? __state_->__shape_ : 1;
           if constexpr (__same_as<_BulkTag, bulk_chunked_t>)
           {
-            __state_->__backend_.schedule_bulk_chunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_chunked(__num_calls,
                                                        *__state_,
                                                        std::span{__state_->__storage_});
           }
           else
           {
-            __state_->__backend_.schedule_bulk_unchunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_unchunked(__num_calls,
                                                          *__state_,
                                                          std::span{__state_->__storage_});
           }
@@ -522,6 +525,11 @@ namespace STDEXEC
     struct __bulk_state final
       : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy, true>
     {
+      using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
+      static constexpr bool __parallelize = __same_as<__policy_t, STDEXEC::parallel_policy>
+                                         || __same_as<__policy_t,
+                                                      STDEXEC::parallel_unsequenced_policy>;
+
       constexpr explicit __bulk_state(_Rcvr                        __rcvr,
                                       size_t                       __shape,
                                       _Fn                          __fn,
@@ -546,10 +554,6 @@ namespace STDEXEC
       {
         STDEXEC_TRY
         {
-          using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
-          constexpr bool __parallelize =
-            __same_as<__policy_t, STDEXEC::parallel_policy>
-            || __same_as<__policy_t, STDEXEC::parallel_unsequenced_policy>;
           __visit(__task::__get_execute_bulk_fn<__parallelize>(_BulkTag(),
                                                                __fn_,
                                                                __shape_,
-- 
2.43.0


From 53fdbe530db2a4262f31702266217f0a1c6f1774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:53 +0000
Subject: [PATCH 20/41] fix: task_scheduler: bulk completes once, after all
 calls, when the function throws or memory runs out

---
 .../__detail/__parallel_scheduler_backend.hpp |  8 ++++--
 include/stdexec/__detail/__task_scheduler.hpp | 28 ++++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler_backend.hpp b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
index c18c4cc..429c889 100644
--- a/include/stdexec/__detail/__parallel_scheduler_backend.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
@@ -203,8 +203,10 @@ namespace STDEXEC
     };
 
     // Partially implements the _RcvrProxy interface (either receiver_proxy or
-    // bulk_item_receiver_proxy) in terms of a concrete receiver type _Rcvr.
-    template <class _Rcvr, class _RcvrProxy, bool _Infallible = false>
+    // bulk_item_receiver_proxy) in terms of a concrete receiver type _Rcvr. _Infallible means
+    // that set_error is never called, and _Unstoppable that set_stopped is not called if the
+    // receiver's stop token is unstoppable.
+    template <class _Rcvr, class _RcvrProxy, bool _Infallible = false, bool _Unstoppable = _Infallible>
     struct STDEXEC_ATTRIBUTE(empty_bases) __receiver_proxy_base
       : _RcvrProxy
       , __stop_callback_for<stop_token_of_t<env_of_t<_Rcvr>>>
@@ -249,7 +251,7 @@ namespace STDEXEC
 
       constexpr void set_stopped() noexcept final
       {
-        if constexpr (_Infallible && unstoppable_token<__stop_token_t>)
+        if constexpr (_Unstoppable && unstoppable_token<__stop_token_t>)
         {
           STDEXEC_ASSERT(!+"set_stopped called on an unstoppable receiver proxy");
           __std::unreachable();
diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index afab947..879a405 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -27,6 +27,7 @@ import stdexec;
 
 // include these after __execution_fwd.hpp
 #  include "__any.hpp"
+#  include "__atomic.hpp"
 #  include "__bulk.hpp"
 #  include "__concepts.hpp"
 #  include "__diagnostics.hpp"
@@ -523,7 +524,7 @@ namespace STDEXEC
     //! downstream receiver.
     template <class _BulkTag, class _Policy, class _Fn, class _Rcvr, class _Values>
     struct __bulk_state final
-      : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy, true>
+      : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy, false, true>
     {
       using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
       static constexpr bool __parallelize = __same_as<__policy_t, STDEXEC::parallel_policy>
@@ -542,6 +543,12 @@ namespace STDEXEC
 
       constexpr void set_value() noexcept final
       {
+        if (__failed_.load(__std::memory_order_relaxed))
+        {
+          // One of the calls of the bulk function has thrown.
+          STDEXEC::set_error(std::move(this->__rcvr_), std::move(__error_));
+          return;
+        }
         // Send the stored values to the downstream receiver.
         __visit([](auto& __rcvr, auto& __tupl)
                 { __apply(STDEXEC::set_value, std::move(__tupl), std::move(__rcvr)); },
@@ -563,7 +570,12 @@ namespace STDEXEC
         }
         STDEXEC_CATCH_ALL
         {
-          STDEXEC::set_error(std::move(this->__rcvr_), std::current_exception());
+          // Keep the first exception. The operation may complete only when the backend is done
+          // with the calls.
+          if (!__failed_.exchange(true, __std::memory_order_relaxed))
+          {
+            __error_ = std::current_exception();
+          }
         }
       }
 
@@ -574,6 +586,8 @@ namespace STDEXEC
       _Fn                          __fn_;
       size_t                       __shape_;
       _Values                      __values_{__no_init};
+      __std::atomic<bool>          __failed_{false};
+      std::exception_ptr           __error_{};
       __any_task_scheduler_backend __backend_;
       alignas(STDEXEC_TASK_BULK_SCHEDULE_OPSTATE_ALIGN) std::byte
         __storage_[STDEXEC_TASK_BULK_SCHEDULE_OPSTATE_SIZE];
@@ -865,11 +879,11 @@ namespace STDEXEC
   {
     // Implementation of the get_start_scheduler_t query for __receiver_proxy_base and
     // __proxy_env from __parallel_scheduler_backend.hpp.
-    template <class _Rcvr, class _Proxy, bool _Infallible>
-    constexpr void
-    __receiver_proxy_base<_Rcvr, _Proxy, _Infallible>::__query(get_start_scheduler_t,
-                                                               __type_index __value_type,
-                                                               void*        __dest) const noexcept
+    template <class _Rcvr, class _Proxy, bool _Infallible, bool _Unstoppable>
+    constexpr void __receiver_proxy_base<_Rcvr, _Proxy, _Infallible, _Unstoppable>::__query(
+      get_start_scheduler_t,
+      __type_index __value_type,
+      void*        __dest) const noexcept
     {
       if (__value_type == __mtypeid<task_scheduler>)
       {
-- 
2.43.0


From a54255d88c86b81e0a74ec541c0f137f09054afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:11 +0000
Subject: [PATCH 21/41] fix: fork_join: an exception thrown while connecting
 propagates

---
 include/exec/fork_join.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/fork_join.hpp b/include/exec/fork_join.hpp
index f2b1f71..8279e56 100644
--- a/include/exec/fork_join.hpp
+++ b/include/exec/fork_join.hpp
@@ -130,7 +130,7 @@ namespace experimental::execution
       using _cache_sndr_t = _fork_join::_cache_sndr_t<_variant_t<_child_completions_t>, _domain_t>;
 
       STDEXEC_ATTRIBUTE(host, device)
-      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr) noexcept
+      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr)
         : _rcvr_(static_cast<Rcvr&&>(rcvr))
         , _fork_opstate_(STDEXEC::connect(STDEXEC::__apply(_mk_when_all_fn{},
                                                            static_cast<Closures&&>(closures),
@@ -266,7 +266,7 @@ namespace experimental::execution
       }
 
       static constexpr auto __connect =
-        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr) noexcept
+        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr)
         -> _fork_join::_opstate_t<STDEXEC::__child_of<_Sender>,
                                   STDEXEC::__data_of<_Sender>,
                                   _Receiver>
-- 
2.43.0


From 5b6407cd7bc958626a1efd5fd615a406941d06fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 22/41] fix: inplace_stop_source: destroying it while
 request_stop() runs callbacks is safe

---
 include/stdexec/stop_token.hpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/stop_token.hpp b/include/stdexec/stop_token.hpp
index a53bd91..ee253a2 100644
--- a/include/stdexec/stop_token.hpp
+++ b/include/stdexec/stop_token.hpp
@@ -154,10 +154,12 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
 
     static constexpr uint8_t __stop_requested_flag_ = 1;
     static constexpr uint8_t __locked_flag_         = 2;
+    static constexpr uint8_t __notifying_flag_      = 4;
 
     mutable STDEXEC::__std::atomic<uint8_t>                __state_{0};
     mutable STDEXEC::__stok::__inplace_stop_callback_base* __callbacks_ = nullptr;
     std::thread::id                                        __notifying_thread_;
+    bool*                                                  __destroyed_ = nullptr;
   };
 
   // [stoptoken.inplace], class inplace_stop_token
@@ -256,6 +258,26 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
 
   inline inplace_stop_source::~inplace_stop_source()
   {
+    // A callback run by request_stop() can complete an operation, and the completion can
+    // lead to the destruction of the operation state that owns this stop source while
+    // request_stop() is still executing.
+    if ((__state_.load(STDEXEC::__std::memory_order_acquire) & __notifying_flag_) != 0)
+    {
+      if (std::this_thread::get_id() == __notifying_thread_)
+      {
+        // Destroyed from within a callback: tell request_stop() to return right away.
+        *__destroyed_ = true;
+        return;
+      }
+
+      // Wait until the other thread no longer uses this object.
+      STDEXEC::__stok::__spin_wait __spin;
+      while ((__state_.load(STDEXEC::__std::memory_order_acquire) & __notifying_flag_) != 0)
+      {
+        __spin.__wait();
+      }
+    }
+
     STDEXEC_ASSERT((__state_.load(STDEXEC::__std::memory_order_relaxed) & __locked_flag_) == 0);
     STDEXEC_ASSERT(__callbacks_ == nullptr);
   }
@@ -265,7 +287,9 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
     if (!__try_lock_unless_stop_requested_(true))
       return false;
 
-    __notifying_thread_ = std::this_thread::get_id();
+    bool __destroyed_during_callback = false;
+    __notifying_thread_              = std::this_thread::get_id();
+    __destroyed_                     = &__destroyed_during_callback;
 
     // We are responsible for executing callbacks.
     while (__callbacks_ != nullptr)
@@ -276,13 +300,17 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
       if (__callbacks_ != nullptr)
         __callbacks_->__prev_ptr_ = &__callbacks_;
 
-      __state_.store(__stop_requested_flag_, STDEXEC::__std::memory_order_release);
+      __state_.store(__stop_requested_flag_ | __notifying_flag_,
+                     STDEXEC::__std::memory_order_release);
 
       bool __removed_during_callback       = false;
       __callbk->__removed_during_callback_ = &__removed_during_callback;
 
       __callbk->__execute();
 
+      if (__destroyed_during_callback)
+        return true;
+
       if (!__removed_during_callback)
       {
         __callbk->__removed_during_callback_ = nullptr;
-- 
2.43.0


From cd49f4569e903f18610ad67cd91c3cb5454f9481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:55 +0000
Subject: [PATCH 23/41] fix: __any: an object with a greater alignment than the
 buffer's is not stored in the buffer

---
 include/stdexec/__detail/__any.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index 7325c82..72b2f39 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -367,7 +367,8 @@ namespace STDEXEC::__any
       // If _Model requires movability, then it must be nothrow moveable to be small.
       STDEXEC_CONSTEXPR_LOCAL bool __nothrow_movable = !__extension_of<_Model, __imovable>
                                                     || __nothrow_move_constructible<_Model>;
-      return sizeof(_Model) <= __buffer_size && __nothrow_movable;
+      return sizeof(_Model) <= __buffer_size && alignof(_Model) <= _Model::__buffer_alignment
+          && __nothrow_movable;
     }
   }
 
-- 
2.43.0


From 50b5b5c337477e90c573cb0d0a3beb4fd5752701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:27 +0000
Subject: [PATCH 24/41] fix: __any: exceptions from the constructors of the
 held object propagate

---
 include/stdexec/__detail/__any.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index 72b2f39..951204d 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -486,12 +486,13 @@ namespace STDEXEC::__any
   template <class _Value>
   struct __box
   {
-    constexpr explicit __box(_Value __val) noexcept
+    constexpr explicit __box(_Value __val) noexcept(__nothrow_move_constructible<_Value>)
       : __val_(std::move(__val))
     {}
 
     template <class... _Args>
-    constexpr explicit __box(_Args &&...__args) noexcept
+    constexpr explicit __box(_Args &&...__args)
+      noexcept(__nothrow_constructible_from<_Value, _Args...>)
       : __val_(static_cast<_Args &&>(__args)...)
     {}
 
@@ -652,8 +653,17 @@ namespace STDEXEC::__any
     {
       if (STDEXEC::__any::__is_small<_Model>(__buff.size()))
       {
-        return *std::construct_at(reinterpret_cast<_Model *>(__buff.data()),
-                                  static_cast<_Args &&>(__args)...);
+        STDEXEC_TRY
+        {
+          return *std::construct_at(reinterpret_cast<_Model *>(__buff.data()),
+                                    static_cast<_Args &&>(__args)...);
+        }
+        STDEXEC_CATCH_ALL
+        {
+          // The buffer no longer holds what it held; mark it as empty.
+          *__std::start_lifetime_as<__tagged_ptr>(__buff.data()) = __tagged_ptr();
+          STDEXEC_THROW();
+        }
       }
       else
       {
-- 
2.43.0


From 7799031810cfb30bf111a00009148b5c1a2de9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:49 +0000
Subject: [PATCH 25/41] fix: exec::function: connect to receivers with foreign
 stop tokens and deliver their stop requests

The receiver type a function erases to lists the stop-token query, so connecting
the function's operation to a receiver whose stop token is not an
inplace_stop_token instantiated an any_receiver_ref that holds an immovable
stop-callback state and did not compile; and the operation never registered
that callback, so the stop request would not have reached the erased child.
Hold the erased receiver by pointer and register the callback on start, as
any_sender does.
---
 include/exec/function.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/exec/function.hpp b/include/exec/function.hpp
index f0ba12f..af5168a 100644
--- a/include/exec/function.hpp
+++ b/include/exec/function.hpp
@@ -82,7 +82,7 @@ namespace experimental::execution
     {
       template <class _Opstate>
       constexpr explicit __receiver_wrapper(_Opstate *__opstate)
-        : _Receiver(__opstate->__rcvr_)
+        : _Receiver(std::addressof(__opstate->__rcvr_))
       {}
     };
 
@@ -107,7 +107,7 @@ namespace experimental::execution
 
       template <class _Opstate>
       constexpr explicit __receiver_wrapper(_Opstate *__opstate)
-        : _Receiver(__opstate->__rcvr_)
+        : _Receiver(std::addressof(__opstate->__rcvr_))
         , __env_(&__opstate->__env_)
       {}
 
@@ -122,7 +122,8 @@ namespace experimental::execution
     };
 
     template <class _Sigs, class _Queries>
-    using __any_receiver_ref = ::exec::_any::_any_receiver_ref<_Sigs, _Queries>;
+    using __any_receiver_ref =
+      __pointer_receiver<typename ::exec::_any::_ireceiver<_Sigs, _Queries>::_pointer_t>;
 
     template <class _Receiver, class _Sigs, class _Queries>
     struct __opstate_base
@@ -194,6 +195,7 @@ namespace experimental::execution
 
       constexpr void start() & noexcept
       {
+        this->__rcvr_._register_callback();
         __op_.start();
       }
     };
-- 
2.43.0


From b79160b1c380ec5de5307ced29a4c140bc27f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:47 +0000
Subject: [PATCH 26/41] fix: destroy the frame of an on_coroutine_* action
 which was never awaited

---
 include/exec/on_coro_disposition.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/exec/on_coro_disposition.hpp b/include/exec/on_coro_disposition.hpp
index edb8b2e..e946197 100644
--- a/include/exec/on_coro_disposition.hpp
+++ b/include/exec/on_coro_disposition.hpp
@@ -82,6 +82,12 @@ namespace experimental::execution
         : __coro_(std::exchange(__that.__coro_, {}))
       {}
 
+      ~__task()
+      {
+        if (__coro_)
+          STDEXEC::__coroutine_destroy_nothrow(__coro_);
+      }
+
       [[nodiscard]]
       auto await_ready() const noexcept -> bool
       {
-- 
2.43.0


From 3a9cbef211b2fc1a4b973ed6ae4223fa1ab955ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:47 +0000
Subject: [PATCH 27/41] fix: let the error of the scheduler out of
 exec::reschedule_coroutine_on

---
 include/exec/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 1b0cbda..3360bbb 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -468,7 +468,7 @@ namespace experimental::execution
         }
       }
 
-      void await_resume() noexcept
+      void await_resume()
       {
         if (__eptr_)
         {
-- 
2.43.0


From ce6b6651f270249275c11f1de6172d0eef63e9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:47 +0000
Subject: [PATCH 28/41] fix: rethrow at the co_await in a task what connecting
 the awaited sender throws

---
 include/exec/task.hpp               | 6 +++---
 include/stdexec/__detail/__task.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 3360bbb..f8e7492 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -600,7 +600,7 @@ namespace experimental::execution
 #ifndef __clang_analyzer__
         template <sender _CvSender>
           requires __start_scheduler_provider<_Context>
-        auto await_transform(_CvSender&& __sndr) noexcept -> decltype(auto)
+        auto await_transform(_CvSender&& __sndr) -> decltype(auto)
         {
           if constexpr (__completes_where_it_starts<set_value_t,
                                                     env_of_t<_CvSender>,
@@ -628,13 +628,13 @@ namespace experimental::execution
 #endif
 
         template <__sender_adaptor_closure_for<__just_void<__scheduler_t>> _Closure>
-        auto await_transform(_Closure&& __closure) noexcept -> decltype(auto)
+        auto await_transform(_Closure&& __closure) -> decltype(auto)
         {
           return await_transform(static_cast<_Closure&&>(__closure)(__just_void<__scheduler_t>()));
         }
 
         template <class _Awaitable>
-        constexpr auto await_transform(_Awaitable&& __awaitable) noexcept -> decltype(auto)
+        constexpr auto await_transform(_Awaitable&& __awaitable) -> decltype(auto)
         {
           return with_awaitable_senders<__promise>::await_transform(
             static_cast<_Awaitable&&>(__awaitable));
diff --git a/include/stdexec/__detail/__task.hpp b/include/stdexec/__detail/__task.hpp
index 66e1b43..578bbfd 100644
--- a/include/stdexec/__detail/__task.hpp
+++ b/include/stdexec/__detail/__task.hpp
@@ -718,7 +718,7 @@ namespace STDEXEC
     }
 
     template <sender _Sender>
-    constexpr auto await_transform(_Sender&& __sndr) noexcept
+    constexpr auto await_transform(_Sender&& __sndr)
     {
       using __schedule_sndr_t = schedule_result_t<start_scheduler_type>;
       if constexpr (__completes_where_it_starts<set_value_t, env_of_t<__schedule_sndr_t>, __env>)
-- 
2.43.0


From affcd8a3103cdc2838366b7ef3a49297c738d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:51 +0000
Subject: [PATCH 29/41] fix: keep a copy of an awaitable which is connected as
 an lvalue, not a reference to it

---
 include/stdexec/__detail/__connect_awaitable.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/stdexec/__detail/__connect_awaitable.hpp b/include/stdexec/__detail/__connect_awaitable.hpp
index 24d67ca..dfdf941 100644
--- a/include/stdexec/__detail/__connect_awaitable.hpp
+++ b/include/stdexec/__detail/__connect_awaitable.hpp
@@ -387,10 +387,11 @@ namespace STDEXEC
     template <class _Awaitable, class _Receiver>
     struct __opstate
     {
-      constexpr explicit __opstate(_Awaitable&& __awaitable, _Receiver&& __rcvr)
-        noexcept(__nothrow_move_constructible<_Awaitable>)
+      template <class _Awaitable2>
+      constexpr explicit __opstate(_Awaitable2&& __awaitable, _Receiver&& __rcvr)
+        noexcept(__nothrow_constructible_from<_Awaitable, _Awaitable2>)
         : __rcvr_(static_cast<_Receiver&&>(__rcvr))
-        , __awaiter_(static_cast<_Awaitable&&>(__awaitable))
+        , __awaiter_(static_cast<_Awaitable2&&>(__awaitable))
       {}
 
       __opstate(__opstate&&) = delete;
@@ -507,14 +508,15 @@ namespace STDEXEC
 
   struct __connect_awaitable_t
   {
+    // The operation state stores a (decayed) copy of the awaitable:
     template <class _Awaitable, class _Receiver>
-    using __opstate_t = __connect_await::__opstate<_Awaitable, _Receiver>;
+    using __opstate_t = __connect_await::__opstate<__decay_t<_Awaitable>, _Receiver>;
 
     template <class _Awaitable, class _Receiver>
-    using __promise_t = __connect_await::__promise<_Awaitable, _Receiver>;
+    using __promise_t = __connect_await::__promise<__decay_t<_Awaitable>, _Receiver>;
 
     template <class _Awaitable, class _Receiver>
-      requires __awaitable<_Awaitable, __promise_t<_Awaitable, _Receiver>>
+      requires __awaitable<__decay_t<_Awaitable>, __promise_t<_Awaitable, _Receiver>>
     auto operator()(_Awaitable&& __awaitable, _Receiver __rcvr) const noexcept(
       __nothrow_constructible_from<__opstate_t<_Awaitable, _Receiver>, _Awaitable, _Receiver>)
     {
-- 
2.43.0


From 73912fd15478f1fcdfae23354ed79112e93470e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 30/41] fix: let exceptions out of connecting finally

---
 include/stdexec/__detail/__finally.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__finally.hpp b/include/stdexec/__detail/__finally.hpp
index 82565d3..5428530 100644
--- a/include/stdexec/__detail/__finally.hpp
+++ b/include/stdexec/__detail/__finally.hpp
@@ -358,8 +358,7 @@ namespace STDEXEC
                                     _Receiver>;
 
       template <__decays_to<__sender> _Self, class _Receiver>
-      STDEXEC_EXPLICIT_THIS_BEGIN(auto connect)(this _Self&& __self,
-                                                _Receiver&&  __receiver) noexcept
+      STDEXEC_EXPLICIT_THIS_BEGIN(auto connect)(this _Self&& __self, _Receiver&& __receiver)
         -> __opstate_t<_Self, _Receiver>
       {
         return __opstate_t<_Self, _Receiver>{static_cast<_Self&&>(__self).__initial_sndr_,
-- 
2.43.0


From 4991a530ec31192fa3198e3bbcf55ec4ccd4b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 31/41] fix: let exceptions out of subscribing transform_each
 and merge

Subscribing them subscribes their children, which may throw; the noexcept
specification only looked at the copies of the arguments, so that the
program was terminated.
---
 include/exec/sequence/merge.hpp          | 8 +++++++-
 include/exec/sequence/transform_each.hpp | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/exec/sequence/merge.hpp b/include/exec/sequence/merge.hpp
index ddf6fa0..0b75622 100644
--- a/include/exec/sequence/merge.hpp
+++ b/include/exec/sequence/merge.hpp
@@ -107,6 +107,8 @@ namespace experimental::execution
       using result_sender_t = __combine::result_sender_t<_ReceiverDependent, _Sequences...>;
 
       explicit __operation(_Receiver __rcvr, _Sequences... __sequences)
+        noexcept(__nothrow_decay_copyable<_Sequences...>
+                 && __nothrow_connectable<result_sender_t<_Receiver>, __result_receiver<_Receiver>>)
         : __operation_base<_Receiver>{static_cast<_Receiver&&>(__rcvr)}
         , __op_result_{
             STDEXEC::connect(STDEXEC::when_all(exec::ignore_all_values(
@@ -130,7 +132,11 @@ namespace experimental::execution
       {
         template <class _Receiver, class... _Sequences>
         auto operator()(_Receiver& __rcvr, __ignore, __ignore, _Sequences... __sequences)
-          noexcept(__nothrow_decay_copyable<_Sequences...>) -> __operation<_Receiver, _Sequences...>
+          noexcept(__nothrow_decay_copyable<_Sequences...>
+                   && __nothrow_constructible_from<__operation<_Receiver, _Sequences...>,
+                                                   _Receiver,
+                                                   _Sequences...>)
+            -> __operation<_Receiver, _Sequences...>
         {
           return __operation<_Receiver, _Sequences...>{static_cast<_Receiver&&>(__rcvr),
                                                        static_cast<_Sequences&&>(__sequences)...};
diff --git a/include/exec/sequence/transform_each.hpp b/include/exec/sequence/transform_each.hpp
index 74a5d49..450a6d7 100644
--- a/include/exec/sequence/transform_each.hpp
+++ b/include/exec/sequence/transform_each.hpp
@@ -104,6 +104,7 @@ namespace experimental::execution
     struct __operation : __operation_base<_Receiver, _Adaptor>
     {
       __operation(_Sender&& __sndr, _Receiver __rcvr, _Adaptor __adaptor)
+        noexcept(__nothrow_subscribable<_Sender, __receiver<_Receiver, _Adaptor>>)
         : __operation_base<_Receiver, _Adaptor>{static_cast<_Receiver&&>(__rcvr),
                                                 static_cast<_Adaptor&&>(__adaptor)}
         , __opstate_{
@@ -125,7 +126,11 @@ namespace experimental::execution
 
       template <class _Adaptor, class _Sequence>
       auto operator()(__ignore, _Adaptor __adaptor, _Sequence&& __sequence)
-        noexcept(__nothrow_decay_copyable<_Adaptor, _Sequence>)
+        noexcept(__nothrow_decay_copyable<_Adaptor>
+                 && __nothrow_constructible_from<__operation<_Sequence, _Receiver, _Adaptor>,
+                                                 _Sequence,
+                                                 _Receiver,
+                                                 _Adaptor>)
           -> __operation<_Sequence, _Receiver, _Adaptor>
       {
         return {static_cast<_Sequence&&>(__sequence),
-- 
2.43.0


From b39540fc42bc40ee7031d957d581ed6e6032b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 32/41] fix: complete merge_each's next sender when the item
 does not give a sequence

When an item of the sequence of sequences completed with an error or stopped,
or when subscribing its sequence threw, the receiver of the next sender was
never completed: the sequence of sequences, and with it the merge, hung.
---
 include/exec/sequence/merge_each.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 397e312..90a9f4b 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -1029,7 +1029,7 @@ namespace experimental::execution
           if constexpr (!__is_nothrow)
           {
             __op_->store_error(std::current_exception());
-            __op_->nested_sequence_break();
+            __next_seq_op_->nested_sequence_break();
           }
         }
       }
@@ -1038,12 +1038,12 @@ namespace experimental::execution
       void set_error(_Error&& __error) noexcept
       {
         __op_->store_error(static_cast<_Error&&>(__error));
-        __op_->nested_sequence_break();
+        __next_seq_op_->nested_sequence_break();
       }
 
       void set_stopped() noexcept
       {
-        __op_->nested_sequence_complete();
+        __next_seq_op_->nested_sequence_complete();
       }
 
       using __env_t = typename _OperationBase::__nested_stop_env_t;
-- 
2.43.0


From ba933dfb2fe83bd5a8d52262dfd7a31d92fd7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 33/41] fix: have the first error stop merge_each's sequences
 when its receiver cannot be stopped

With an unstoppable receiver, __nested_stop::request_stop() did nothing, and
the other sequences were not asked to stop.
---
 include/exec/sequence/merge_each.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 90a9f4b..399f260 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -116,20 +116,12 @@ namespace experimental::execution
 
       bool stop_requested() const noexcept
       {
-        if constexpr (!unstoppable_token<__stop_token_t>)
-        {
-          return __stop_source_.stop_requested();
-        }
-        return false;
+        return __stop_source_.stop_requested();
       }
 
       bool request_stop() noexcept
       {
-        if constexpr (!unstoppable_token<__stop_token_t>)
-        {
-          return __stop_source_.request_stop();
-        }
-        return false;
+        return __stop_source_.request_stop();
       }
 
       inplace_stop_token get_token() const & noexcept
-- 
2.43.0


From 2f8694de0f6419a50736a711d9023ceea2105701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 34/41] fix: unregister merge_each's stop callback when it is
 stopped before it starts

The callback stayed registered until the operation was destroyed, when the
receiver's stop source may be gone.
---
 include/exec/sequence/merge_each.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 399f260..6c73fb7 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -1183,6 +1183,7 @@ namespace experimental::execution
         {
           // Stop has already been requested. Don't bother starting
           // the child operations.
+          this->__nested_stop_.unregister_token();
           STDEXEC::set_stopped(static_cast<_Receiver&&>(this->__rcvr_));
         }
         else
-- 
2.43.0


From 91dea70c3238a2993dd675a8faff11f847195d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 35/41] fix: save the error of a nested value before merge_each
 completes the item

Completing the item may destroy the operation which the error lives in.
---
 include/exec/sequence/merge_each.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 6c73fb7..a4c9c44 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -565,8 +565,9 @@ namespace experimental::execution
       void set_error(_Error&& __error) noexcept
       {
         auto __op = __op_;
-        STDEXEC::set_stopped(static_cast<_NestedValueReceiver&&>(__nested_value_op_->__rcvr_));
+        // The error may live in the operation, which does not outlive set_stopped: save it first.
         __op->store_error(static_cast<_Error&&>(__error));
+        STDEXEC::set_stopped(static_cast<_NestedValueReceiver&&>(__nested_value_op_->__rcvr_));
         __op->nested_value_break();
       }
 
-- 
2.43.0


From fafaeaf057c2178393d47650ce9433501530c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 36/41] fix: let merge_each pass on exceptions and errors as
 they are

An exception_ptr from the sequence of sequences was wrapped in another
exception_ptr, and errors sent as lvalues did not compile.
---
 include/exec/sequence/merge_each.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index a4c9c44..1de7e32 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -193,16 +193,16 @@ namespace experimental::execution
         {
           // We are the first child to complete with an error, so we must save the error. (Any
           // subsequent errors are ignored.)
-          if constexpr (noexcept(__error_storage_->template emplace<_Error>(
+          if constexpr (noexcept(__error_storage_->template emplace<__decay_t<_Error>>(
                           static_cast<_Error&&>(__error))))
           {
-            __error_storage_->template emplace<_Error>(static_cast<_Error&&>(__error));
+            __error_storage_->template emplace<__decay_t<_Error>>(static_cast<_Error&&>(__error));
           }
           else
           {
             STDEXEC_TRY
             {
-              __error_storage_->template emplace<_Error>(static_cast<_Error&&>(__error));
+              __error_storage_->template emplace<__decay_t<_Error>>(static_cast<_Error&&>(__error));
             }
             STDEXEC_CATCH_ALL
             {
@@ -354,7 +354,11 @@ namespace experimental::execution
         case __completion_t::__stopped:
           // We are the first child to complete with an error, so we must save the error. (Any
           // subsequent errors are ignored.)
-          if constexpr (__nothrow_decay_copyable<_Error>)
+          if constexpr (__same_as<__decay_t<_Error>, std::exception_ptr>)
+          {
+            __ex_ = static_cast<_Error&&>(__error);
+          }
+          else if constexpr (__nothrow_decay_copyable<_Error>)
           {
             __ex_ = std::make_exception_ptr(static_cast<_Error&&>(__error));
           }
-- 
2.43.0


From 2e8e17ba1efb206015eb1fe21e8af1bbfa4104ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:29 +0000
Subject: [PATCH 37/41] fix: have ignore_all_values report an item's error when
 its sequence is stopped

---
 include/exec/sequence/ignore_all_values.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/exec/sequence/ignore_all_values.hpp b/include/exec/sequence/ignore_all_values.hpp
index 0ca0e9d..81f7af4 100644
--- a/include/exec/sequence/ignore_all_values.hpp
+++ b/include/exec/sequence/ignore_all_values.hpp
@@ -235,7 +235,15 @@ namespace experimental::execution
 
       void set_stopped() noexcept
       {
-        STDEXEC::set_stopped(static_cast<_Receiver&&>(__op_->__rcvr_));
+        // The error of an item must not get lost when it made the sequence stop.
+        if (__op_->__emplaced_.load(__std::memory_order_acquire) == 0)
+        {
+          STDEXEC::set_stopped(static_cast<_Receiver&&>(__op_->__rcvr_));
+        }
+        else
+        {
+          __op_->__visit_result(static_cast<_Receiver&&>(__op_->__rcvr_));
+        }
       }
 
       auto get_env() const noexcept -> env_of_t<_Receiver>
-- 
2.43.0


From 75c5a60b9a05316400efe54a242351856305813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:51 +0000
Subject: [PATCH 38/41] fix: allocate the operation of exec::function with the
 allocator of the receiver's environment

---
 include/exec/function.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/function.hpp b/include/exec/function.hpp
index af5168a..d5667c4 100644
--- a/include/exec/function.hpp
+++ b/include/exec/function.hpp
@@ -142,14 +142,14 @@ namespace experimental::execution
       using __receiver_t   = __receiver_wrapper<__any_receiver_ref<_Sigs, _Queries>>;
       using __prop_t       = __receiver_t::__prop_t;
       using __stop_token_t = stop_token_of_t<env_of_t<__receiver_t>>;
-      using __adaptee_t    = decltype(__choose_frame_allocator(__declval<_Receiver const &>()));
+      using __adaptee_t    = decltype(__choose_frame_allocator(__declval<env_of_t<_Receiver>>()));
 
       __memory_resource_adaptor_t<__adaptee_t> __resource_;
       __prop_t                                 __env_;
       _any::_state<_Receiver, __stop_token_t>  __rcvr_;
 
       explicit __opstate_base(_Receiver __rcvr)
-        : __resource_(__choose_frame_allocator(std::as_const(__rcvr)))
+        : __resource_(__choose_frame_allocator(STDEXEC::get_env(__rcvr)))
         , __env_(__make_env())
         , __rcvr_(static_cast<_Receiver &&>(__rcvr))
       {}
-- 
2.43.0


From edc8d1b61c3a2e28ba077f7004ad420a885df32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:51 +0000
Subject: [PATCH 39/41] fix: let __frame_allocator_t of a concrete memory
 resource be compared

---
 include/exec/__frame_allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/exec/__frame_allocator.hpp b/include/exec/__frame_allocator.hpp
index 6a5f0e6..e2a77b5 100644
--- a/include/exec/__frame_allocator.hpp
+++ b/include/exec/__frame_allocator.hpp
@@ -141,6 +141,12 @@ namespace experimental::execution
           return __resource_;
         }
 
+        friend constexpr bool operator==(type const &__left, type const &__right) noexcept
+        {
+          return __left.__resource_ == __right.__resource_
+              || __left.__resource_->is_equal(*__right.__resource_);
+        }
+
        private:
         _Delegate *__resource_;
       };
-- 
2.43.0


From 80048e31bda2ea57125803c2aaa3209cf6222998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:51 +0000
Subject: [PATCH 40/41] fix: align what __any_allocator allocates

---
 include/stdexec/__detail/__any_allocator.hpp | 41 ++++++++++++++++++--
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/include/stdexec/__detail/__any_allocator.hpp b/include/stdexec/__detail/__any_allocator.hpp
index c0ff20e..7444fae 100644
--- a/include/stdexec/__detail/__any_allocator.hpp
+++ b/include/stdexec/__detail/__any_allocator.hpp
@@ -31,6 +31,12 @@ import stdexec;
 #  include "__memory.hpp"
 #  include "__typeinfo.hpp"
 
+#  if !STDEXEC_USE_MODULES()
+#    include <cstddef>
+#    include <cstring>
+#    include <memory>
+#  endif
+
 #  include "__prologue.hpp"
 
 STDEXEC_PRAGMA_IGNORE_GNU("-Warray-bounds")
@@ -112,19 +118,46 @@ namespace STDEXEC
     [[nodiscard]]
     constexpr auto allocate(size_t __n) -> _Ty*
     {
-      void* __void_ptr = __alloc_.allocate(__n * sizeof(_Ty));
-      return static_cast<_Ty*>(__void_ptr);
+      size_t const __size = __n * sizeof(_Ty);
+      if constexpr (alignof(_Ty) == alignof(std::byte))
+      {
+        void* __void_ptr = __alloc_.allocate(__size);
+        return static_cast<_Ty*>(__void_ptr);
+      }
+      else
+      {
+        // An allocator of bytes does not promise any alignment: leave room for aligning the
+        // result, and for the address to deallocate, which is kept behind the objects.
+        std::byte* const __buffer   = __alloc_.allocate(__size + __extra_size);
+        void*            __void_ptr = __buffer;
+        size_t           __space    = __size + alignof(_Ty) - 1;
+        std::align(alignof(_Ty), __size, __void_ptr, __space);
+        std::memcpy(static_cast<std::byte*>(__void_ptr) + __size, &__buffer, sizeof(__buffer));
+        return static_cast<_Ty*>(__void_ptr);
+      }
     }
 
     constexpr void deallocate(_Ty* __ptr, size_t __n) noexcept
     {
-      void* __void_ptr = static_cast<void*>(__ptr);
-      __alloc_.deallocate(static_cast<std::byte*>(__void_ptr), __n * sizeof(_Ty));
+      size_t const __size     = __n * sizeof(_Ty);
+      void*        __void_ptr = static_cast<void*>(__ptr);
+      auto*        __buffer   = static_cast<std::byte*>(__void_ptr);
+      if constexpr (alignof(_Ty) == alignof(std::byte))
+      {
+        __alloc_.deallocate(__buffer, __size);
+      }
+      else
+      {
+        std::memcpy(&__buffer, __buffer + __size, sizeof(__buffer));
+        __alloc_.deallocate(__buffer, __size + __extra_size);
+      }
     }
 
     constexpr auto operator==(__any_allocator const &) const noexcept -> bool = default;
 
    private:
+    static constexpr size_t __extra_size = alignof(_Ty) - 1 + sizeof(std::byte*);
+
     struct __alloc_impl final : __any::__any<__detail::__byte_allocator>
     {
       using __alloc_impl::__any::__any;
-- 
2.43.0


From 1720240c4f084d99cdadf033eda61b49ecc353f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:51 +0000
Subject: [PATCH 41/41] fix: let exceptions out of uses-allocator construction
 when connecting, and of moving the function of let_*

---
 include/stdexec/__detail/__basic_sender.hpp |  7 ++-
 include/stdexec/__detail/__let.hpp          |  7 ++-
 include/stdexec/__detail/__memory.hpp       | 53 ++++++++++++++++++++-
 3 files changed, 62 insertions(+), 5 deletions(-)

diff --git a/include/stdexec/__detail/__basic_sender.hpp b/include/stdexec/__detail/__basic_sender.hpp
index 49933cf..242643e 100644
--- a/include/stdexec/__detail/__basic_sender.hpp
+++ b/include/stdexec/__detail/__basic_sender.hpp
@@ -112,7 +112,8 @@ namespace STDEXEC
       template <class _CvData>
       STDEXEC_ATTRIBUTE(host, device)
       constexpr __state(_Receiver __rcvr, _CvData&& __data)
-        noexcept(__nothrow_decay_copyable<_CvData>)
+        noexcept(__nothrow_decay_copyable<_CvData>
+                 && STDEXEC::__is_nothrow_allocator_aware_forward<_CvData, _Receiver>())
         : __rcvr_(static_cast<_Receiver&&>(__rcvr))
         , __data_(STDEXEC::__allocator_aware_forward(static_cast<_CvData&&>(__data), __rcvr_))
       {}
@@ -168,7 +169,9 @@ namespace STDEXEC
 
       static constexpr auto __get_state =  //
         []<class _Sender, class _Receiver>(_Sender&& __sndr, _Receiver&& __rcvr) noexcept(
-          __nothrow_decay_copyable<__data_of<_Sender>>)
+          __nothrow_decay_copyable<__data_of<_Sender>>
+          && STDEXEC::__is_nothrow_allocator_aware_forward<__data_of<_Sender>,
+                                                           std::remove_cvref_t<_Receiver>>())
         -> __state<std::remove_cvref_t<_Receiver>, std::remove_cvref_t<__data_of<_Sender>>>
       {
         return __state{static_cast<_Receiver&&>(__rcvr),
diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index 9777fcc..c2403f7 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -174,7 +174,9 @@ namespace STDEXEC
                                         _CvFn           __cv,
                                         _Sender const & __sndr,
                                         _Fun            __fn,
-                                        _Receiver&&     __rcvr) noexcept
+                                        _Receiver&&     __rcvr)
+        noexcept(__nothrow_move_constructible<_Fun>
+                 && STDEXEC::__is_nothrow_allocator_aware_forward<_Fun, _Receiver>())
         : __rcvr_(static_cast<_Receiver&&>(__rcvr))
         , __fn_(STDEXEC::__allocator_aware_forward(static_cast<_Fun&&>(__fn), __rcvr_))
         // TODO(ericniebler): this needs a fallback:
@@ -303,7 +305,8 @@ namespace STDEXEC
 
       constexpr explicit __opstate(_CvChild&& __child, _Fun __fn, _Receiver&& __rcvr)
         noexcept(__nothrow_connectable<_CvChild, __first_rcvr_t>
-                 && __nothrow_move_constructible<_Fun>)
+                 && __nothrow_move_constructible<_Fun>
+                 && STDEXEC::__is_nothrow_allocator_aware_forward<_Fun, _Receiver>())
         : __opstate::__opstate_base(_SetTag(),
                                     __copy_cvref_fn<_CvChild>{},
                                     __child,
diff --git a/include/stdexec/__detail/__memory.hpp b/include/stdexec/__detail/__memory.hpp
index 36d9602..4f06190 100644
--- a/include/stdexec/__detail/__memory.hpp
+++ b/include/stdexec/__detail/__memory.hpp
@@ -103,6 +103,37 @@ namespace STDEXEC
 
   /////////////////////////////////////////////////////////////////////////////////////////
   // __allocator_aware_forward: https://eel.is/c++draft/exec#snd.expos-49
+  template <class _Ty, class _Alloc>
+  inline constexpr bool __uses_allocator_v = std::uses_allocator_v<_Ty, _Alloc>;
+
+  template <class _Ty, class _Uy, class _Alloc>
+  inline constexpr bool __uses_allocator_v<std::pair<_Ty, _Uy>, _Alloc> =
+    __uses_allocator_v<std::remove_cv_t<_Ty>, _Alloc>
+    || __uses_allocator_v<std::remove_cv_t<_Uy>, _Alloc>;
+
+  // Whether making a decayed copy of _Ty by uses-allocator construction cannot throw:
+  template <class _Ty, class _Alloc>
+  consteval auto __is_nothrow_obj_using_alloc() noexcept -> bool
+  {
+    using __value_t = __decay_t<_Ty>;
+    if constexpr (!__uses_allocator_v<__value_t, _Alloc>)
+    {
+      return __nothrow_decay_copyable<_Ty>;
+    }
+    else if constexpr (__is_instance_of<__value_t, std::pair>)
+    {
+      return false;
+    }
+    else if constexpr (std::is_constructible_v<__value_t, std::allocator_arg_t, _Alloc const &, _Ty>)
+    {
+      return std::is_nothrow_constructible_v<__value_t, std::allocator_arg_t, _Alloc const &, _Ty>;
+    }
+    else
+    {
+      return std::is_nothrow_constructible_v<__value_t, _Ty, _Alloc const &>;
+    }
+  }
+
   template <class _Alloc>
   struct __obj_using_alloc_fn
   {
@@ -110,6 +141,8 @@ namespace STDEXEC
 
     template <class... _Args>
     constexpr auto operator()([[maybe_unused]] _Args &&...__args) const
+      noexcept((STDEXEC::__is_nothrow_obj_using_alloc<_Args, _Alloc>() && ...)
+               && __nothrow_move_constructible<__decay_t<_Args>...>)
     {
       return __tuple{
         std::make_obj_using_allocator<__decay_t<_Args>>(__alloc_,
@@ -124,9 +157,27 @@ namespace STDEXEC
     return __obj_using_alloc_fn<_Alloc>{__alloc};
   }
 
+  template <class _Ty, class _Context>
+  consteval auto __is_nothrow_allocator_aware_forward() noexcept -> bool
+  {
+    if constexpr (!__callable<get_allocator_t, env_of_t<_Context>>)
+    {
+      return true;
+    }
+    else
+    {
+      using __alloc_t = __decay_t<__call_result_t<get_allocator_t, env_of_t<_Context>>>;
+      if constexpr (__is_instance_of<__decay_t<_Ty>, __tuple>)
+        return __nothrow_applicable<__obj_using_alloc_fn<__alloc_t>, _Ty>;
+      else
+        return STDEXEC::__is_nothrow_obj_using_alloc<_Ty, __alloc_t>();
+    }
+  }
+
   template <class _Ty, class _Context>
   [[nodiscard]]
-  constexpr auto __allocator_aware_forward(_Ty &&__obj, _Context const &__ctx) -> decltype(auto)
+  constexpr auto __allocator_aware_forward(_Ty &&__obj, _Context const &__ctx)
+    noexcept(STDEXEC::__is_nothrow_allocator_aware_forward<_Ty, _Context>()) -> decltype(auto)
   {
     using __value_t = __decay_t<_Ty>;
     if constexpr (!__callable<get_allocator_t, env_of_t<_Context>>)
-- 
2.43.0

