From 80a88ddd1106e4273d0c67ee23109a4aaf49129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:43 +0000
Subject: [PATCH 01/19] fix: unregister a thread when it is joined

A thread whose function returns without calling unregister_this_thread
stayed registered after join(). Its id kept accepting tasks that nobody
would run, shutdown() waited for it until the timeout, and a later thread
reusing the native id inherited its queue and exit flag.
---
 threadpp/thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 96292f3..050c7f9 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -688,6 +688,8 @@ void thread::join()
 {
     notify_for_exit(get_id());
     std::thread::join();
+    // the thread function may have returned without unregistering
+    unregister_thread_impl(get_id());
 }
 
 void thread::register_this(const std::string& name)
-- 
2.43.0


From 118a3bdd22faabd61663d331c25faddf16655980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:07 +0000
Subject: [PATCH 02/19] fix: keep the outer waiter registered when a nested
 wait times out

A thread may process a task that waits on the same condition variable or
future it is already waiting on. The nested wait shares the outer waiter
entry. When the nested wait timed out it removed that entry, and the outer
wait missed every later notification.
---
 threadpp/detail/semaphore.cpp | 21 ++++++++++++++++-----
 threadpp/detail/semaphore.h   |  2 +-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/threadpp/detail/semaphore.cpp b/threadpp/detail/semaphore.cpp
index 53a1259..669990b 100644
--- a/threadpp/detail/semaphore.cpp
+++ b/threadpp/detail/semaphore.cpp
@@ -77,7 +77,8 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
     /// note: we may be the last reference to the
     /// flag as the notify_functions will set it
     /// and erase it from the container
-    auto token = add_waiter(id);
+    bool added = false;
+    auto token = add_waiter(id, added);
 
     while(!token.is_interrupted())
     {
@@ -99,7 +100,11 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
         }
     }
 
-    remove_waiter(id);
+    // a nested wait leaves the entry to the outer one
+    if(added)
+    {
+        remove_waiter(id);
+    }
 }
 
 auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
@@ -116,7 +121,8 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
     /// note: we may be the last reference to the
     /// flag as the notify_functions will set it
     /// and erase it from the container
-    auto token = add_waiter(id);
+    bool added = false;
+    auto token = add_waiter(id, added);
 
     while(!token.is_interrupted())
     {
@@ -148,12 +154,16 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
     }
 
     // remove waiter in case of timeout
-    remove_waiter(id);
+    // a nested wait leaves the entry to the outer one
+    if(added)
+    {
+        remove_waiter(id);
+    }
 
     return status;
 }
 
-auto semaphore::add_waiter(thread::id id) const -> interrupt_token
+auto semaphore::add_waiter(thread::id id, bool& added) const -> interrupt_token
 {
     std::unique_lock<std::mutex> waiting_lock(mutex_);
 
@@ -172,6 +182,7 @@ auto semaphore::add_waiter(thread::id id) const -> interrupt_token
     info.id = id;
     info.token = interrupt_token{false};
     waiters_.emplace_back(std::move(info));
+    added = true;
     return waiters_.back().token;
 }
 
diff --git a/threadpp/detail/semaphore.h b/threadpp/detail/semaphore.h
index c5e2bac..f9fd74f 100644
--- a/threadpp/detail/semaphore.h
+++ b/threadpp/detail/semaphore.h
@@ -98,7 +98,7 @@ protected:
                        const callback& before_wait,
                        const callback& after_wait) const -> std::cv_status;
 
-    auto add_waiter(thread::id id) const -> interrupt_token;
+    auto add_waiter(thread::id id, bool& added) const -> interrupt_token;
 
     void remove_waiter(thread::id id) const;
 
-- 
2.43.0


From 5053c12f6f2041ab8f3eac48bdf0880c374d29d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:25 +0000
Subject: [PATCH 03/19] fix: do not report a timeout for a wait that consumed a
 notification

notify_one could pick a waiter whose wait was just timing out. The wait
then reported a timeout, so its caller did not act on the notification,
while another waiter stayed blocked. A wait whose entry was taken by a
notifier now reports no_timeout.
---
 threadpp/detail/semaphore.cpp | 35 +++++++++++++++++++++--------------
 threadpp/detail/semaphore.h   |  2 +-
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/threadpp/detail/semaphore.cpp b/threadpp/detail/semaphore.cpp
index 669990b..36a9711 100644
--- a/threadpp/detail/semaphore.cpp
+++ b/threadpp/detail/semaphore.cpp
@@ -101,10 +101,7 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
     }
 
     // a nested wait leaves the entry to the outer one
-    if(added)
-    {
-        remove_waiter(id);
-    }
+    remove_waiter(id, added);
 }
 
 auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
@@ -155,9 +152,10 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
 
     // remove waiter in case of timeout
     // a nested wait leaves the entry to the outer one
-    if(added)
+    if(!remove_waiter(id, added))
     {
-        remove_waiter(id);
+        // somebody notified us, even if it was too late to notice
+        status = std::cv_status::no_timeout;
     }
 
     return status;
@@ -186,17 +184,26 @@ auto semaphore::add_waiter(thread::id id, bool& added) const -> interrupt_token
     return waiters_.back().token;
 }
 
-void semaphore::remove_waiter(thread::id id) const
+auto semaphore::remove_waiter(thread::id id, bool erase) const -> bool
 {
     std::unique_lock<std::mutex> waiting_lock(mutex_);
 
-    waiters_.erase(std::remove_if(std::begin(waiters_),
-                                  std::end(waiters_),
-                                  [&id](const waiter_info& waiter)
-                                  {
-                                      return waiter.id == id;
-                                  }),
-                   std::end(waiters_));
+    auto it = std::find_if(std::begin(waiters_),
+                           std::end(waiters_),
+                           [&id](const waiter_info& waiter)
+                           {
+                               return waiter.id == id;
+                           });
+    if(it == std::end(waiters_))
+    {
+        return false;
+    }
+
+    if(erase)
+    {
+        waiters_.erase(it);
+    }
+    return true;
 }
 
 } // namespace detail
diff --git a/threadpp/detail/semaphore.h b/threadpp/detail/semaphore.h
index f9fd74f..46fff11 100644
--- a/threadpp/detail/semaphore.h
+++ b/threadpp/detail/semaphore.h
@@ -100,7 +100,7 @@ protected:
 
     auto add_waiter(thread::id id, bool& added) const -> interrupt_token;
 
-    void remove_waiter(thread::id id) const;
+    auto remove_waiter(thread::id id, bool erase) const -> bool;
 
     mutable std::mutex mutex_;
     mutable std::vector<waiter_info> waiters_;
-- 
2.43.0


From c902ab0efcbdef06131e222753f5a9472d1e4e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:27 +0000
Subject: [PATCH 04/19] fix: abandon the old state when a promise is
 overwritten by move assignment

---
 threadpp/future.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 15581a3..2913bd5 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -182,7 +182,13 @@ class basic_promise
 public:
     basic_promise() = default;
     basic_promise(basic_promise&& rhs) noexcept = default;
-    auto operator=(basic_promise&& rhs) noexcept -> basic_promise& = default;
+    auto operator=(basic_promise&& rhs) noexcept -> basic_promise&
+    {
+        // the overwritten state is abandoned if not satisfied
+        basic_promise tmp(std::move(rhs));
+        std::swap(state_, tmp.state_);
+        return *this;
+    }
 
     basic_promise(const basic_promise&) = delete;
     auto operator=(const basic_promise&) -> basic_promise& = delete;
-- 
2.43.0


From 02ff5f741bfa51ce320337857f3908633cb0e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:27 +0000
Subject: [PATCH 05/19] fix: do not return normally from get() of a void future
 without a result

---
 threadpp/detail/future_state.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/threadpp/detail/future_state.hpp b/threadpp/detail/future_state.hpp
index 7332f04..52d894f 100644
--- a/threadpp/detail/future_state.hpp
+++ b/threadpp/detail/future_state.hpp
@@ -188,6 +188,11 @@ struct future_state<void> : public basic_state<void>
     void get_value_assuming_ready()
     {
         rethrow_any_exception();
+
+        if(!ready())
+        {
+            throw std::future_error(std::future_errc::broken_promise);
+        }
     }
 };
 template<typename T>
-- 
2.43.0


From de13e6faa64f83aacc7dc579f564c5e43730a830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:10 +0000
Subject: [PATCH 06/19] fix: complete when_all and when_any results without
 holding their lock

---
 threadpp/when_all_any.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/threadpp/when_all_any.hpp b/threadpp/when_all_any.hpp
index 9812d79..8712a41 100644
--- a/threadpp/when_all_any.hpp
+++ b/threadpp/when_all_any.hpp
@@ -67,7 +67,7 @@ void when_any_inner_helper(Context context)
         .then(id,
               [context](ith_future_type f)
               {
-                  std::lock_guard<std::mutex> lock(context->mutex);
+                  std::unique_lock<std::mutex> lock(context->mutex);
                   if(!context->ready)
                   {
                       context->ready = true;
@@ -76,8 +76,10 @@ void when_any_inner_helper(Context context)
                       if(context->processed == context->total && !context->result_moved)
                       {
                           context->recover_input_futures();
-                          context->p.set_value(std::move(context->result));
                           context->result_moved = true;
+                          // continuations may run inside set_value
+                          lock.unlock();
+                          context->p.set_value(std::move(context->result));
                       }
                   }
               });
@@ -162,11 +164,13 @@ void when_inner_helper(Context context, Future&& f)
         .then(id,
               [context](auto f)
               {
-                  std::lock_guard<std::mutex> lock(context->mutex);
+                  std::unique_lock<std::mutex> lock(context->mutex);
                   ++context->ready_futures;
                   std::get<I>(context->result) = std::move(f);
                   if(context->ready_futures == context->total_futures)
                   {
+                      // continuations may run inside set_value
+                      lock.unlock();
                       context->p.set_value(std::move(context->result));
                   }
               });
@@ -242,11 +246,13 @@ auto when_all(InputIt first, InputIt last) -> future<std::vector<typename std::i
         shared_context->result[index].then(id,
                                            [shared_context, index](auto f)
                                            {
-                                               std::lock_guard<std::mutex> lock(shared_context->mutex);
+                                               std::unique_lock<std::mutex> lock(shared_context->mutex);
                                                shared_context->result[index] = std::move(f);
                                                ++shared_context->ready_futures;
                                                if(shared_context->ready_futures == shared_context->total_futures)
                                                {
+                                                   // continuations may run inside set_value
+                                                   lock.unlock();
                                                    shared_context->p.set_value(std::move(shared_context->result));
                                                }
                                            });
@@ -335,7 +341,7 @@ auto when_any(InputIt first, InputIt last)
             id,
             [shared_context, index](auto f)
             {
-                std::lock_guard<std::mutex> lock(shared_context->mutex);
+                std::unique_lock<std::mutex> lock(shared_context->mutex);
                 if(!shared_context->ready)
                 {
                     shared_context->result.index = index;
@@ -344,8 +350,10 @@ auto when_any(InputIt first, InputIt last)
                     if(shared_context->processed == shared_context->total && !shared_context->promise_set)
                     {
                         shared_context->recover_input_futures();
-                        shared_context->p.set_value(std::move(shared_context->result));
                         shared_context->promise_set = true;
+                        // continuations may run inside set_value
+                        lock.unlock();
+                        shared_context->p.set_value(std::move(shared_context->result));
                     }
                 }
             });
-- 
2.43.0


From f1d290afa4ae1cc42fcd574a574fd02d44c4e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:01 +0000
Subject: [PATCH 07/19] fix: do not miss the release of a tpp::mutex between
 the failed attempt and the wait

---
 threadpp/mutex.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/threadpp/mutex.hpp b/threadpp/mutex.hpp
index d796b7a..8dc4e4b 100644
--- a/threadpp/mutex.hpp
+++ b/threadpp/mutex.hpp
@@ -24,14 +24,29 @@ public:
     void lock()
     {
         auto id = this_thread::get_id();
-        while(flag_.test_and_set())
+        while(true)
         {
+            // held until we are registered as a waiter
+            // so that the release cannot be missed
+            std::unique_lock<std::mutex> lock(guard_);
+            if(!flag_.test_and_set())
+            {
+                break;
+            }
             // are we already owning it?
             if(owner_ == id)
             {
                 throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur));
             }
-            sync_.wait();
+            sync_.wait(
+                [&lock]()
+                {
+                    lock.unlock();
+                },
+                [&lock]()
+                {
+                    lock.lock();
+                });
         }
 
         owner_ = id;
@@ -67,6 +82,7 @@ public:
             throw std::system_error(std::make_error_code(std::errc::no_lock_available));
         }
 
+        std::lock_guard<std::mutex> lock(guard_);
         owner_ = invalid_id();
         flag_.clear();
         sync_.notify_all();
@@ -75,6 +91,7 @@ public:
 private:
     /// Underlying semaphore that handles notifying.
     detail::semaphore sync_;
+    std::mutex guard_;
 
     std::atomic<thread::id> owner_{invalid_id()};
     std::atomic_flag flag_ = ATOMIC_FLAG_INIT;
-- 
2.43.0


From 20ca6101ac74698d0b1868ea2d51f9ce95fef7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:05 +0000
Subject: [PATCH 08/19] fix: keep running jobs registered when all pending jobs
 are stopped

---
 threadpp/thread_pool.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index ad5dc8d..d0e92df 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -138,7 +138,18 @@ public:
     void clear_all()
     {
         std::lock_guard<std::mutex> lock(guard_);
-        jobs_.clear();
+        for(auto it = jobs_.begin(); it != jobs_.end();)
+        {
+            // jobs that are currently running stay waitable
+            if(it->second.callable)
+            {
+                it = jobs_.erase(it);
+            }
+            else
+            {
+                ++it;
+            }
+        }
         job_priority_queues_.clear();
     }
 
-- 
2.43.0


From d9937ab23298e93915ce4c4abe526c0267ddcfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:07 +0000
Subject: [PATCH 09/19] fix: allow a pool job to schedule or reprioritise jobs
 of its own pool

Workers were notified with dispatch() while the pool's lock was held.
On a worker thread dispatch() runs the callable in place, so the worker
locked the same mutex a second time.
---
 threadpp/thread_pool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index d0e92df..86a7e00 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -213,7 +213,8 @@ private:
                 auto& workers = workers_[priority];
                 for(auto& w : workers)
                 {
-                    dispatch(w.get_id(),
+                    // never call it in place, the guard is held here
+                    invoke(w.get_id(),
                            [this, priority]()
                            {
                                check_jobs(priority);
-- 
2.43.0


From 0cf24a47d981000350516856e14ecc497ced2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:10 +0000
Subject: [PATCH 10/19] fix: destroy stopped pool jobs without holding the
 pool's lock

Dropping a job runs the continuations of its future and the destructors
of its captures. Any of them calling back into the pool deadlocked.
---
 threadpp/thread_pool.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index 86a7e00..0ab8e94 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -117,6 +117,8 @@ public:
 
     void clear(job_id id, bool check_callable)
     {
+        // destroyed after the guard is released
+        job_info removed;
         std::lock_guard<std::mutex> lock(guard_);
         auto it = jobs_.find(id);
         if(it != jobs_.end())
@@ -125,11 +127,13 @@ public:
             {
                 if(it->second.callable)
                 {
+                    removed = std::move(it->second);
                     jobs_.erase(id);
                 }
             }
             else
             {
+                removed = std::move(it->second);
                 jobs_.erase(id);
             }
         }
@@ -137,12 +141,15 @@ public:
 
     void clear_all()
     {
+        // destroyed after the guard is released
+        std::vector<job_info> removed;
         std::lock_guard<std::mutex> lock(guard_);
         for(auto it = jobs_.begin(); it != jobs_.end();)
         {
             // jobs that are currently running stay waitable
             if(it->second.callable)
             {
+                removed.emplace_back(std::move(it->second));
                 it = jobs_.erase(it);
             }
             else
-- 
2.43.0


From 5d9f0b8b773f825b8c8bb86ec5e0ba4dba0f8450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:32 +0000
Subject: [PATCH 11/19] fix: make thread_pool movable as declared and let job
 handles follow it

The defaulted move operations did not compile outside thread_pool.cpp.
Job handles also kept the address of the pool that had been moved from.
---
 threadpp/thread_pool.cpp | 40 ++++++++++++++++++++++++++--------------
 threadpp/thread_pool.h   | 14 +++++++-------
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index 0ab8e94..5bea17f 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -315,6 +315,28 @@ thread_pool::thread_pool(const std::map<priority::category, size_t>& workers_per
     impl_ = std::make_unique<impl>(workers_per_priority_level, config);
 }
 
+thread_pool::thread_pool(thread_pool&& rhs) noexcept : impl_(std::move(rhs.impl_)), self_(std::move(rhs.self_))
+{
+    if(self_)
+    {
+        *self_ = this;
+    }
+}
+
+auto thread_pool::operator=(thread_pool&& rhs) noexcept -> thread_pool&
+{
+    if(this != &rhs)
+    {
+        self_ = std::move(rhs.self_);
+        impl_ = std::move(rhs.impl_);
+        if(self_)
+        {
+            *self_ = this;
+        }
+    }
+    return *this;
+}
+
 thread_pool::~thread_pool() = default;
 
 job_id thread_pool::add_job(task& job, priority::group group)
@@ -354,27 +376,17 @@ size_t thread_pool::get_jobs_count() const
 
 void job_future_storage::change_priority(priority::group group)
 {
-    if(sentinel_.expired())
+    if(auto owner = owner_.lock())
     {
-        return;
-    }
-
-    if(owner_)
-    {
-        owner_->change_priority(id, group);
+        (*owner)->change_priority(id, group);
     }
 }
 
 void job_future_storage::stop()
 {
-    if(sentinel_.expired())
-    {
-        return;
-    }
-
-    if(owner_)
+    if(auto owner = owner_.lock())
     {
-        owner_->stop(id);
+        (*owner)->stop(id);
     }
 }
 
diff --git a/threadpp/thread_pool.h b/threadpp/thread_pool.h
index 7e55f0a..96be6a9 100644
--- a/threadpp/thread_pool.h
+++ b/threadpp/thread_pool.h
@@ -69,8 +69,8 @@ struct job_future_storage
     void stop();
 
 private:
-    std::weak_ptr<int> sentinel_{};
-    thread_pool* owner_{};
+    // refers to the pool that currently owns the job
+    std::weak_ptr<thread_pool*> owner_{};
 };
 
 template<typename T>
@@ -145,8 +145,8 @@ public:
     thread_pool(const std::map<priority::category, size_t>& workers_per_priority_level,
                 tasks_capacity_config config = {});
     thread_pool();
-    thread_pool(thread_pool&&) = default;
-    auto operator=(thread_pool&&) -> thread_pool& = default;
+    thread_pool(thread_pool&& rhs) noexcept;
+    auto operator=(thread_pool&& rhs) noexcept -> thread_pool&;
     ~thread_pool();
 
     thread_pool(const thread_pool&) = delete;
@@ -209,7 +209,8 @@ private:
     /// pimpl idiom
     std::unique_ptr<impl> impl_;
 
-    std::shared_ptr<int> sentinel_ = std::make_shared<int>();
+    /// the address of this pool, shared with the job handles
+    std::shared_ptr<thread_pool*> self_ = std::make_shared<thread_pool*>(this);
 };
 
 template<typename F, typename... Args>
@@ -218,8 +219,7 @@ auto thread_pool::schedule(priority::group group, F&& f, Args&&... args) -> job_
     auto packaged_task = detail::package_future_task(std::forward<F>(f), std::forward<Args>(args)...);
     job_future<async_ret_type<F, Args...>> fut(std::move(packaged_task.callable_future));
     fut.id = add_job(packaged_task.callable, group);
-    fut.sentinel_ = sentinel_;
-    fut.owner_ = this;
+    fut.owner_ = self_;
     return fut;
 }
 
-- 
2.43.0


From 237644752af5159200233526b8fba3fd73243b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:01 +0000
Subject: [PATCH 12/19] fix: keep the pool's handle state alive until its
 workers have finished

A job still running while its pool is destroyed may schedule or stop
other jobs. The shared state for job handles was destroyed before the
workers were joined and was then used after being freed.
---
 threadpp/thread_pool.cpp | 2 +-
 threadpp/thread_pool.h   | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index 5bea17f..b931d26 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -315,7 +315,7 @@ thread_pool::thread_pool(const std::map<priority::category, size_t>& workers_per
     impl_ = std::make_unique<impl>(workers_per_priority_level, config);
 }
 
-thread_pool::thread_pool(thread_pool&& rhs) noexcept : impl_(std::move(rhs.impl_)), self_(std::move(rhs.self_))
+thread_pool::thread_pool(thread_pool&& rhs) noexcept : self_(std::move(rhs.self_)), impl_(std::move(rhs.impl_))
 {
     if(self_)
     {
diff --git a/threadpp/thread_pool.h b/threadpp/thread_pool.h
index 96be6a9..0780364 100644
--- a/threadpp/thread_pool.h
+++ b/threadpp/thread_pool.h
@@ -205,12 +205,13 @@ public:
 private:
     auto add_job(task& job, priority::group group) -> job_id;
 
+    /// the address of this pool, shared with the job handles
+    /// outlives the workers, since running jobs may still schedule and stop jobs
+    std::shared_ptr<thread_pool*> self_ = std::make_shared<thread_pool*>(this);
+
     class impl;
     /// pimpl idiom
     std::unique_ptr<impl> impl_;
-
-    /// the address of this pool, shared with the job handles
-    std::shared_ptr<thread_pool*> self_ = std::make_shared<thread_pool*>(this);
 };
 
 template<typename F, typename... Args>
-- 
2.43.0


From 2dcd19d1523dc69bd1f5ccbd12c1637f5565b799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:14 +0000
Subject: [PATCH 13/19] fix: do not let concurrent shutdown calls wrap the init
 count

Two calls could both pass the check for zero and then both decrement.
The count wrapped around and every later init() was ignored.
---
 threadpp/thread.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 050c7f9..cd87973 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -187,13 +187,17 @@ void init(const init_data& data)
 auto shutdown(const std::chrono::seconds& timeout) -> int
 {
     auto& global_context = get_global_context();
-    if(global_context.init_count == 0)
+    auto init_count = global_context.init_count.load();
+    do
     {
-        log_error_func("Shutting down when not initted.");
-        return -1;
-    }
+        if(init_count == 0)
+        {
+            log_error_func("Shutting down when not initted.");
+            return -1;
+        }
+    } while(!global_context.init_count.compare_exchange_weak(init_count, init_count - 1));
 
-    if(--global_context.init_count != 0)
+    if(init_count != 1)
     {
         return -1;
     }
-- 
2.43.0


From 9b3f116e08dda3dc312b667dd2eb1ae9153ba5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:11 +0000
Subject: [PATCH 14/19] fix: count a task that throws as finished

The nesting depth was not decremented when a task left by an exception.
Pending task counts and depths stayed wrong for that thread forever.
---
 threadpp/thread.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index cd87973..fd48e66 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -422,7 +422,18 @@ auto process_one(std::unique_lock<std::mutex>& lock) -> bool
 
         if(task)
         {
-            task();
+            try
+            {
+                task();
+            }
+            catch(...)
+            {
+                // a throwing task is finished as well
+                task = {};
+                lock.lock();
+                local_context.processing_stack_depth--;
+                throw;
+            }
 
             // invoke the tasks's destructor to allow
             // invoking from it on an unlocked mutex
-- 
2.43.0


From 89bf16a2c9647b400f2ae7027ff6cd78860a68ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:19 +0000
Subject: [PATCH 15/19] fix: restore the lock and the waiter list when a task
 throws out of a wait

A blocking call processes tasks. When one of them threw, the lock passed
to condition_variable::wait was not reacquired. The waiter also stayed in
the list and swallowed a later notification.
---
 threadpp/detail/semaphore.cpp | 30 ++++++++++++++++++++++++++++--
 threadpp/detail/semaphore.h   |  2 ++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/threadpp/detail/semaphore.cpp b/threadpp/detail/semaphore.cpp
index 36a9711..ad5647c 100644
--- a/threadpp/detail/semaphore.cpp
+++ b/threadpp/detail/semaphore.cpp
@@ -92,7 +92,15 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
             before_wait();
         }
 
-        this_thread::wait();
+        try
+        {
+            this_thread::wait();
+        }
+        catch(...)
+        {
+            on_exception(id, added, after_wait);
+            throw;
+        }
 
         if(after_wait)
         {
@@ -140,7 +148,15 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
             before_wait();
         }
 
-        status = this_thread::wait_for(time_left);
+        try
+        {
+            status = this_thread::wait_for(time_left);
+        }
+        catch(...)
+        {
+            on_exception(id, added, after_wait);
+            throw;
+        }
 
         if(after_wait)
         {
@@ -161,6 +177,16 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
     return status;
 }
 
+void semaphore::on_exception(thread::id id, bool added, const callback& after_wait) const
+{
+    // a task processed by the wait has thrown
+    if(after_wait)
+    {
+        after_wait();
+    }
+    remove_waiter(id, added);
+}
+
 auto semaphore::add_waiter(thread::id id, bool& added) const -> interrupt_token
 {
     std::unique_lock<std::mutex> waiting_lock(mutex_);
diff --git a/threadpp/detail/semaphore.h b/threadpp/detail/semaphore.h
index 46fff11..d38115a 100644
--- a/threadpp/detail/semaphore.h
+++ b/threadpp/detail/semaphore.h
@@ -98,6 +98,8 @@ protected:
                        const callback& before_wait,
                        const callback& after_wait) const -> std::cv_status;
 
+    void on_exception(thread::id id, bool added, const callback& after_wait) const;
+
     auto add_waiter(thread::id id, bool& added) const -> interrupt_token;
 
     auto remove_waiter(thread::id id, bool erase) const -> bool;
-- 
2.43.0


From 8b490ec7136f18922f65b76016ef8754d59a552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:14 +0000
Subject: [PATCH 16/19] fix: detach a thread from its context before the
 context's tasks are destroyed

A task that is still pending when its thread unregisters is destroyed
together with the thread's context. The destructor of such a task could
still reach the context through the this_thread functions. Calling
this_thread::process() from it executed or freed the other pending
tasks a second time.

The thread now forgets its context first.
---
 threadpp/thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index fd48e66..e79085b 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -605,8 +605,10 @@ void register_this_thread(const std::string& name)
 
 void unregister_this_thread()
 {
-    unregister_thread_impl(get_id());
+    auto id = get_id();
+    // the destructors of the pending tasks must not see the context they are part of
     set_local_context(nullptr);
+    unregister_thread_impl(id);
 }
 
 auto notified_for_exit() -> bool
-- 
2.43.0


From a1c6df99450352755378103744b61c493b5a6051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:37 +0000
Subject: [PATCH 17/19] fix: read the log callback under the lock when shutdown
 is refused

A refused shutdown logged an error through the configured callback without a
lock. Another thread finishing the last shutdown clears the callbacks at the
same time, so the callback could be read while it was being destroyed.
---
 threadpp/thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index e79085b..eddf6ca 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -192,6 +192,8 @@ auto shutdown(const std::chrono::seconds& timeout) -> int
     {
         if(init_count == 0)
         {
+            // another thread may be finishing the shutdown
+            std::lock_guard<std::mutex> lock(global_context.mutex);
             log_error_func("Shutting down when not initted.");
             return -1;
         }
-- 
2.43.0


From aa0af3669028bc9b44be121ab0470757dd652d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:12 +0000
Subject: [PATCH 18/19] fix: take the lock before reading the exception of a
 void result

get() on a future<void> read the stored exception without the lock of the
shared state. A waiter that leaves its wait because its thread was told to exit
could read it while another thread was setting it.
---
 threadpp/detail/future_state.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/threadpp/detail/future_state.hpp b/threadpp/detail/future_state.hpp
index 52d894f..3280938 100644
--- a/threadpp/detail/future_state.hpp
+++ b/threadpp/detail/future_state.hpp
@@ -187,6 +187,8 @@ struct future_state<void> : public basic_state<void>
 
     void get_value_assuming_ready()
     {
+        std::unique_lock<std::mutex> lock(guard);
+
         rethrow_any_exception();
 
         if(!ready())
-- 
2.43.0


From 61fb4bd575e349f29831bfa522d96f2a8836d128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:33:43 +0000
Subject: [PATCH 19/19] fix: return the value of a continuation of a void
 future

then() of future<void> and shared_future<void> promised a future of the continuation's result but dropped the result, so a continuation that returns a value did not compile.
---
 threadpp/future.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 2913bd5..83a6733 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -853,7 +853,7 @@ auto future<void>::then(thread::id id, std::launch policy, F&& f) -> future<then
         [f = std::forward<F>(f), state]() mutable
         {
             future<void> self(state);
-            utility::invoke(f, std::move(self));
+            return utility::invoke(f, std::move(self));
         });
     auto& future = package.callable_future;
     auto& task = package.callable;
@@ -908,7 +908,7 @@ auto shared_future<void>::then(thread::id id, std::launch policy, F&& f) const
         [f = std::forward<F>(f), state]() mutable
         {
             shared_future<void> self(state);
-            utility::invoke(f, std::move(self));
+            return utility::invoke(f, std::move(self));
         });
     auto& future = package.callable_future;
     auto& task = package.callable;
-- 
2.43.0

