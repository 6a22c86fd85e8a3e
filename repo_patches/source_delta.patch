From a6f41ca7f30aab82216a4906587e5553764762d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:07 +0000
Subject: [PATCH 01/21] fix: keep an idle worker watching the queue when tasks
 remain

A worker that wakes up and picks a task left the remaining (delayed or
simultaneously due) tasks unsupervised: other workers could sleep in an
untimed wait, so that a due task was only started after the picked one
had finished. Pass the wake-up on whenever tasks are left.
---
 src/ThreadPool.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index b125758..d44c801 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -239,6 +239,11 @@ void ThreadPool::perform_work()
         running_task_ids_.push_back(id);
         running_task_names_.push_back(name);
 
+        // This worker will be busy with the task for an unknown time, so hand over the
+        // supervision of the remaining tasks to another idle worker (if there is one).
+        if (!pending_tasks_.empty())
+            cv_.notify_one();
+
         lock.unlock();
 
         try
-- 
2.43.0


From d3bc01ec3b32336beb2711a87cca16d250662fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:08 +0000
Subject: [PATCH 02/21] fix: cancel() must not discard the result of a task it
 could not remove

TaskHandle::cancel() is documented to have no effect if the task is
already running, but it dropped the future in any case, so that the
result (or exception) of a running or finished task was lost.
---
 include/gul14/ThreadPool.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 4b8819b..6e7ec82 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -172,8 +172,11 @@ public:
          */
         bool cancel()
         {
-            future_ = {};
-            return detail::lock_pool_or_throw(pool_)->cancel_pending_task(id_);
+            const bool removed =
+                detail::lock_pool_or_throw(pool_)->cancel_pending_task(id_);
+            if (removed)
+                future_ = {};
+            return removed;
         }
 
         /**
-- 
2.43.0


From 18a7130884aaaac08ce9566bbc37985eb8761ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:39 +0000
Subject: [PATCH 03/21] fix: report the state of discarded and fetched tasks
 truthfully

A task that was discarded by cancel_pending_tasks() or by the destruction
of the pool was reported as complete because its broken promise makes the
future ready. Conversely, a completed task was reported as canceled once
its result had been fetched, and get_state() could still say 'running'
after is_complete() had returned true.
---
 include/gul14/ThreadPool.h | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 6e7ec82..ab52582 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -25,6 +25,7 @@
 #ifndef GUL14_THREADPOOL_H_
 #define GUL14_THREADPOOL_H_
 
+#include <atomic>
 #include <chrono>
 #include <condition_variable>
 #include <functional>
@@ -152,9 +153,12 @@ public:
          *                task
          * \param pool    A shared pointer to the ThreadPool that the task is associated
          *                with
+         * \param started A shared flag that is set when the task starts to be executed
          */
-        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool)
+        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool,
+                   std::shared_ptr<const std::atomic<bool>> started)
             : future_{ std::move(future) }
+            , started_{ std::move(started) }
             , id_{ id }
             , pool_{ std::move(pool) }
         {}
@@ -206,9 +210,14 @@ public:
          */
         bool is_complete() const
         {
-            if (not future_.valid())
+            // The future also becomes ready when a pending task gets discarded
+            if (not started_ || not *started_)
                 return false;
 
+            // After the result has been fetched, the future is not valid anymore
+            if (not future_.valid())
+                return true;
+
             return future_.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
         }
 
@@ -226,7 +235,13 @@ public:
          */
         TaskState get_state() const
         {
-            const auto state = detail::lock_pool_or_throw(pool_)->get_task_state(id_);
+            const auto pool = detail::lock_pool_or_throw(pool_);
+
+            // The result may be available shortly before the pool has noticed it
+            if (is_complete())
+                return TaskState::complete;
+
+            const auto state = pool->get_task_state(id_);
 
             if (state == InternalTaskState::unknown)
             {
@@ -240,6 +255,7 @@ public:
 
     private:
         std::future<T> future_;
+        std::shared_ptr<const std::atomic<bool>> started_;
         TaskId id_{ 0 };
         std::weak_ptr<ThreadPool> pool_;
     };
@@ -328,7 +344,8 @@ public:
                     PackagedTask{ std::move(fct) }, std::move(name));
 
                 TaskHandle<Result> handle{
-                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this() };
+                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this(),
+                    named_task_ptr->started_ };
 
                 pending_tasks_.emplace_back(
                     next_task_id_, std::move(named_task_ptr), start_time);
@@ -485,9 +502,15 @@ private:
         , fct_{ std::move(fct) }
         {}
 
-        void operator()(ThreadPool& pool) override { fct_(pool); }
+        void operator()(ThreadPool& pool) override
+        {
+            *started_ = true;
+            fct_(pool);
+        }
 
         FunctionType fct_;
+        std::shared_ptr<std::atomic<bool>> started_{
+            std::make_shared<std::atomic<bool>>(false) };
     };
 
     struct Task
-- 
2.43.0


From f7972975a93860ccf8d9261690c4e1f2908add53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:11 +0000
Subject: [PATCH 04/21] fix: do not take temporary ownership of the pool in
 add_task()

When a task added another task while the last owner released the pool,
the temporary shared_ptr created by add_task() could become the last one,
so that the pool got destroyed on its own worker thread with its mutex
locked (deadlock or self-join and termination).
---
 include/gul14/ThreadPool.h | 15 +++++++++++----
 src/ThreadPool.cc          |  4 +++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index ab52582..80f3980 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -151,11 +151,10 @@ public:
          * \param id      Unique ID of the task
          * \param future  A std::future that will eventually contain the result of the
          *                task
-         * \param pool    A shared pointer to the ThreadPool that the task is associated
-         *                with
+         * \param pool    A weak pointer to the ThreadPool that the task is associated with
          * \param started A shared flag that is set when the task starts to be executed
          */
-        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool,
+        TaskHandle(TaskId id, std::future<T> future, std::weak_ptr<ThreadPool> pool,
                    std::shared_ptr<const std::atomic<bool>> started)
             : future_{ std::move(future) }
             , started_{ std::move(started) }
@@ -344,7 +343,7 @@ public:
                     PackagedTask{ std::move(fct) }, std::move(name));
 
                 TaskHandle<Result> handle{
-                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this(),
+                    next_task_id_, named_task_ptr->fct_.get_future(), self_,
                     named_task_ptr->started_ };
 
                 pending_tasks_.emplace_back(
@@ -530,6 +529,14 @@ private:
 
     std::size_t capacity_{ 0 };
 
+    /**
+     * A weak pointer to this pool that is given to the task handles. It is only modified
+     * by make_shared() and not protected by the mutex. add_task() may not create a
+     * shared_ptr, not even temporarily: If it is called from a task, releasing that
+     * pointer could destroy the pool on its own worker thread.
+     */
+    std::weak_ptr<ThreadPool> self_;
+
     /**
      * The threads in the pool. This variable is only modified in the constructor and not
      * protected by the mutex.
diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index d44c801..7f7ffc2 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -179,7 +179,9 @@ std::shared_ptr<ThreadPool> ThreadPool::make_shared(
     std::size_t num_threads, std::size_t capacity)
 {
     // We cannot use std::make_shared() because the constructor is private.
-    return std::shared_ptr<ThreadPool>(new ThreadPool(num_threads, capacity));
+    std::shared_ptr<ThreadPool> pool(new ThreadPool(num_threads, capacity));
+    pool->self_ = pool;
+    return pool;
 }
 
 void ThreadPool::perform_work()
-- 
2.43.0


From 03c5ea5cf11d4904fbe755bb7b7d4c91fedbfb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:22 +0000
Subject: [PATCH 05/21] fix: join the started threads if the ThreadPool
 constructor fails

If creating one of the threads failed, the threads that had already been
started were destroyed without being joined, which terminates the process.
---
 include/gul14/ThreadPool.h |  3 +++
 src/ThreadPool.cc          | 20 ++++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 80f3980..7674550 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -615,6 +615,9 @@ private:
      * repeats until asked to quit.
      */
     void perform_work();
+
+    /// Request all threads to shut down and join them.
+    void shut_down();
 };
 
 /**
diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index 7f7ffc2..38d88b8 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -61,11 +61,27 @@ ThreadPool::ThreadPool(std::size_t num_threads, std::size_t capacity)
         throw std::invalid_argument(cat("Illegal capacity for thread pool: ", capacity));
 
     threads_.reserve(num_threads);
-    while (threads_.size() < num_threads)
-        threads_.emplace_back([this]() { perform_work(); });
+
+    try
+    {
+        while (threads_.size() < num_threads)
+            threads_.emplace_back([this]() { perform_work(); });
+    }
+    catch (...)
+    {
+        // The threads that have already been started must be joined before the members
+        // of this object get destroyed.
+        shut_down();
+        throw;
+    }
 }
 
 ThreadPool::~ThreadPool()
+{
+    shut_down();
+}
+
+void ThreadPool::shut_down()
 {
     std::unique_lock<std::mutex> lock(mutex_);
     shutdown_requested_ = true;
-- 
2.43.0


From 36cd83aa0c00278bc42a436022c73c74b683a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:28 +0000
Subject: [PATCH 06/21] fix: do not allocate memory in the worker threads of a
 ThreadPool

If the bookkeeping of running tasks ran out of memory, the exception
escaped from the worker thread and terminated the process.
---
 src/ThreadPool.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index 38d88b8..eadde12 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -62,6 +62,11 @@ ThreadPool::ThreadPool(std::size_t num_threads, std::size_t capacity)
 
     threads_.reserve(num_threads);
 
+    // Reserve memory for the bookkeeping of running tasks here so that the worker threads
+    // do not need to allocate, which might fail.
+    running_task_ids_.reserve(num_threads);
+    running_task_names_.reserve(num_threads);
+
     try
     {
         while (threads_.size() < num_threads)
@@ -255,7 +260,7 @@ void ThreadPool::perform_work()
         pending_tasks_.erase(task_it);
 
         running_task_ids_.push_back(id);
-        running_task_names_.push_back(name);
+        running_task_names_.push_back(std::move(name));
 
         // This worker will be busy with the task for an unknown time, so hand over the
         // supervision of the remaining tasks to another idle worker (if there is one).
-- 
2.43.0


From 501bb534de84b75e20b35a2173b3f526e8ba0501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:33 +0000
Subject: [PATCH 07/21] fix: destroy function objects of tasks without holding
 the pool mutex

The destructor of a function object that was canceled or had finished ran
while the mutex of the pool was locked, so that it deadlocked when it
called back into the pool and blocked all other users meanwhile.
---
 src/ThreadPool.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index eadde12..4d7a7bb 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -102,12 +102,17 @@ void ThreadPool::shut_down()
 
 bool ThreadPool::cancel_pending_task(const TaskId task_id)
 {
+    // The function object gets destroyed after the mutex has been unlocked because its
+    // destructor might call back into the pool.
+    std::unique_ptr<NamedTask> removed_task;
+
     std::lock_guard<std::mutex> lock(mutex_);
 
     auto it = std::find_if(pending_tasks_.begin(), pending_tasks_.end(),
         [task_id](const Task& t) { return t.id_ == task_id; });
     if (it != pending_tasks_.end())
     {
+        removed_task = std::move(it->named_task_);
         pending_tasks_.erase(it);
         return true;
     }
@@ -117,12 +122,13 @@ bool ThreadPool::cancel_pending_task(const TaskId task_id)
 
 std::size_t ThreadPool::cancel_pending_tasks()
 {
+    std::vector<Task> removed_tasks; // destroyed after the mutex has been unlocked
+
     std::lock_guard<std::mutex> lock(mutex_);
 
-    std::size_t num_removed = pending_tasks_.size();
-    pending_tasks_.clear();
+    removed_tasks.swap(pending_tasks_);
 
-    return num_removed;
+    return removed_tasks.size();
 }
 
 std::size_t ThreadPool::count_pending() const
@@ -280,6 +286,10 @@ void ThreadPool::perform_work()
             // to continue...
         }
 
+        // Destroy the function object while the mutex is unlocked because its destructor
+        // might call back into the pool
+        named_task_ptr.reset();
+
         lock.lock();
 
         auto it = std::find(running_task_ids_.begin(), running_task_ids_.end(), id);
-- 
2.43.0


From ce6beab659bc0d7eba3d2f6a94b872d9740bbe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:23 +0000
Subject: [PATCH 08/21] fix: let the destructor of Trigger wait for the
 released threads

The destructor signalled waiting threads but destroyed the mutex and the
condition variable while those threads were still using them.
---
 include/gul14/Trigger.h | 33 ++++++++++++++++++++++++++++++++-
 src/Trigger.cc          |  8 +++++++-
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/include/gul14/Trigger.h b/include/gul14/Trigger.h
index 66770f9..c11f1f1 100644
--- a/include/gul14/Trigger.h
+++ b/include/gul14/Trigger.h
@@ -25,6 +25,7 @@
 
 #include <chrono>
 #include <condition_variable>
+#include <cstddef>
 #include <mutex>
 
 #include "gul14/internal.h"
@@ -116,7 +117,7 @@ public:
 
     /**
      * Destructor: Send a final trigger signal so that all threads waiting on this object
-     * have a chance to stop.
+     * have a chance to stop, and block until they have stopped using the object.
      */
     GUL_EXPORT
     ~Trigger() noexcept;
@@ -189,6 +190,7 @@ public:
     bool wait_for(const std::chrono::duration<Rep, Period>& delta_t) const
     {
         std::unique_lock<std::mutex> lock(mutex_);
+        const WaiterRegistration registration(*this);
         return cv_.wait_for(lock, delta_t, [this]{ return triggered_; });
     }
 
@@ -212,12 +214,41 @@ public:
     bool wait_until(const std::chrono::time_point<Clock, Duration>& t) const
     {
         std::unique_lock<std::mutex> lock(mutex_);
+        const WaiterRegistration registration(*this);
         return cv_.wait_until(lock, t, [this]{ return triggered_; });
     }
 
 private:
+    /**
+     * A guard object that registers the current thread as a waiter, so that the destructor
+     * of the Trigger can wait until it has finished. It must be constructed and destroyed
+     * while the mutex is locked.
+     */
+    class WaiterRegistration
+    {
+    public:
+        explicit WaiterRegistration(const Trigger& trigger) noexcept
+            : trigger_(trigger)
+        {
+            ++trigger_.num_waiters_;
+        }
+
+        WaiterRegistration(const WaiterRegistration&) = delete;
+        WaiterRegistration& operator=(const WaiterRegistration&) = delete;
+
+        ~WaiterRegistration()
+        {
+            if (--trigger_.num_waiters_ == 0)
+                trigger_.cv_.notify_all(); // for the destructor of the Trigger
+        }
+
+    private:
+        const Trigger& trigger_;
+    };
+
     mutable std::mutex mutex_; // Protects private data and is used with the condition variable
     mutable std::condition_variable cv_;
+    mutable std::size_t num_waiters_ = 0;
     bool triggered_ = false;
 };
 
diff --git a/src/Trigger.cc b/src/Trigger.cc
index cbf4d61..c61bef4 100644
--- a/src/Trigger.cc
+++ b/src/Trigger.cc
@@ -27,7 +27,12 @@ namespace gul14 {
 
 Trigger::~Trigger() noexcept
 {
-    trigger();
+    std::unique_lock<std::mutex> lock(mutex_);
+    triggered_ = true;
+    cv_.notify_all();
+
+    // The mutex and the condition variable may not be destroyed while they are in use
+    cv_.wait(lock, [this]{ return num_waiters_ == 0; });
 }
 
 Trigger &Trigger::operator=(bool interrupt) noexcept
@@ -72,6 +77,7 @@ void Trigger::trigger() noexcept
 void Trigger::wait() const
 {
     std::unique_lock<std::mutex> lock(mutex_);
+    const WaiterRegistration registration(*this);
     cv_.wait(lock, [this]{ return triggered_; });
 }
 
-- 
2.43.0


From 171975a95f7b030f03c1ac0f07de3555a2b4e17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:35 +0000
Subject: [PATCH 09/21] fix: release the storage of a SmallVector whose
 constructor throws

If copying or default-constructing an element failed in one of the
constructors, the heap block that had already been reserved was leaked
and so were (for SmallVector(n)) the elements constructed so far.
Delegate to the default constructor, so that the destructor runs.
---
 include/gul14/SmallVector.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 57cd2ec..2c7274b 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -323,13 +323,13 @@ public:
      * \param num_elements  The number of initial elements
      */
     explicit SmallVector(SizeType num_elements)
+        : SmallVector()
     {
         static_assert(std::is_default_constructible<ValueType>::value,
             "SmallVector: Element type is not default-constructible");
 
         reserve(num_elements);
-        for (SizeType i = 0u; i != num_elements; ++i)
-            ::new(static_cast<void*>(data() + i)) ValueType{};
+        fill_uninitialized_cells_with_default_constructed_elements(0u, num_elements);
         size_ = num_elements;
     }
 
@@ -341,6 +341,7 @@ public:
      * \param value         The value to be copied to the initial elements
      */
     SmallVector(SizeType num_elements, const ValueType& value)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_value(num_elements, value);
     }
@@ -364,6 +365,7 @@ public:
     template<class InputIterator,
              typename = std::enable_if_t<not std::is_integral<InputIterator>::value>>
     SmallVector(InputIterator first, InputIterator last)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_range(first, last);
     }
@@ -378,6 +380,7 @@ public:
      */
     SmallVector(const SmallVector& other)
         noexcept(std::is_nothrow_copy_constructible<ValueType>::value)
+        : SmallVector()
     {
         static_assert(std::is_copy_constructible<ValueType>::value == true,
             "SmallVector: Element type is not copy-constructible");
@@ -413,6 +416,7 @@ public:
      *          list exceeds max_size().
      */
     SmallVector(std::initializer_list<ValueType> init)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_range(init.begin(), init.end());
     }
-- 
2.43.0


From a9846345cdee8b021923ab56b0583fcfd59aac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:12 +0000
Subject: [PATCH 10/21] fix: destroy the copies made by SmallVector before one
 of them throws

assign(n, value), resize(n, value), insert(pos, n, value) and the fill
constructor leaked the elements that they had already copied when the
copy of a later one failed.
---
 include/gul14/SmallVector.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 2c7274b..9806667 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -1279,8 +1279,18 @@ private:
     {
         const auto start_ptr = data() + pos;
         const auto end_ptr = start_ptr + num_elements;
-        for (auto p = start_ptr; p != end_ptr; ++p)
-            ::new(static_cast<void*>(p)) ValueType(value);
+        auto p = start_ptr;
+
+        try
+        {
+            for (; p != end_ptr; ++p)
+                ::new(static_cast<void*>(p)) ValueType(value);
+        }
+        catch (...)
+        {
+            destroy_range(start_ptr, p);
+            throw;
+        }
     }
 
     /// Return a non-dereferencable pointer past the last element.
-- 
2.43.0


From a336a3cfc6b83ee21e9e2252dbaea63756103721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:19 +0000
Subject: [PATCH 11/21] fix: do not leak shifted elements when an insertion
 into SmallVector throws

An exception thrown while elements are moved towards the back or while
the new values are copied left the elements that had been constructed
behind the old end alive but unreachable. Count the new back element
before moving on, or destroy the shifted tail again.
---
 include/gul14/SmallVector.h | 54 ++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 9806667..87912a2 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -820,11 +820,20 @@ public:
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
-        // Copy-assign to moved-from elements
-        std::fill_n(insert_pos, num_assignable, value);
+        try
+        {
+            // Copy-assign to moved-from elements
+            std::fill_n(insert_pos, num_assignable, value);
 
-        // Copy the remaining values into uninitialized cells
-        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, value);
+            // Copy the remaining values into uninitialized cells
+            copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, value);
+        }
+        catch (...)
+        {
+            const auto tail_end = data_end() + num_elements;
+            destroy_range(tail_end - num_assignable, tail_end);
+            throw;
+        }
 
         size_ += num_elements;
 
@@ -862,11 +871,20 @@ public:
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
-        // Copy-assign to moved-from elements
-        std::copy_n(first, num_assignable, insert_pos);
+        try
+        {
+            // Copy-assign to moved-from elements
+            std::copy_n(first, num_assignable, insert_pos);
 
-        // Copy the remaining values into uninitialized cells
-        copy_range_into_uninitialized_cells(size_, first + num_assignable, last);
+            // Copy the remaining values into uninitialized cells
+            copy_range_into_uninitialized_cells(size_, first + num_assignable, last);
+        }
+        catch (...)
+        {
+            const auto tail_end = data_end() + num_elements;
+            destroy_range(tail_end - num_assignable, tail_end);
+            throw;
+        }
 
         size_ += num_elements;
 
@@ -1432,8 +1450,8 @@ private:
         // Construct new back() element by moving from the old back()
         ::new(static_cast<void*>(data_ptr + size_)) ValueType(std::move(*(data_ptr + size_ - 1)));
 
-        std::move_backward(insert_pos, data_ptr + size_ - 1, data_ptr + size_);
         ++size_;
+        std::move_backward(insert_pos, data_ptr + size_ - 2, data_ptr + size_ - 1);
 
         *insert_pos = std::forward<T>(value);
 
@@ -1475,11 +1493,21 @@ private:
         // Move-initialize elements in uninitialized space at the back of the container
         const auto from_ptr = data_ptr + size_ - num_move_initialized;
         const auto to_ptr = from_ptr + num_elements;
-        for (SizeType i = 0; i != num_move_initialized; ++i)
-            ::new(static_cast<void*>(to_ptr + i)) ValueType(std::move(*(from_ptr + i)));
+        SizeType i = 0;
+
+        try
+        {
+            for (; i != num_move_initialized; ++i)
+                ::new(static_cast<void*>(to_ptr + i)) ValueType(std::move(*(from_ptr + i)));
 
-        // Move elements backwards within old vector size
-        std::move_backward(data_ptr + idx, data_ptr + idx + num_moved, to_ptr);
+            // Move elements backwards within old vector size
+            std::move_backward(data_ptr + idx, data_ptr + idx + num_moved, to_ptr);
+        }
+        catch (...)
+        {
+            destroy_range(to_ptr, to_ptr + i);
+            throw;
+        }
 
         return num_move_initialized;
     }
-- 
2.43.0


From 0b106f5b2a0b694dbbf15f73b4ab8a1150983685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:46 +0000
Subject: [PATCH 12/21] fix: keep the contents of a SlidingBuffer if
 push_front() throws

push_front() updated the indices before assigning the new element, so
that a stale element became visible (or the last element was dropped)
when the assignment failed. Assign first, as push_back() does.
---
 include/gul14/SlidingBuffer.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index ab9c2a9..354f7e1 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -343,14 +343,16 @@ public:
      */
     auto push_front(const value_type& in) -> void
     {
-        decrease_idx(idx_begin_);
+        auto new_begin = idx_begin_;
+        decrease_idx(new_begin);
 
+        storage_[new_begin] = in;
+
+        idx_begin_ = new_begin;
         if (full_)
             decrease_idx(idx_end_);
         else if (idx_end_ == idx_begin_)
             full_ = true;
-
-        storage_[idx_begin_] = in;
     }
 
     /**
@@ -358,14 +360,16 @@ public:
      */
     auto push_front(value_type&& in) -> void
     {
-        decrease_idx(idx_begin_);
+        auto new_begin = idx_begin_;
+        decrease_idx(new_begin);
 
+        storage_[new_begin] = std::move(in);
+
+        idx_begin_ = new_begin;
         if (full_)
             decrease_idx(idx_end_);
         else if (idx_end_ == idx_begin_)
             full_ = true;
-
-        storage_[idx_begin_] = std::move(in);
     }
 
     /**
-- 
2.43.0


From 26b8c2cfe727e41c951f97dca2026d64749152b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:50 +0000
Subject: [PATCH 13/21] fix: keep the order of a SlidingBuffer if growing it
 throws

The elements are rotated to the start of the container before it is
enlarged. When the allocation failed, the indices still described the
old arrangement and the elements appeared in a wrong order.
---
 include/gul14/SlidingBuffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index 354f7e1..fe60066 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -999,8 +999,9 @@ protected:
         if (new_capacity > old_capacity) {
             // Make SlidingBuffer indices equal to those of the underlying container
             std::rotate(storage_.begin(), storage_.begin() + idx_begin_, storage_.end());
-            storage_.resize(new_capacity);
             idx_begin_ = 0;
+            idx_end_ = full_ ? 0 : old_size;
+            storage_.resize(new_capacity);
             idx_end_ = old_size;
             full_ = false;
             return;
-- 
2.43.0


From 41a3c82854aca9a294b243df1e79f9cb80db0ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:52 +0000
Subject: [PATCH 14/21] fix: assign the data of a SlidingBuffer before its
 indices

If copying the elements threw in the (defaulted) copy assignment, the
buffer was left with the indices of the source but its own data, so
that it reported elements that it did not have.
---
 include/gul14/SlidingBuffer.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index fe60066..198a076 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -244,7 +244,10 @@ public:
     SlidingBuffer(size_type count) : storage_(count) {}
 
 protected:
-
+    /// Actual data is stored here, the underlying container.
+    /// (Declared before the indices, so that these are only assigned if assigning the data
+    /// did not throw.)
+    Container storage_{ };
     /// Index of the first SlidingBuffer element in the underlying container (the one
     /// retrieved by SlidingBuffer::front()).
     size_type idx_begin_{ 0u };
@@ -253,8 +256,6 @@ protected:
     size_type idx_end_{ 0u };
     /// Indicates if the buffer is completely filled with elements.
     bool full_{ false };
-    /// Actual data is stored here, the underlying container.
-    Container storage_{ };
 
 public:
     /**
-- 
2.43.0


From 81b2ffadba8590bfda8fc56cea09a71a5c22b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:15 +0000
Subject: [PATCH 15/21] fix: keep a SlidingBufferExposed valid if moving
 elements throws in resize()

When a right-aligned buffer was shrunk, it was marked as full before its
elements were moved. If a move failed, it claimed to contain elements
that it did not have.
---
 include/gul14/SlidingBuffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index 198a076..2f9a607 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -1302,11 +1302,12 @@ public:
 
         //////
         // Shrinking
-        full_ = (this->size() >= new_capacity);
+        auto const becomes_full = (this->size() >= new_capacity);
         auto const required_shift = std::min(old_capacity - new_capacity, idx_begin_);
         std::rotate(storage_.begin(), storage_.begin() + required_shift, storage_.end());
         idx_begin_ -= required_shift;
         storage_.resize(new_capacity);
+        full_ = becomes_full;
     }
 
     /**
-- 
2.43.0


From 7adc161847aa4e89c7e92be363e5d6bd99f62768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:25 +0000
Subject: [PATCH 16/21] fix: restore the content of expected properly after an
 exception

When the construction of a new value threw, assignment, emplace() and
swap() put the old content back by assigning to an object that had
already been destroyed. Construct it anew instead.
---
 include/gul14/expected.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 91354be..0dda150 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -689,7 +689,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       try {
         construct(rhs.get());
       } catch (...) {
-        geterr() = std::move(tmp);
+        ::new (std::addressof(this->m_unexpect)) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -724,7 +724,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       try {
         construct(std::move(rhs).get());
       } catch (...) {
-        geterr() = std::move(tmp);
+        ::new (std::addressof(this->m_unexpect)) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1605,7 +1605,7 @@ public:
         ::new (valptr()) T(std::forward<U>(v));
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1674,7 +1674,7 @@ public:
         ::new (valptr()) T(std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1714,7 +1714,7 @@ public:
         ::new (valptr()) T(il, std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1777,7 +1777,7 @@ private:
       ::new (rhs.valptr()) T(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      val() = std::move(temp);
+      ::new (valptr()) T(std::move(temp));
       throw;
     }
 #else
@@ -1800,7 +1800,7 @@ private:
       ::new (errptr()) unexpected_type(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      rhs.err() = std::move(temp);
+      ::new (rhs.errptr()) unexpected_type(std::move(temp));
       throw;
     }
 #else
-- 
2.43.0


From e845b17cebf3a3d0265f68d73b5a69630ac82e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:37 +0000
Subject: [PATCH 17/21] fix: keep the old value of expected if emplace() throws

emplace() destroyed the old value first. When the construction of the
new one threw, the object still claimed to have a value and destroyed it
a second time. Construct the new value first if it can be moved safely.
---
 include/gul14/expected.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 0dda150..09e2592 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -1663,8 +1663,8 @@ public:
                                T, Args &&...>::value> * = nullptr>
   void emplace(Args &&...args) {
     if (has_value()) {
-      val().~T();
-      ::new (valptr()) T(std::forward<Args>(args)...);
+      replace_val(typename std::is_nothrow_move_constructible<T>::type{},
+                  std::forward<Args>(args)...);
     } else {
       auto tmp = std::move(err());
       err().~unexpected<E>();
@@ -1725,6 +1725,19 @@ public:
   }
 
 private:
+  // If the new value can be moved into place without throwing, construct it
+  // before destroying the old one, so that an exception changes nothing.
+  template <class... Args> void replace_val(std::true_type, Args &&...args) {
+    T tmp(std::forward<Args>(args)...);
+    val().~T();
+    ::new (valptr()) T(std::move(tmp));
+  }
+
+  template <class... Args> void replace_val(std::false_type, Args &&...args) {
+    val().~T();
+    ::new (valptr()) T(std::forward<Args>(args)...);
+  }
+
   using t_is_void = std::true_type;
   using t_is_not_void = std::false_type;
   using t_is_nothrow_move_constructible = std::true_type;
-- 
2.43.0


From 2fe5484db192ead995453a2202d216dc10feffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:06 +0000
Subject: [PATCH 18/21] fix: do not truncate hexdump() strings when memory runs
 out

The string stream swallowed std::bad_alloc and hexdump() returned an incomplete
dump as if nothing had happened. Let the exception pass to the caller.
---
 include/gul14/hexdump.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gul14/hexdump.h b/include/gul14/hexdump.h
index 94b4c8b..71ab6d2 100644
--- a/include/gul14/hexdump.h
+++ b/include/gul14/hexdump.h
@@ -220,6 +220,7 @@ template<typename IteratorT,
 std::string hexdump(IteratorT begin, IteratorT end, string_view prompt = "")
 {
     std::stringstream o{ };
+    o.exceptions(std::ios::badbit); // Let std::bad_alloc pass, do not truncate the dump
     return detail::hexdump_stream(o, begin, end, prompt).str();
 }
 
@@ -237,6 +238,7 @@ template<typename ContainerT,
 std::string hexdump(const ContainerT& cont, string_view prompt = "")
 {
     std::stringstream o{ };
+    o.exceptions(std::ios::badbit); // Let std::bad_alloc pass, do not truncate the dump
     return detail::hexdump_stream(o, cont.cbegin(), cont.cend(), prompt).str();
 }
 
-- 
2.43.0


From e5a42bb35293a40d804c237e92df4359e4968f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:16 +0000
Subject: [PATCH 19/21] fix: let a failed flush after writing a date show in
 the stream state

The result of pubsync() was ignored, and an exception thrown by it ended the
program because it left a destructor.
---
 include/gul14/date.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 31f4757..226997a 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -1015,7 +1015,12 @@ public:
                 !std::uncaught_exception() &&
 #endif
                 this->is_.good())
-            this->is_.rdbuf()->pubsync();
+        {
+            // The failure must be visible in the stream state, but destructors may not throw
+            bool failed = true;
+            try { failed = (this->is_.rdbuf()->pubsync() == -1); } catch (...) {}
+            try { if (failed) this->is_.setstate(std::ios::badbit); } catch (...) {}
+        }
     }
 
     save_ostream(const save_ostream&) = delete;
-- 
2.43.0


From f65abe6809c338fb6ee73b19d53dd09b03acb5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:00 +0000
Subject: [PATCH 20/21] fix: do not destroy a function object under the pool's
 mutex if add_task() fails

If memory ran out while adding a task, the function object was destroyed
with the mutex locked. A destructor that uses the pool (or waits for a
thread that does) caused a deadlock.
---
 include/gul14/ThreadPool.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 7674550..b225f8c 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -328,6 +328,14 @@ public:
 
         TaskHandle<Result> task_handle = [this, &fct, start_time, &name]()
             {
+                // If something fails below, the function object gets destroyed after the
+                // mutex has been unlocked because its destructor might call back into the
+                // pool.
+                using PackagedTask = std::packaged_task<Result(ThreadPool&)>;
+
+                auto named_task_ptr = std::make_unique<NamedTaskImpl<PackagedTask>>(
+                    PackagedTask{ std::move(fct) }, std::move(name));
+
                 std::lock_guard<std::mutex> lock(mutex_);
 
                 if (is_full_i())
@@ -337,11 +345,6 @@ public:
                         pending_tasks_.size(), ')'));
                 }
 
-                using PackagedTask = std::packaged_task<Result(ThreadPool&)>;
-
-                auto named_task_ptr = std::make_unique<NamedTaskImpl<PackagedTask>>(
-                    PackagedTask{ std::move(fct) }, std::move(name));
-
                 TaskHandle<Result> handle{
                     next_task_id_, named_task_ptr->fct_.get_future(), self_,
                     named_task_ptr->started_ };
-- 
2.43.0


From 2b8a02d3a3955b801b64000e04131f47fbac3017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:56 +0000
Subject: [PATCH 21/21] fix: keep a hex dump object intact if copying into it
 fails

If memory ran out in the copy assignment, the iterators already pointed
into the container of the other object: dumping the object afterwards
printed its data or accessed freed memory.
---
 include/gul14/hexdump.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/gul14/hexdump.h b/include/gul14/hexdump.h
index 71ab6d2..ab81842 100644
--- a/include/gul14/hexdump.h
+++ b/include/gul14/hexdump.h
@@ -312,10 +312,14 @@ public:
         if (this == &other)
             return *this;
 
+        // Copying may throw, so it has to be done before this object gets changed
+        auto prompt = other.prompt_;
+        auto cont = other.cont_;
+
         begin_ = other.begin_;
         end_ = other.end_;
-        prompt_ = other.prompt_;
-        cont_ = other.cont_;
+        prompt_ = std::move(prompt);
+        cont_ = std::move(cont);
 
         regenerate_iterators<ContainerT>();
 
-- 
2.43.0

