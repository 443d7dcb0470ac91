From ad09f30d50fdc265e1b2672b30dd2d9038a7cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 01/28] fix: reverse_append links the nodes it visits instead
 of the end position

---
 include/stlab/algorithm/reverse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/algorithm/reverse.hpp b/include/stlab/algorithm/reverse.hpp
index aeb2a28..8b68749 100644
--- a/include/stlab/algorithm/reverse.hpp
+++ b/include/stlab/algorithm/reverse.hpp
@@ -32,7 +32,7 @@ namespace unsafe {
 template <STLAB_CONCEPT(FORWARD_NODE_ITERATOR) I>
 auto reverse_append(I first, I last, I end) -> I {
     while (first != last) {
-        I prior(end);
+        I prior(first);
         ++first;
         stlab::unsafe::set_next(prior, end);
         end = prior;
-- 
2.43.0


From 03ea4e163924ae33aa85385416b90db90d686af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 02/28] fix: reversing a run of children followed by a sibling
 keeps the rest of the forest

---
 include/stlab/algorithm/reverse.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/stlab/algorithm/reverse.hpp b/include/stlab/algorithm/reverse.hpp
index 8b68749..a70644e 100644
--- a/include/stlab/algorithm/reverse.hpp
+++ b/include/stlab/algorithm/reverse.hpp
@@ -31,13 +31,21 @@ namespace unsafe {
 
 template <STLAB_CONCEPT(FORWARD_NODE_ITERATOR) I>
 auto reverse_append(I first, I last, I end) -> I {
+    if (first == last) return end;
+
+    // Link to `end` last: `end` may follow the range, and linking to it early would break
+    // advancing onto it with an iterator that navigates by the prior link.
+    I back(first);
+    I result(first);
+    ++first;
     while (first != last) {
         I prior(first);
         ++first;
-        stlab::unsafe::set_next(prior, end);
-        end = prior;
+        stlab::unsafe::set_next(prior, result);
+        result = prior;
     }
-    return end;
+    stlab::unsafe::set_next(back, end);
+    return result;
 }
 
 /// Reverses `range` and appends `end`.  Returns the beginning of the reversed range such that
-- 
2.43.0


From bab2502fd4910cadc164e8b7c9d864653447d51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 03/28] fix: equal_shape compares the whole second forest when
 sizes are not cached

---
 include/stlab/forest_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/forest_algorithms.hpp b/include/stlab/forest_algorithms.hpp
index 9ec9837..c035ccf 100644
--- a/include/stlab/forest_algorithms.hpp
+++ b/include/stlab/forest_algorithms.hpp
@@ -26,7 +26,7 @@ auto equal_shape(const Forest1& x, const Forest2& y) -> bool {
     for (auto first(x.begin()), last(x.end()); first != last; ++first, ++pos) {
         if (first.edge() != pos.edge()) return false;
     }
-    return true;
+    return pos == y.end();
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From 0e189efeecea605a5c6a58dbc11b17a3920b7935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 04/28] fix: self-move assignment of a task destroyed its
 callable and reused it

---
 include/stlab/concurrency/task.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stlab/concurrency/task.hpp b/include/stlab/concurrency/task.hpp
index 4e4e541..cc972a8 100644
--- a/include/stlab/concurrency/task.hpp
+++ b/include/stlab/concurrency/task.hpp
@@ -224,6 +224,7 @@ public:
     auto operator=(const task_&) -> task_& = delete;
 
     auto operator=(task_&& x) noexcept -> task_& {
+        if (this == &x) return *this;
         _vtable_ptr->dtor(&_model);
         _vtable_ptr = x._vtable_ptr;
         _invoke = x._invoke;
-- 
2.43.0


From bf23fdbd5d1e200af2873396dbaf56e19bd03f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 05/28] fix: taking a result as the last owner did not
 synchronise with the owners that left

---
 include/stlab/concurrency/future.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index ce61c43..21490e4 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -219,7 +219,10 @@ struct result_of_when_any_t {
 
 template <class T>
 auto unique_usage(const std::shared_ptr<T>& p) -> bool {
-    return p.use_count() == 1;
+    if (p.use_count() != 1) return false;
+    // use_count() is a relaxed load; order the accesses of the owners that are gone before ours.
+    std::atomic_thread_fence(std::memory_order_acquire);
+    return true;
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From 2c379ac43d4d3b2acd45db3f659bb2fc8162eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 06/28] fix: assigning to a packaged_task breaks the promise of
 the task it replaces

---
 include/stlab/concurrency/future.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 21490e4..4961bf4 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -668,7 +668,11 @@ public:
     auto operator=(const packaged_task&) -> packaged_task& = delete;
 
     packaged_task(packaged_task&&) noexcept = default;
-    auto operator=(packaged_task&& x) noexcept -> packaged_task& = default;
+    auto operator=(packaged_task&& x) noexcept -> packaged_task& {
+        packaged_task tmp{std::move(x)};
+        std::swap(_p, tmp._p); // the task replaced is destroyed with tmp, which breaks its promise
+        return *this;
+    }
 
     template <class... A>
     void operator()(A&&... args) noexcept {
-- 
2.43.0


From 502a84a5610f9b72785524229f2aa1d7f7af945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 07/28] fix: when_all and when_any release cancelled inputs
 outside their lock

---
 include/stlab/concurrency/future.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 4961bf4..2ece61c 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1094,10 +1094,10 @@ struct when_all_shared {
     void failure(const std::exception_ptr& error) {
         auto run{false};
         {
+            decltype(_holds) holds; // released after the lock, releasing may fail another input
             std::unique_lock<std::mutex> lock{_guard};
             if (!_exception) {
-                for (auto& h : _holds)
-                    h.reset();
+                holds.swap(_holds);
                 _exception = error;
                 run = true;
             }
@@ -1432,10 +1432,12 @@ struct single_trigger {
     static auto go(C& context, F&& f, size_t index) -> bool {
         auto run{false};
         {
+            std::vector<future<void>> holds; // released after the lock, may fail another input
             std::unique_lock<std::mutex> lock{context._guard};
             if (!context._single_event) {
+                holds.resize(context._holds.size());
                 for (auto i = 0u; i < context._holds.size(); ++i) {
-                    if (i != index) context._holds[i].reset();
+                    if (i != index) holds[i].swap(context._holds[i]);
                 }
                 context._single_event = true;
                 context.apply(std::forward<F>(f), index);
-- 
2.43.0


From a436380df4b95d007858e9e14d70fd49e6f3f30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 08/28] fix: when_any of void futures moved an rvalue executor
 into its first input only

---
 include/stlab/concurrency/future.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 2ece61c..7b63625 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1294,7 +1294,7 @@ struct make_when_any {
 template <>
 struct make_when_any<void> {
     template <class E, class F, class... Ts>
-    static auto make(E&& executor, F&& f, future<Ts>... args) {
+    static auto make(const E& executor, F&& f, future<Ts>... args) {
         using result_t = detail::result_t<F, size_t>;
 
         auto shared = std::make_shared<detail::when_any_shared<sizeof...(Ts), void>>();
@@ -1303,7 +1303,7 @@ struct make_when_any<void> {
         });
         shared->_f = std::move(p.first);
 
-        detail::attach_when_args(std::forward<E>(executor), shared, std::move(args)...);
+        detail::attach_when_args(executor, shared, std::move(args)...);
 
         return std::move(p.second);
     }
-- 
2.43.0


From 1757382c41dc8815cc307614a89555ed5ee173e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 09/28] fix: blocking_get_for did not return the future

---
 include/stlab/concurrency/await.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/await.hpp b/include/stlab/concurrency/await.hpp
index 8780d03..7aba406 100644
--- a/include/stlab/concurrency/await.hpp
+++ b/include/stlab/concurrency/await.hpp
@@ -152,7 +152,7 @@ auto blocking_get(future<T> x) -> T {
 template <class T>
 [[deprecated("Use await_for instead.")]]
 auto blocking_get_for(future<T> x, const std::chrono::nanoseconds& timeout) -> future<T> {
-    await_for(std::move(x), timeout);
+    return await_for(std::move(x), timeout);
 }
 
 template <class T>
-- 
2.43.0


From 91b22be2814b6876114812ab6b307c431b414899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 10/28] fix: a pool thread woken for a waiting task exits
 instead when tear-down begins

---
 include/stlab/concurrency/default_executor.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/default_executor.hpp b/include/stlab/concurrency/default_executor.hpp
index 351b622..94e35b8 100644
--- a/include/stlab/concurrency/default_executor.hpp
+++ b/include/stlab/concurrency/default_executor.hpp
@@ -213,8 +213,9 @@ public:
         _waiting = true;
         while (_waiting && !_done)
             _ready.wait(lock);
+        const bool woken = !_waiting; // by `wake()`, there may be work even if done
         _waiting = false;
-        return _done;
+        return _done && !woken;
     }
 };
 
@@ -277,8 +278,9 @@ public:
         _waiting = true;
         while (_q.empty() && !_done && _waiting)
             _ready.wait(lock);
+        const bool woken = !_waiting; // by `wake()`, there may be work even if done
         _waiting = false;
-        if (_q.empty()) return {_done, nullptr};
+        if (_q.empty()) return {_done && !woken, nullptr};
         return {false, pop_not_empty()};
     }
 
-- 
2.43.0


From 5dd0185f6f35f2e2ce3e4e24f57bf1f203141275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 11/28] fix: pool tear-down joins threads added while it runs

---
 include/stlab/concurrency/default_executor.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/default_executor.hpp b/include/stlab/concurrency/default_executor.hpp
index 94e35b8..abeb713 100644
--- a/include/stlab/concurrency/default_executor.hpp
+++ b/include/stlab/concurrency/default_executor.hpp
@@ -386,8 +386,16 @@ public:
             e.done();
         for (auto& e : _waiters)
             e.done();
-        for (auto& e : _threads)
-            e.join();
+        // running tasks may still add threads
+        for (std::size_t n = 0;; ++n) {
+            std::thread t;
+            {
+                lock_t lock{_mutex};
+                if (n == _threads.size()) break;
+                t = std::move(_threads[n]);
+            }
+            t.join();
+        }
 
         _q.clear();
     }
-- 
2.43.0


From c96d0816d33df7f5b3bbabfb8ec79dc7ded83aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 12/28] fix: a pool thread could sleep or stop with work left
 in a contended queue

---
 include/stlab/concurrency/default_executor.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/stlab/concurrency/default_executor.hpp b/include/stlab/concurrency/default_executor.hpp
index abeb713..980031f 100644
--- a/include/stlab/concurrency/default_executor.hpp
+++ b/include/stlab/concurrency/default_executor.hpp
@@ -262,6 +262,13 @@ public:
         return pop_not_empty();
     }
 
+    // As `try_pop()`, but waits for the lock: only returns nullptr if there is no task
+    auto pop_if_not_empty() -> task<void() noexcept> {
+        lock_t lock{_mutex};
+        if (_q.empty()) return nullptr;
+        return pop_not_empty();
+    }
+
     // If waiting in `pop()`, wakes and returns true. Otherwise returns false.
     bool wake() {
         {
@@ -353,6 +360,10 @@ class priority_task_system {
             for (unsigned n = 0; n != _count && !f; ++n) {
                 f = _q[(i + n) % _count].try_pop();
             }
+            // do not sleep because of a contended queue, its own thread may be blocked
+            for (unsigned n = 0; n != _count && !f; ++n) {
+                f = _q[(i + n) % _count].pop_if_not_empty();
+            }
             if (!f) {
                 bool done;
                 std::tie(done, f) = _q[i].pop();
@@ -428,6 +439,10 @@ public:
                 for (unsigned n = 0; n != _count && !f; ++n) {
                     f = _q[(i + n) % _count].try_pop();
                 }
+                // do not sleep because of a contended queue, its own thread may be blocked
+                for (unsigned n = 0; n != _count && !f; ++n) {
+                    f = _q[(i + n) % _count].pop_if_not_empty();
+                }
 
                 if (f) {
                     f(); // we can wake with no task.
-- 
2.43.0


From ed1ca96d1d07a1ee515011f79e7ce0e14ce56620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 13/28] fix: a delayed executor lost its underlying executor
 after the first task

---
 include/stlab/concurrency/executor_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/executor_base.hpp b/include/stlab/concurrency/executor_base.hpp
index 76410c2..76299a9 100644
--- a/include/stlab/concurrency/executor_base.hpp
+++ b/include/stlab/concurrency/executor_base.hpp
@@ -36,7 +36,7 @@ auto execute_at(std::chrono::duration<Rep, Per> duration, executor_t executor) -
     return [_duration = std::move(duration), _executor = std::move(executor)](auto f) mutable {
         if (_duration != std::chrono::duration<Rep, Per>{})
             system_timer(_duration,
-                         [_f = std::move(f), _executor = std::move(_executor)]() mutable noexcept {
+                         [_f = std::move(f), _executor = _executor]() mutable noexcept {
                              _executor(std::move(_f));
                          });
         else
-- 
2.43.0


From 0583728e885e576e52443b3ca3651c726b4d5bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 14/28] fix: combining a process with a buffer size and an
 executor lost the second annotation

---
 include/stlab/concurrency/channel.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 21bc9b2..156958f 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1372,7 +1372,7 @@ struct annotated_process {
     annotated_process(F f, executor&& e) : _f(std::move(f)), _annotations(std::move(e._executor)) {}
     annotated_process(F f, annotations&& a) : _f(std::move(f)), _annotations(std::move(a)) {}
     annotated_process(executor_task_pair<F>&& etp, buffer_size bs) :
-        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs) {}
+        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs._value) {}
 };
 
 template <typename B, typename E>
@@ -1433,14 +1433,14 @@ auto operator&(F&& f, detail::annotations&& a) -> detail::annotated_process<F> {
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, executor&& e) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._executor = std::move(e._executor);
+    result._annotations._executor = std::move(e._executor);
     return result;
 }
 
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, buffer_size bs) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._buffer_size = bs._value;
+    result._annotations._buffer_size = bs._value;
     return result;
 }
 
-- 
2.43.0


From 63ccbce65d92e2b76189de283bd540d826ef2c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:34 +0000
Subject: [PATCH 15/28] fix: channel handles kept a count for handles assigned
 over or copied when ready

---
 include/stlab/concurrency/channel.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 156958f..19a1d9d 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1476,7 +1476,7 @@ public:
     }
 
     receiver(const receiver& x) : _p(x._p), _ready(x._ready) {
-        if (_p) _p->add_receiver();
+        if (!_ready && _p) _p->add_receiver();
     }
 
     receiver(receiver&&) noexcept = default;
@@ -1487,7 +1487,13 @@ public:
         return *this = receiver(x);
     }
 
-    auto operator=(receiver&& x) noexcept -> receiver& = default;
+    auto operator=(receiver&& x) noexcept -> receiver& {
+        // the handle replaced goes with tmp, to keep the receiver count correct.
+        receiver tmp{std::move(x)};
+        std::swap(_p, tmp._p);
+        std::swap(_ready, tmp._ready);
+        return *this;
+    }
 
     void set_ready() {
         if (!_ready && _p) _p->remove_receiver();
@@ -1585,7 +1591,12 @@ public:
         return *this = sender(x);
     }
 
-    auto operator=(sender&&) noexcept -> sender& = default;
+    auto operator=(sender&& x) noexcept -> sender& {
+        // the handle replaced goes with tmp, to keep the sender count correct.
+        sender tmp{std::move(x)};
+        std::swap(_p, tmp._p);
+        return *this;
+    }
 
     void swap(sender& x) noexcept { std::swap(*this, x); }
 
@@ -1643,7 +1654,12 @@ public:
     sender(const sender& x) = delete;
     sender(sender&&) noexcept = default;
     auto operator=(const sender& x) -> sender& = delete;
-    auto operator=(sender&&) noexcept -> sender& = default;
+    auto operator=(sender&& x) noexcept -> sender& {
+        // the handle replaced goes with tmp, to keep the sender count correct.
+        sender tmp{std::move(x)};
+        std::swap(_p, tmp._p);
+        return *this;
+    }
 
     void swap(sender& x) noexcept { std::swap(*this, x); }
 
-- 
2.43.0


From 28f57968ebe2aa2e1fb88a25dcc713960dcb5ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 16/28] fix: a process could run while it was running or
 suspended, past the buffers downstream

---
 include/stlab/concurrency/channel.hpp | 239 +++++++++++++-------------
 1 file changed, 121 insertions(+), 118 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 19a1d9d..ee45119 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -602,8 +602,7 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
             {
                 std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
                 _shared_process._process_close_queue = true;
-                do_run = !_shared_process._receiver_count && !_shared_process._process_running;
-                _shared_process._process_running = _shared_process._process_running || do_run;
+                do_run = _shared_process.wake();
             }
             if (do_run) _shared_process.run();
         }
@@ -616,10 +615,7 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
             std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
             _shared_process._queue.template append<I>(
                 std::forward<U>(u)); // TODO (sparent) : overwrite here.
-            do_run = !_shared_process._receiver_count && (!_shared_process._process_running ||
-                                                          _shared_process._timeout_function_active);
-
-            _shared_process._process_running = _shared_process._process_running || do_run;
+            do_run = _shared_process.wake();
         }
         if (do_run) _shared_process.run();
     }
@@ -630,10 +626,10 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
 
     [[nodiscard]] auto free_buffer() const -> std::size_t override {
         std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
-        return _shared_process._process_buffer_size == 0 ?
-                   std::numeric_limits<std::size_t>::max() :
-                   (_shared_process._process_buffer_size -
-                    _shared_process._queue.template queue_size<I>());
+        const std::size_t limit = _shared_process._process_buffer_size;
+        if (limit == 0) return std::numeric_limits<std::size_t>::max();
+        // a sender that is not suspended can fill the queue beyond the limit
+        return limit - std::min<std::size_t>(limit, _shared_process._queue.template queue_size<I>());
     }
 };
 
@@ -672,15 +668,7 @@ struct downstream<R, std::enable_if_t<std::is_copy_constructible_v<R> || std::is
         stlab::for_each_n(begin(_data), n, [&](const auto& e) { e(args...); });
     }
 
-    [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
-        if (size() == 0) return 0;
-        // std::reduce with C++17
-        return std::accumulate(_data.cbegin(), _data.cend(),
-                               std::numeric_limits<std::size_t>::max(),
-                               [](auto val, const auto& e) {
-                                   return std::min(val, e.free_buffer() ? *e.free_buffer() : val);
-                               });
-    }
+    [[nodiscard]] auto lock(std::size_t i) const { return _data[i]._p.lock(); }
 };
 
 template <typename R>
@@ -695,17 +683,14 @@ struct downstream<R,
 
     void clear() { _data = std::nullopt; }
 
-    [[nodiscard]] auto size() const -> std::size_t { return 1; }
+    [[nodiscard]] auto size() const -> std::size_t { return _data ? 1 : 0; }
 
     template <typename... Args>
     void send(std::size_t, Args&&... args) {
         if (_data) (*_data)(std::forward<Args>(args)...);
     }
 
-    [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
-        if (_data && (*_data).free_buffer()) return *(*_data).free_buffer();
-        return 0;
-    }
+    [[nodiscard]] auto lock(std::size_t) const { return (*_data)._p.lock(); }
 };
 
 /**************************************************************************************************/
@@ -741,13 +726,19 @@ struct shared_process
     std::mutex _process_mutex;
 
     bool _process_running = false;
+    // Set from the start of a step until the process can take the next one, so that no two steps
+    // overlap when more than one is scheduled.
+    bool _process_busy = false;
+    // Odd while the process is suspended. Each suspension has a number of its own, so that it is
+    // not ended by a downstream process that looked at an earlier one.
     std::atomic_size_t _process_suspend_count{0};
     bool _process_close_queue = false;
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
     bool _process_final = false;
 
-    std::mutex _timeout_function_control;
-    std::atomic_bool _timeout_function_active{false};
+    // The process waits for a timeout, which the arrival of a value cancels.
+    bool _timeout_function_active = false;
+    std::size_t _timeout_function_id = 0;
 
     std::atomic_size_t _sender_count{0};
     std::atomic_size_t _receiver_count;
@@ -775,6 +766,13 @@ struct shared_process
         _receiver_count = !std::is_same_v<result_t, void>;
     }
 
+    ~shared_process() override {
+        // An upstream process doesn't wait for this one any longer.
+        tuple_for_each(_upstream, [](auto& u) {
+            if (u) u->clear_to_send();
+        });
+    }
+
     void add_receiver() override {
         if (std::is_same_v<result_t, void>) return;
         ++_receiver_count;
@@ -810,6 +808,7 @@ struct shared_process
             std::unique_lock<std::mutex> lock(_process_mutex);
             do_run = !_queue.empty() || _process_close_queue;
             _process_running = do_run;
+            _process_busy = false;
             do_final = _process_final;
         }
         // The mutual exclusiveness of this assert implies too many variables. Should have a single
@@ -825,32 +824,50 @@ struct shared_process
     }
 
     void clear_to_send() override {
-        {
-            std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_final) {
-                return;
+        auto suspend_count = _process_suspend_count.load();
+        if (suspend_count % 2 == 0) {
+            bool do_run = false;
+            {
+                std::unique_lock<std::mutex> lock(_process_mutex);
+                do_run = _process_running && !_process_busy;
             }
+            if (do_run) run(); // not suspended, give it another turn
+            return;
         }
+        if (!has_room_downstream()) return;
+        if (!_process_suspend_count.compare_exchange_strong(suspend_count, suspend_count + 1))
+            return;
 
+        const auto ps = get_process_state(_process);
         bool do_run = false;
         {
-            const auto ps = get_process_state(_process);
             std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_suspend_count > 0) --_process_suspend_count; // could be atomic?
-
-            if (!_process_suspend_count) {
-                if (ps.first == process_state::yield || !_queue.empty() || _process_close_queue) {
-                    do_run = true;
-                } else {
-                    _process_running = false;
-                    do_run = false;
-                }
-            }
+            if (_process_final) return;
+            do_run =
+                ps.first == process_state::yield || !_queue.empty() || _process_close_queue;
+            _process_running = do_run;
+            _process_busy = false;
         }
         // Somebody told me that his name was Bill
         if (do_run) run();
     }
 
+    /*
+        Every downstream process can take another value. One that is gone doesn't count.
+    */
+    auto has_room_downstream() -> bool {
+        for (std::size_t i = 0;; ++i) {
+            // This may be the last owner, it is released without holding the lock.
+            std::shared_ptr<shared_process_sender<result_t>> p;
+            {
+                std::unique_lock<std::mutex> lock(_downstream_mutex);
+                if (i >= _downstream.size()) return true;
+                p = _downstream.lock(i);
+            }
+            if (p && p->free_buffer() == 0) return false;
+        }
+    }
+
     auto pop_from_queue() {
         std::optional<typename Q::value_type> message;
         std::array<bool, sizeof...(Args)> do_cts = {{false}};
@@ -910,15 +927,6 @@ struct shared_process
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
                                     !has_process_await_v<unwrap_reference_t<T>, Args...>> {
-        // in case that the timeout function is just been executed then we have to re-schedule
-        // the current run
-        lock_t lock(_timeout_function_control, std::try_to_lock);
-        if (!lock) {
-            run();
-            return;
-        }
-        _timeout_function_active = false;
-
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -962,27 +970,7 @@ struct shared_process
                        std::chrono::nanoseconds::min()) {
                 broadcast(unwrap(*_process).yield());
             } else {
-                /* Schedule a timeout. */
-                _timeout_function_active = true;
-                execute_at(duration, _executor)(
-                    [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
-                        auto _this = _weak_this.lock();
-                        // It may be that the complete channel is gone in the meanwhile
-                        if (!_this) return;
-
-                        // try_lock can fail spuriously
-                        while (true) {
-                            lock_t lock(_this->_timeout_function_control, std::try_to_lock);
-                            if (!lock) continue;
-
-                            // we were cancelled
-                            if (get_process_state(_this->_process).first != process_state::yield) {
-                                _this->try_broadcast();
-                                _this->_timeout_function_active = false;
-                            }
-                            return;
-                        }
-                    });
+                schedule_timeout(duration);
             }
         } catch (...) { // this catches exceptions during _process.await() and _process.yield()
             broadcast(std::move(std::current_exception()));
@@ -992,15 +980,6 @@ struct shared_process
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
                                     has_process_await_v<unwrap_reference_t<T>, Args...>> {
-        // in case that the timeout function is just been executed then we have to re-schedule
-        // the current run
-        lock_t lock(_timeout_function_control, std::try_to_lock);
-        if (!lock) {
-            run();
-            return;
-        }
-        _timeout_function_active = false;
-
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -1046,33 +1025,45 @@ struct shared_process
                        std::chrono::nanoseconds::min()) {
                 broadcast(unwrap(*_process).yield());
             } else {
-                /* Schedule a timeout. */
-                _timeout_function_active = true;
-                execute_at(duration, _executor)(
-                    [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
-                        auto _this = _weak_this.lock();
-                        // It may be that the complete channel is gone in the meanwhile
-                        if (!_this) return;
-
-                        // try_lock can fail spuriously
-                        while (true) {
-                            lock_t lock(_this->_timeout_function_control, std::try_to_lock);
-                            if (!lock) continue;
-
-                            // we were cancelled
-                            if (get_process_state(_this->_process).first != process_state::yield) {
-                                _this->try_broadcast();
-                                _this->_timeout_function_active = false;
-                            }
-                            return;
-                        }
-                    });
+                schedule_timeout(duration);
             }
         } catch (...) { // this catches exceptions during _process.await() and _process.yield()
             broadcast(std::move(std::current_exception()));
         }
     }
 
+    void schedule_timeout(std::chrono::nanoseconds duration) {
+        bool do_run;
+        std::size_t id;
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            // don't wait if something arrived since the queue was seen to be empty
+            do_run = !_queue.empty() || _process_close_queue;
+            _process_busy = !do_run;
+            _timeout_function_active = !do_run;
+            id = ++_timeout_function_id;
+        }
+        if (do_run) {
+            run();
+            return;
+        }
+        execute_at(duration, _executor)(
+            [_weak_this = make_weak_ptr(this->shared_from_this()), id]() noexcept {
+                auto _this = _weak_this.lock();
+                // It may be that the complete channel is gone in the meanwhile
+                if (!_this) return;
+
+                {
+                    std::unique_lock<std::mutex> lock(_this->_process_mutex);
+                    // we were cancelled
+                    if (!_this->_timeout_function_active || _this->_timeout_function_id != id)
+                        return;
+                    _this->_timeout_function_active = false;
+                }
+                _this->try_broadcast();
+            });
+    }
+
     void try_broadcast() {
         try {
             if (_process) broadcast(unwrap(*_process).yield());
@@ -1120,10 +1111,26 @@ struct shared_process
             task_done();
     }
 
+    // Returns true if the process has to be run for what arrived, _process_mutex is held.
+    auto wake() -> bool {
+        if (_receiver_count || (_process_running && !_timeout_function_active)) return false;
+        if (_timeout_function_active) _process_busy = false; // cancel the timeout
+        _timeout_function_active = false;
+        _process_running = true;
+        return true;
+    }
+
+    auto start() -> bool {
+        std::unique_lock<std::mutex> lock(_process_mutex);
+        if (_process_busy || !_process_running) return false;
+        _process_busy = true;
+        return true;
+    }
+
     void run() {
         _executor([_p = make_weak_ptr(this->shared_from_this())]() noexcept {
             auto p = _p.lock();
-            if (p) p->template step<T>();
+            if (p && p->start()) p->template step<T>();
         });
     }
 
@@ -1134,23 +1141,9 @@ struct shared_process
         */
 
         std::size_t n;
-        bool suspend_process;
         {
             std::unique_lock<std::mutex> lock(_downstream_mutex);
             n = _downstream.size();
-            suspend_process = _downstream.minimum_free_buffer() <= 1;
-        }
-
-        {
-            std::unique_lock<std::mutex> lock(_process_mutex);
-            if (suspend_process) {
-                /*
-                    Suspend for however many downstream processes we have + 1 for this process -
-                   that ensures that we are not kicked to run while still broadcasting.
-                */
-                _process_suspend_count = n + 1;
-            } else
-                _process_suspend_count = 1;
         }
         /*
             There is no lock on _downstream here. We only ever append to this deque so the first
@@ -1159,8 +1152,12 @@ struct shared_process
 
         _downstream.send(n, std::forward<A>(args)...);
 
-        clear_to_send(); // unsuspend this process and decrement the _process_suspend_count
-                         // immediately by 1
+        /*
+            Suspend this process until there is room downstream. It is running until here, which
+            ensures that we are not kicked to run while still broadcasting.
+        */
+        ++_process_suspend_count;
+        clear_to_send();
     }
 
     void map(sender<result_t> f) override {
@@ -1567,6 +1564,9 @@ class sender<T, enable_if_copyable<T>> {
     template <typename U, typename V>
     friend struct detail::channel_;
 
+    template <typename U, typename V>
+    friend struct detail::downstream;
+
     friend struct detail::channel_combiner;
 
     sender(ptr_t p) : _p(std::move(p)) {}
@@ -1639,6 +1639,9 @@ class sender<T, enable_if_not_copyable<T>> {
     template <typename U, typename V>
     friend struct detail::channel_;
 
+    template <typename U, typename V>
+    friend struct detail::downstream;
+
     friend struct detail::channel_combiner;
 
     sender(ptr_t p) : _p(std::move(p)) {}
-- 
2.43.0


From 4e9b24e53f2530afd5065d195d2c0ad4a7ed5c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 17/28] fix: a process was closed whenever its queue ran dry
 and not released if it yielded on close

---
 include/stlab/concurrency/channel.hpp | 38 +++++++++++----------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index ee45119..4d56680 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -801,15 +801,21 @@ struct shared_process
 
     auto executor() const -> executor_t override { return _executor; }
 
+    /*
+        Called when a step is complete: go on with the next one, wait for more to arrive or, when
+        the process was closed and doesn't yield any more values, end.
+    */
     void task_done() {
+        const bool yields = get_process_state(_process).first == process_state::yield;
         bool do_run;
         bool do_final;
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
-            do_run = !_queue.empty() || _process_close_queue;
-            _process_running = do_run;
-            _process_busy = false;
-            do_final = _process_final;
+            do_final = _process_final && !yields;
+            do_run = !do_final && (yields || !_queue.empty() || _process_close_queue);
+            // a process that ends is not started again
+            _process_running = do_run || do_final;
+            _process_busy = do_final;
         }
         // The mutual exclusiveness of this assert implies too many variables. Should have a single
         // "get state" call.
@@ -838,18 +844,8 @@ struct shared_process
         if (!_process_suspend_count.compare_exchange_strong(suspend_count, suspend_count + 1))
             return;
 
-        const auto ps = get_process_state(_process);
-        bool do_run = false;
-        {
-            std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_final) return;
-            do_run =
-                ps.first == process_state::yield || !_queue.empty() || _process_close_queue;
-            _process_running = do_run;
-            _process_busy = false;
-        }
         // Somebody told me that his name was Bill
-        if (do_run) run();
+        task_done();
     }
 
     /*
@@ -876,7 +872,7 @@ struct shared_process
         std::unique_lock<std::mutex> lock(_process_mutex);
         if (_queue.empty()) {
             std::swap(do_close, _process_close_queue);
-            _process_final = do_close; // unravel after any yield
+            if (do_close) _process_final = true; // unravel after any yield
         } else {
             message = std::move(_queue.front());
             _queue.pop_front();
@@ -910,8 +906,6 @@ struct shared_process
                     do_close = true;
             } else
                 await_variant_args<process_t, Args...>(*_process, *message);
-        } else {
-            do_close = true;
         }
 
         if (do_close) process_close(_process);
@@ -963,8 +957,8 @@ struct shared_process
                 else if we await with an expired timeout then go ahead and yield now.
                 else schedule a timeout when we will yield if not canceled by intervening await.
             */
-            else if (std::chrono::duration_cast<std::chrono::nanoseconds>(duration) ==
-                     std::chrono::nanoseconds::max()) {
+            else if (_process_final || std::chrono::duration_cast<std::chrono::nanoseconds>(
+                                           duration) == std::chrono::nanoseconds::max()) {
                 task_done();
             } else if (std::chrono::duration_cast<std::chrono::nanoseconds>(duration) <=
                        std::chrono::nanoseconds::min()) {
@@ -1018,8 +1012,8 @@ struct shared_process
                 else if we await with an expired timeout then go ahead and yield now.
                 else schedule a timeout when we will yield if not canceled by intervening await.
             */
-            else if (std::chrono::duration_cast<std::chrono::nanoseconds>(duration) ==
-                     std::chrono::nanoseconds::max()) {
+            else if (_process_final || std::chrono::duration_cast<std::chrono::nanoseconds>(
+                                           duration) == std::chrono::nanoseconds::max()) {
                 task_done();
             } else if (std::chrono::duration_cast<std::chrono::nanoseconds>(duration) <=
                        std::chrono::nanoseconds::min()) {
-- 
2.43.0


From f8143acac8e8014ed22814eb9bdb9f46ef01b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 18/28] fix: an unhandled error wedged a pipeline or was
 overtaken by later values

---
 include/stlab/concurrency/channel.hpp | 31 +++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 4d56680..3f806ae 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -613,6 +613,7 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
         bool do_run;
         {
             std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
+            if (_shared_process._process_final) return; // no one will take it
             _shared_process._queue.template append<I>(
                 std::forward<U>(u)); // TODO (sparent) : overwrite here.
             do_run = _shared_process.wake();
@@ -627,7 +628,7 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
     [[nodiscard]] auto free_buffer() const -> std::size_t override {
         std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
         const std::size_t limit = _shared_process._process_buffer_size;
-        if (limit == 0) return std::numeric_limits<std::size_t>::max();
+        if (limit == 0 || _shared_process._process_final) return std::numeric_limits<std::size_t>::max();
         // a sender that is not suspended can fill the queue beyond the limit
         return limit - std::min<std::size_t>(limit, _shared_process._queue.template queue_size<I>());
     }
@@ -883,6 +884,19 @@ struct shared_process
         return std::make_tuple(std::move(message), do_cts, do_close);
     }
 
+    // An error that isn't handled ends the process, what arrived after it is dropped.
+    void fail() {
+        queue_strategy_t dropped;
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            _process_final = true;
+            std::swap(dropped, _queue);
+        }
+        tuple_for_each(_upstream, [](auto& u) {
+            if (u) u->clear_to_send();
+        });
+    }
+
     auto dequeue() -> bool {
         using queue_t = typename Q::value_type;
         std::optional<queue_t> message;
@@ -900,17 +914,19 @@ struct shared_process
         if (message) {
             auto error = find_argument_error(*message);
             if (error) {
-                if (has_set_process_error_v<T>)
+                if (has_set_process_error_v<unwrap_reference_t<T>>)
                     set_process_error(*_process, std::move(*error));
-                else
+                else {
+                    fail();
                     do_close = true;
+                }
             } else
                 await_variant_args<process_t, Args...>(*_process, *message);
         }
 
         if (do_close) process_close(_process);
 
-        return bool(message);
+        return message && !do_close;
     }
 
     /*
@@ -1090,8 +1106,11 @@ struct shared_process
 
         if (message) {
             auto error = find_argument_error(*message);
-            if (error) {
-                do_close = true;
+            if (error && std::is_same_v<process_t, identity>) {
+                broadcast(std::move(*error)); // sent on the channel
+            } else if (error) {
+                fail();
+                task_done();
             } else {
                 try {
                     broadcast(
-- 
2.43.0


From 5e97617fca85d7f90984e25f7f10341e9907a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:06 +0000
Subject: [PATCH 19/28] fix: a process with await never ran when attached by an
 unordered or round robin merge

---
 include/stlab/concurrency/channel.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 3f806ae..58e613f 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -362,6 +362,11 @@ using process_await_t = decltype(std::declval<T&>().await(std::declval<Args>()..
 template <typename T, typename... Args>
 constexpr bool has_process_await_v = is_detected_v<process_await_t, T, Args...>;
 
+// A queue strategy passes on either one value at a time or a value from each input
+template <typename Q, typename T, typename Arg, typename... Args>
+constexpr bool has_queue_await_v = Q::arguments_size == 1 ? has_process_await_v<T, Arg> :
+                                                            has_process_await_v<T, Arg, Args...>;
+
 /**************************************************************************************************/
 
 template <typename P, typename... T, std::size_t... I>
@@ -920,7 +925,9 @@ struct shared_process
                     fail();
                     do_close = true;
                 }
-            } else
+            } else if constexpr (Q::arguments_size == 1)
+                await_variant_args<process_t, first_t<Args...>>(*_process, *message);
+            else
                 await_variant_args<process_t, Args...>(*_process, *message);
         }
 
@@ -936,7 +943,7 @@ struct shared_process
 
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
-                                    !has_process_await_v<unwrap_reference_t<T>, Args...>> {
+                                    !has_queue_await_v<Q, unwrap_reference_t<T>, Args...>> {
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -989,7 +996,7 @@ struct shared_process
 
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
-                                    has_process_await_v<unwrap_reference_t<T>, Args...>> {
+                                    has_queue_await_v<Q, unwrap_reference_t<T>, Args...>> {
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
-- 
2.43.0


From 347b3d2e3df9bf987d4dd15d5db4aedf131b3f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 20/28] fix: a merge with inputs of different lengths kept its
 upstream suspended and never ended

---
 include/stlab/concurrency/channel.hpp | 45 +++++++++++++++++++++------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 58e613f..59a1f92 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -412,6 +412,11 @@ struct default_queue_strategy {
 
     [[nodiscard]] auto empty() const -> bool { return _queue.empty(); }
 
+    // Nothing more can be taken once the given inputs are closed.
+    [[nodiscard]] auto exhausted(const std::array<bool, 1>& closed) const -> bool {
+        return closed[0] && _queue.empty();
+    }
+
     auto front() { return std::make_tuple(std::move(_queue.front())); }
 
     void pop_front() { _queue.pop_front(); }
@@ -445,6 +450,11 @@ struct zip_with_queue_strategy {
         return tuple_find(_queue, [](const auto& c) { return c.empty(); }) != Size;
     }
 
+    [[nodiscard]] auto exhausted(const std::array<bool, Size>& closed) const -> bool {
+        std::size_t i = 0;
+        return tuple_find(_queue, [&](const auto& c) { return closed[i++] && c.empty(); }) != Size;
+    }
+
     template <std::size_t... I, typename U>
     auto front_impl(U& u, std::index_sequence<I...>) {
         return std::make_tuple(std::move(std::get<I>(u).front())...);
@@ -495,6 +505,10 @@ struct round_robin_queue_strategy {
         return get_i(_queue, _index, [](const auto& c) { return c.empty(); }, true);
     }
 
+    [[nodiscard]] auto exhausted(const std::array<bool, Size>& closed) const -> bool {
+        return closed[_index] && empty();
+    }
+
     auto front() {
         assert(!empty() && "front on an empty container is a very bad idea!");
         return std::make_tuple(get_i(_queue, _index, [](auto& c) { return c.front(); }, item_t{}));
@@ -549,6 +563,10 @@ struct unordered_queue_strategy {
         return tuple_find(_queue, [](const auto& c) { return !c.empty(); }) == Size;
     }
 
+    [[nodiscard]] auto exhausted(const std::array<bool, Size>& closed) const -> bool {
+        return empty() && std::find(closed.begin(), closed.end(), false) == closed.end();
+    }
+
     auto front() {
         assert(!empty() && "front on an empty container is a very bad idea!");
         _index = tuple_find(_queue, [](const auto& c) { return !c.empty(); });
@@ -594,20 +612,22 @@ struct shared_process;
 template <typename Q, typename T, typename R, typename Arg, std::size_t I, typename... Args>
 struct shared_process_sender_indexed : public shared_process_sender<Arg> {
     shared_process<Q, T, R, Args...>& _shared_process;
+    std::atomic_size_t _sender_count{1};
 
     explicit shared_process_sender_indexed(shared_process<Q, T, R, Args...>& sp) :
         _shared_process(sp) {}
 
-    void add_sender() override { ++_shared_process._sender_count; }
+    void add_sender() override { ++_sender_count; }
 
     void remove_sender() override {
-        assert(_shared_process._sender_count > 0);
-        if (--_shared_process._sender_count == 0) {
+        assert(_sender_count > 0);
+        if (--_sender_count == 0) {
             bool do_run;
             {
                 std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
-                _shared_process._process_close_queue = true;
-                do_run = _shared_process.wake();
+                _shared_process._input_closed[I] = true;
+                _shared_process._process_close_queue = _shared_process.is_exhausted();
+                do_run = _shared_process._process_close_queue && _shared_process.wake();
             }
             if (do_run) _shared_process.run();
         }
@@ -739,6 +759,8 @@ struct shared_process
     // not ended by a downstream process that looked at an earlier one.
     std::atomic_size_t _process_suspend_count{0};
     bool _process_close_queue = false;
+    // The inputs with no sender left
+    std::array<bool, sizeof...(Args)> _input_closed = {{false}};
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
     bool _process_final = false;
 
@@ -746,7 +768,6 @@ struct shared_process
     bool _timeout_function_active = false;
     std::size_t _timeout_function_id = 0;
 
-    std::atomic_size_t _sender_count{0};
     std::atomic_size_t _receiver_count;
 
     std::atomic_size_t _process_buffer_size{1};
@@ -758,7 +779,6 @@ struct shared_process
         shared_process_sender_helper<Q, T, R, std::make_index_sequence<sizeof...(Args)>, Args...>(
             *this),
         _executor(std::forward<E>(e)), _process(std::forward<F>(f)) {
-        _sender_count = std::is_same_v<result_t, void> ? 0 : 1;
         _receiver_count = !std::is_same_v<result_t, void>;
     }
 
@@ -768,7 +788,6 @@ struct shared_process
             *this),
         _executor(std::forward<E>(e)), _process(std::forward<F>(f)),
         _upstream(std::forward<U>(u)...) {
-        _sender_count = sizeof...(Args);
         _receiver_count = !std::is_same_v<result_t, void>;
     }
 
@@ -870,6 +889,9 @@ struct shared_process
         }
     }
 
+    // Nothing more can be taken from the queue, _process_mutex is held.
+    auto is_exhausted() const -> bool { return !_process_final && _queue.exhausted(_input_closed); }
+
     auto pop_from_queue() {
         std::optional<typename Q::value_type> message;
         std::array<bool, sizeof...(Args)> do_cts = {{false}};
@@ -878,13 +900,17 @@ struct shared_process
         std::unique_lock<std::mutex> lock(_process_mutex);
         if (_queue.empty()) {
             std::swap(do_close, _process_close_queue);
-            if (do_close) _process_final = true; // unravel after any yield
+            if (do_close) {
+                _process_final = true; // unravel after any yield
+                do_cts.fill(true);     // what may remain in the queue holds nobody back
+            }
         } else {
             message = std::move(_queue.front());
             _queue.pop_front();
             auto queue_size = _queue.size();
             for (auto index = 0u; index < queue_size.size(); ++index)
                 do_cts[index] = queue_size[index] <= (_process_buffer_size - 1);
+            _process_close_queue = is_exhausted();
         }
         return std::make_tuple(std::move(message), do_cts, do_close);
     }
@@ -895,6 +921,7 @@ struct shared_process
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
             _process_final = true;
+            _process_close_queue = false;
             std::swap(dropped, _queue);
         }
         tuple_for_each(_upstream, [](auto& u) {
-- 
2.43.0


From 9bd6bc9e5b91d7b8cdf15f3ec29e0db26bec43cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:18 +0000
Subject: [PATCH 21/28] fix: progress lost count of tasks that were assigned
 over or destroyed after they completed

---
 include/stlab/concurrency/progress.hpp | 57 ++++++++++++++++----------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/include/stlab/concurrency/progress.hpp b/include/stlab/concurrency/progress.hpp
index 1617665..93e1c4a 100644
--- a/include/stlab/concurrency/progress.hpp
+++ b/include/stlab/concurrency/progress.hpp
@@ -12,6 +12,7 @@
 #include <atomic>
 #include <functional>
 #include <memory>
+#include <utility>
 
 namespace stlab {
 namespace detail {
@@ -27,7 +28,9 @@ public:
     void task_done() {
         ++_done_tasks;
         if (_signal) {
-            _signal(steps(), completed());
+            // in this order, a task wrapped meanwhile may have completed already
+            const auto done = completed();
+            _signal(steps(), done);
         }
     }
 
@@ -40,42 +43,52 @@ public:
     size_t completed() const { return _done_tasks.load(); }
 };
 
-template <typename F>
-struct tracker_client {
-    F _f;
-    mutable std::weak_ptr<tracker_server> _p;
+// A task's entry in the tracker: it is dropped with the task unless the task was done.
+class tracker_entry {
+    std::weak_ptr<tracker_server> _p;
+    mutable std::atomic_bool _done = {false};
 
-    tracker_client() = default;
-    tracker_client(const tracker_client& x) : _f(x._f), _p(x._p) {
+public:
+    tracker_entry() = default;
+    explicit tracker_entry(std::weak_ptr<tracker_server> x) : _p(std::move(x)) {
         auto p = _p.lock();
         if (p) p->add_task();
     }
-
-    tracker_client& operator=(const tracker_client& x) {
-        _f = x._f;
-        _p = x._p;
-        auto p = _p.lock();
-        if (p) p->add_task();
+    tracker_entry(const tracker_entry& x) : tracker_entry(x._p) {}
+    tracker_entry(tracker_entry&& x) noexcept : _p(std::move(x._p)), _done(x._done.load()) {}
+
+    tracker_entry& operator=(const tracker_entry& x) { return *this = tracker_entry(x); }
+    tracker_entry& operator=(tracker_entry&& x) noexcept {
+        tracker_entry tmp(std::move(x));
+        std::swap(_p, tmp._p);
+        _done = tmp._done.exchange(_done);
         return *this;
     }
 
-    tracker_client(tracker_client&&) = default;
-    tracker_client& operator=(tracker_client&&) = default;
-
-    tracker_client(std::shared_ptr<tracker_server>& p, F&& f) : _f(std::move(f)), _p(p) {
-        p->add_task();
+    ~tracker_entry() {
+        auto p = _p.lock();
+        if (p && !_done) p->drop_task();
     }
 
-    ~tracker_client() {
+    void done() const {
         auto p = _p.lock();
-        if (p) p->drop_task();
+        if (p && !_done.exchange(true)) p->task_done();
     }
+};
+
+template <typename F>
+struct tracker_client {
+    F _f;
+    tracker_entry _entry;
+
+    tracker_client() = default;
+
+    tracker_client(std::shared_ptr<tracker_server>& p, F&& f) : _f(std::move(f)), _entry(p) {}
 
     template <typename... Args>
     auto operator()(Args&&... args) const {
         auto r = _f(args...);
-        auto p = _p.lock();
-        if (p) p->task_done();
+        _entry.done();
         return r;
     }
 };
-- 
2.43.0


From 52518ad21323747670256668fa906419d0eb79f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 22/28] fix: the end of a filtered forest range did not filter
 when walked backwards

---
 include/stlab/forest.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index 1474226..b06ac1e 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -246,6 +246,9 @@ struct filter_fullorder_iterator {
     filter_fullorder_iterator(I f, I l) :
         _x(skip_forward(f, l, P())), _inside(true), _first(f), _last(l) {}
 
+    filter_fullorder_iterator(I x, I f, I l, P p) :
+        _x(x), _inside(true), _first(f), _last(l), _predicate(p) {}
+
     template <class U>
     filter_fullorder_iterator(const filter_fullorder_iterator<U, P>& x) :
         _x(x.base()), _inside(x._inside), _first(x._first), _last(x._last),
@@ -1170,7 +1173,7 @@ auto filter_fullorder_range(R& x, P p) {
     using iterator = filter_fullorder_iterator<typename R::iterator, P>;
 
     return forest_range<iterator>{iterator(std::begin(x), std::end(x), p),
-                                  iterator(std::end(x), std::end(x), p)};
+                                  iterator(std::end(x), std::begin(x), std::end(x), p)};
 }
 
 template <class R, typename P> // R models FullorderRange
@@ -1178,7 +1181,7 @@ auto filter_fullorder_range(const R& x, P p) {
     using iterator = filter_fullorder_iterator<typename R::const_iterator, P>;
 
     return forest_range<iterator>{iterator(std::begin(x), std::end(x), p),
-                                  iterator(std::end(x), std::end(x), p)};
+                                  iterator(std::end(x), std::begin(x), std::end(x), p)};
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From d3b80c3d3d173fecaf0b8f91c84c3df7a266e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 23/28] fix: the depth was off by one when walking back from
 the end of a depth range

---
 include/stlab/forest.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index b06ac1e..1c77e29 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -1206,14 +1206,14 @@ template <class R> // R models FullorderRange
 auto depth_range(R& x) {
     using iterator = depth_fullorder_iterator<typename R::iterator>;
 
-    return forest_range<iterator>{iterator(std::begin(x)), iterator(std::end(x))};
+    return forest_range<iterator>{iterator(std::begin(x)), iterator(std::end(x), -1)};
 }
 
 template <class R> // R models FullorderRange
 auto depth_range(const R& x) {
     using iterator = depth_fullorder_iterator<typename R::const_iterator>;
 
-    return forest_range<iterator>{iterator(std::begin(x)), iterator(std::end(x))};
+    return forest_range<iterator>{iterator(std::begin(x)), iterator(std::end(x), -1)};
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From 73cc33c3ec1b9fbcb782ab7d501c2bf15187d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:16 +0000
Subject: [PATCH 24/28] fix: a reverse full-order forest iterator whose edge
 was changed kept its old base and compared unequal

---
 include/stlab/forest.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index 1c77e29..ced544f 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -364,7 +364,11 @@ struct reverse_fullorder_iterator {
     reverse_fullorder_iterator(const reverse_fullorder_iterator<U>& x) :
         _base(--x.base()), _edge(pivot(_base.edge())) {}
 
-    [[nodiscard]] auto base() const -> iterator_type { return std::next(_base); }
+    [[nodiscard]] auto base() const -> iterator_type {
+        auto result{_base};
+        result.edge() = pivot(_edge);
+        return std::next(result);
+    }
 
     [[nodiscard]] auto edge() const -> forest_edge { return _edge; }
     auto edge() -> forest_edge& { return _edge; }
@@ -420,7 +424,7 @@ private:
     [[nodiscard]] auto dereference() const -> reference { return *_base; }
 
     [[nodiscard]] auto equal(const reverse_fullorder_iterator& y) const -> bool {
-        return (_base == y._base) && (_edge == y._edge);
+        return _base.equal_node(y._base) && (_edge == y._edge);
     }
 };
 
-- 
2.43.0


From f2f8ae25c02f50aa7fb38ebc7f01760adaa9fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:16 +0000
Subject: [PATCH 25/28] fix: copying a forest leaked the nodes already copied
 when a value's copy threw

---
 include/stlab/forest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index ced544f..2d777a5 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -802,7 +802,7 @@ public:
     forest() = default;
     ~forest() { clear(); }
 
-    forest(const forest& x) {
+    forest(const forest& x) : forest() {
         insert(end(), const_child_iterator(x.begin()), const_child_iterator(x.end()));
     }
     forest(forest&& x) noexcept : forest() { splice(end(), x); }
-- 
2.43.0


From 0fee26158d58a46b856305c7e07de2ac0967db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:16 +0000
Subject: [PATCH 26/28] fix: a value whose copy throws terminated the program
 or left the future that waited for it unready

---
 include/stlab/concurrency/future.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 7b63625..966ad19 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1004,8 +1004,12 @@ auto package(E executor, F&& f)
                                 if (auto e = f.exception()) {
                                     std::move(_p).set_exception(std::move(e));
                                 } else {
-                                    std::move(_p).set_value(invoke_void_to_monostate_result(
-                                        [&] { return std::move(f).get_ready(); }));
+                                    try {
+                                        std::move(_p).set_value(invoke_void_to_monostate_result(
+                                            [&] { return std::move(f).get_ready(); }));
+                                    } catch (...) { // the result could not be copied
+                                        std::move(_p).set_exception(std::current_exception());
+                                    }
                                 }
                             });
                     } catch (...) {
@@ -1230,7 +1234,11 @@ void attach_when_arg_(E&& executor, std::shared_ptr<P>& shared, T a) {
             if (auto ex = x.exception()) {
                 p->failure(std::move(ex));
             } else {
-                p->template done<i>(std::move(x));
+                try {
+                    p->template done<i>(std::move(x));
+                } catch (...) { // the value could not be copied
+                    p->failure(std::current_exception());
+                }
             }
         });
     std::unique_lock<std::mutex> lock{shared->_guard};
@@ -1436,11 +1444,11 @@ struct single_trigger {
             std::unique_lock<std::mutex> lock{context._guard};
             if (!context._single_event) {
                 holds.resize(context._holds.size());
+                context.apply(std::forward<F>(f), index); // may throw, leaving others to succeed
                 for (auto i = 0u; i < context._holds.size(); ++i) {
                     if (i != index) holds[i].swap(context._holds[i]);
                 }
                 context._single_event = true;
-                context.apply(std::forward<F>(f), index);
                 run = true;
             }
         }
@@ -1518,7 +1526,11 @@ void attach_tasks(size_t index, E&& executor, const std::shared_ptr<C>& context,
             if (auto ex = x.exception()) {
                 p->failure(std::move(ex), _i);
             } else {
-                p->done(std::move(x), _i);
+                try {
+                    p->done(std::move(x), _i);
+                } catch (...) { // the value could not be copied
+                    p->failure(std::current_exception(), _i);
+                }
             }
         });
 
-- 
2.43.0


From 349bcf76dc77cc006f31111d1829b12ba43ecb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:16 +0000
Subject: [PATCH 27/28] fix: round robin merging copied the values it takes out
 of its queues

---
 include/stlab/concurrency/channel.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 59a1f92..4af1dd2 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -511,7 +511,8 @@ struct round_robin_queue_strategy {
 
     auto front() {
         assert(!empty() && "front on an empty container is a very bad idea!");
-        return std::make_tuple(get_i(_queue, _index, [](auto& c) { return c.front(); }, item_t{}));
+        return std::make_tuple(
+            get_i(_queue, _index, [](auto& c) { return std::move(c.front()); }, item_t{}));
     }
 
     void pop_front() {
-- 
2.43.0


From b4b7b48181425deb80c085983b958e5a3b499a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:04 +0000
Subject: [PATCH 28/28] fix: a delay or timeout beyond the range of the clock
 overflowed and ended at once

---
 include/stlab/concurrency/await.hpp        |  9 +++++++--
 include/stlab/concurrency/system_timer.hpp | 10 +++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/await.hpp b/include/stlab/concurrency/await.hpp
index 7aba406..b77cea7 100644
--- a/include/stlab/concurrency/await.hpp
+++ b/include/stlab/concurrency/await.hpp
@@ -109,8 +109,13 @@ struct blocking_get_guarded {
 
     auto wait_for(const std::chrono::nanoseconds& timeout) -> future<T> {
         std::unique_lock<std::mutex> lock{_mutex};
-        _timed_out = !invoke_waiting(
-            [&] { return _condition.wait_for(lock, timeout, [&] { return _result.valid(); }); });
+        _timed_out = !invoke_waiting([&] {
+            using time_point = std::chrono::steady_clock::time_point;
+            const auto now = std::chrono::steady_clock::now();
+            // a timeout beyond the range of the clock never expires, don't let it overflow
+            const auto until = timeout < time_point::max() - now ? now + timeout : time_point::max();
+            return _condition.wait_until(lock, until, [&] { return _result.valid(); });
+        });
         return _timed_out ? future<T>{} : std::move(_result);
     }
 };
diff --git a/include/stlab/concurrency/system_timer.hpp b/include/stlab/concurrency/system_timer.hpp
index 6fbd757..67cf00d 100644
--- a/include/stlab/concurrency/system_timer.hpp
+++ b/include/stlab/concurrency/system_timer.hpp
@@ -273,8 +273,16 @@ public:
     template <typename F, typename Rep, typename Per = std::ratio<1>>
     auto operator()(std::chrono::duration<Rep, Per> duration, F&& f)
         -> std::enable_if_t<std::is_nothrow_invocable_v<F>> {
+        using time_point = std::chrono::steady_clock::time_point;
+        using wide_t = std::chrono::duration<std::common_type_t<Rep, time_point::rep>, Per>;
+
         lock_t lock(_timed_queue_mutex);
-        _timed_queue.emplace_back(std::chrono::steady_clock::now() + duration, std::forward<F>(f));
+        const auto now = std::chrono::steady_clock::now();
+        // a delay beyond the range of the clock is never due, don't let it overflow
+        const bool in_range =
+            wide_t(duration) < std::chrono::duration_cast<wide_t>(time_point::max() - now);
+        _timed_queue.emplace_back(in_range ? time_point(now + duration) : time_point::max(),
+                                  std::forward<F>(f));
         std::push_heap(std::begin(_timed_queue), std::end(_timed_queue), greater_first());
         _condition.notify_one();
     }
-- 
2.43.0

