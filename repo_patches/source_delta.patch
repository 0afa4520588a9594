From 759bba7d85f766e73c9c54b44ad2c6f147f2aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 01/40] fix: blocking_queue::try_pop keeps the item queued when
 copying it throws

The item was removed from the queue before it was copied into the returned optional,
so a throwing copy constructor lost it. Copy it first, remove it afterwards.
---
 sdk/include/teiacare/sdk/blocking_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/include/teiacare/sdk/blocking_queue.hpp b/sdk/include/teiacare/sdk/blocking_queue.hpp
index 02f5a89..442ec79 100644
--- a/sdk/include/teiacare/sdk/blocking_queue.hpp
+++ b/sdk/include/teiacare/sdk/blocking_queue.hpp
@@ -162,11 +162,11 @@ public:
         if (is_empty())
             return std::nullopt;
 
-        T item = _queue.front();
+        std::optional<T> item(_queue.front());
         _queue.pop();
         pop_impl(std::move(lock));
 
-        return std::move(std::optional(item));
+        return item;
     }
 
     /*!
-- 
2.43.0


From 57037f16c8e1e196c7fe1c8f25e59912de272087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 02/40] fix: task_scheduler start/stop cannot hang or leave
 tasks behind

stop() changed the running state without holding the mutex its thread waits with, so the
wake-up could be lost and the join never returned; add_task() checked the state outside the
lock, so a task added during stop() stayed scheduled and ran after the next start(); the
scheduler thread could enqueue into the already stopped pool. The scheduler now has its own
running flag guarded by the mutex, start() and stop() are serialized and the pool is stopped
after the scheduler thread.
---
 sdk/include/teiacare/sdk/task_scheduler.hpp |  2 ++
 sdk/src/task_scheduler.cpp                  | 35 +++++++++++++--------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index f067f12..8632393 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -429,6 +429,8 @@ private:
     std::multimap<tc::sdk::clock::time_point, schedulable_task> _tasks;
     std::condition_variable _update_tasks_cv;
     std::mutex _update_tasks_mtx;
+    std::mutex _running_mtx; // serializes start() and stop()
+    bool _is_running; // guarded by _update_tasks_mtx
     std::hash<std::string> _hasher;
     std::atomic<tc::sdk::clock::time_point> _next_task_timepoint;
 
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 1331465..197d68c 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -19,6 +19,7 @@
 namespace tc::sdk
 {
 task_scheduler::task_scheduler()
+    : _is_running{false}
 {
 }
 
@@ -29,22 +30,27 @@ task_scheduler::~task_scheduler()
 
 bool task_scheduler::start(const unsigned int num_threads)
 {
+    std::scoped_lock running_lock(_running_mtx);
     if (!_tp.start(num_threads))
         return false;
 
+    {
+        std::scoped_lock lock(_update_tasks_mtx);
+        _is_running = true;
+    }
+
     std::promise<void> thread_started_notifier;
     std::future<void> thread_started_watcher = thread_started_notifier.get_future();
 
     _scheduler_thread = std::thread([this, &thread_started_notifier] {
         thread_started_notifier.set_value();
 
-        while (_tp.is_running())
+        std::unique_lock lock(_update_tasks_mtx);
+        while (_is_running)
         {
-            std::unique_lock lock(_update_tasks_mtx);
-
             if (_tasks.empty())
             {
-                _update_tasks_cv.wait(lock, [this] { return !_tp.is_running() || !_tasks.empty(); });
+                _update_tasks_cv.wait(lock, [this] { return !_is_running || !_tasks.empty(); });
             }
             else
             {
@@ -57,7 +63,7 @@ bool task_scheduler::start(const unsigned int num_threads)
                     continue;
             }
 
-            if (!_tp.is_running())
+            if (!_is_running)
                 return;
 
             update_tasks();
@@ -71,20 +77,24 @@ bool task_scheduler::start(const unsigned int num_threads)
 
 bool task_scheduler::stop()
 {
-    if (!_tp.stop())
-        return false;
-
-    _update_tasks_cv.notify_all();
+    std::scoped_lock running_lock(_running_mtx);
 
     {
         std::scoped_lock lock(_update_tasks_mtx);
+        if (!_is_running)
+            return false;
+
+        _is_running = false;
         _tasks.clear();
     }
 
+    _update_tasks_cv.notify_all();
+
+    // The pool is stopped only when the scheduler thread can no longer enqueue anything in it.
     if (_scheduler_thread.joinable())
         _scheduler_thread.join();
 
-    return true;
+    return _tp.stop();
 }
 
 size_t task_scheduler::tasks_size()
@@ -169,11 +179,10 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
 
 bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st)
 {
-    if (!_tp.is_running())
-        return false;
-
     {
         std::scoped_lock lock(_update_tasks_mtx);
+        if (!_is_running)
+            return false;
 
         if (already_exists(st.hash()))
             return false;
-- 
2.43.0


From 24c320bca4a06584d7ca84e9ba8eadaa3e9c5cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 03/40] fix: event_dispatcher identifies events by exact name
 and argument types

Events were keyed by the name followed by the sum of the hash codes of the
argument types, so that the same types in another order (or a name that ends
like such a number) named the same event and a handler was called through
the wrong type; remove_event() removed every event whose name starts with
the given one. Handlers are now stored with their decayed argument types, so
that emit() finds the type it casts to, and ids are counted per dispatcher
under the lock instead of in a static that any destructor resets.
---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 43 ++++++++++---------
 sdk/src/event_dispatcher.cpp                  | 13 +++---
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 808be76..2d5a5fd 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -20,10 +20,13 @@
 #include <teiacare/sdk/thread_pool.hpp>
 
 #include <functional>
+#include <map>
 #include <memory>
 #include <mutex>
 #include <string>
-#include <unordered_map>
+#include <type_traits>
+#include <typeindex>
+#include <utility>
 #include <vector>
 
 namespace tc::sdk
@@ -55,11 +58,12 @@ private:
         const unsigned long id;
     };
 
+    // Args are the decayed event arguments: each call works on its own copy of them.
     template <typename... Args>
     class handler_t : public base_handler_t, private non_copyable, private non_moveable
     {
     public:
-        handler_t(unsigned long id, std::function<void(Args...)>&& h) noexcept
+        handler_t(unsigned long id, std::function<void(Args&...)>&& h) noexcept
             : base_handler_t(id)
             , _handler{std::move(h)}
         {
@@ -68,11 +72,11 @@ private:
 
         void call(Args... args) const
         {
-            _handler(std::forward<Args>(args)...);
+            _handler(args...);
         }
 
     private:
-        std::function<void(Args...)> _handler;
+        std::function<void(Args&...)> _handler;
     };
 
 public:
@@ -110,11 +114,15 @@ public:
                       "\nevent_handler arguments mismatch in add_handler()!"
                       "\nplease match your handler arguments (input parameters) with your declaration (template specification)");
 
+        auto handler = [h = std::move(event_handler)](std::decay_t<Args>&... args) mutable {
+            std::invoke(h, static_cast<Args&&>(args)...);
+        };
+
         const auto event_handler_id = get_event_handler_id<Args...>(std::move(event_name));
 
         std::unique_lock handlers_lock(_handlers_mutex);
-        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<Args...>>(++handler_id, std::move(event_handler)));
-        return handler_id;
+        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<std::decay_t<Args>...>>(++_handler_id, std::move(handler)));
+        return _handler_id;
     }
 
     /*!
@@ -139,8 +147,8 @@ public:
 
         for (auto&& h : event_handlers)
         {
-            const std::function<void()> event = [e = std::static_pointer_cast<handler_t<Args...>>(h), args...] {
-                return std::invoke(&handler_t<Args...>::call, e.get(), args...);
+            const std::function<void()> event = [e = std::static_pointer_cast<handler_t<std::decay_t<Args>...>>(h), args...] {
+                return e->call(args...);
             };
 
             _tp.run(std::move(event));
@@ -177,23 +185,18 @@ public:
     auto stop() -> bool;
 
 private:
-    std::unordered_map<std::string, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
+    // Events are identified by their name and by the list of their (decayed) argument types.
+    using event_handler_id_t = std::pair<std::string, std::type_index>;
+
+    std::map<event_handler_id_t, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
     std::mutex _handlers_mutex;
     tc::sdk::thread_pool _tp;
-    static unsigned long handler_id;
+    unsigned long _handler_id{0};
 
     template <typename... Args>
-    constexpr auto get_event_handler_id(std::string&& event_name) const
+    auto get_event_handler_id(std::string&& event_name) const -> event_handler_id_t
     {
-        if constexpr (sizeof...(Args) == 0)
-        {
-            return std::move(event_name);
-        }
-        else
-        {
-            auto args_hash = std::to_string((typeid(std::decay_t<Args>).hash_code() + ...));
-            return std::move(event_name + args_hash);
-        }
+        return {std::move(event_name), std::type_index(typeid(void(std::decay_t<Args>...)))};
     }
 };
 
diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index d66f54d..3cb25bc 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -16,8 +16,6 @@
 
 namespace tc::sdk
 {
-unsigned long event_dispatcher::handler_id = 0;
-
 event_dispatcher::event_dispatcher() noexcept
 {
 }
@@ -25,19 +23,18 @@ event_dispatcher::event_dispatcher() noexcept
 event_dispatcher::~event_dispatcher() noexcept
 {
     stop();
-    handler_id = 0;
 }
 
 auto event_dispatcher::remove_handler(unsigned long remove_handler_id) -> bool
 {
     std::unique_lock handlers_lock(_handlers_mutex);
 
-    for (auto&& event_handlers : _handlers)
+    for (auto it = _handlers.begin(); it != _handlers.end(); ++it)
     {
-        if (std::erase_if(event_handlers.second, [remove_handler_id](auto&& h) { return h->id == remove_handler_id; }))
+        if (std::erase_if(it->second, [remove_handler_id](auto&& h) { return h->id == remove_handler_id; }))
         {
-            if (event_handlers.second.empty())
-                _handlers.erase(event_handlers.first);
+            if (it->second.empty())
+                _handlers.erase(it);
 
             return true;
         }
@@ -50,7 +47,7 @@ auto event_dispatcher::remove_event(std::string event_name) -> bool
 {
     std::unique_lock handlers_lock(_handlers_mutex);
 
-    if (std::erase_if(_handlers, [event_name](auto&& handler_iterator) { return handler_iterator.first.starts_with(event_name); }))
+    if (std::erase_if(_handlers, [&event_name](auto&& handler_iterator) { return handler_iterator.first.first == event_name; }))
         return true;
 
     return false;
-- 
2.43.0


From 6b4a497159b565c4b017fae749cf1708367bb5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 04/40] fix: high_precision_timer survives instantaneous ticks
 and set_callback while running

When a callback completed while the clock still showed its own tick, the
next tick was not advanced and missed_callback_count wrapped around.
set_callback() replaced the task while the worker could be executing it; the
task is now replaced under the lock, shared with the worker while it runs
and executed without the lock.
---
 .../teiacare/sdk/high_precision_timer.hpp     |  8 ++++--
 sdk/src/high_precision_timer.cpp              | 25 ++++++++++++-------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/sdk/include/teiacare/sdk/high_precision_timer.hpp b/sdk/include/teiacare/sdk/high_precision_timer.hpp
index e7c5fb4..856ad60 100644
--- a/sdk/include/teiacare/sdk/high_precision_timer.hpp
+++ b/sdk/include/teiacare/sdk/high_precision_timer.hpp
@@ -84,7 +84,11 @@ public:
             return std::apply(t, params);
         };
 
-        _task = std::make_unique<tc::sdk::task>(std::move(task_func));
+        auto task = std::make_shared<tc::sdk::task>(std::move(task_func));
+
+        // The worker may be executing the current task: it keeps it alive until its execution is completed.
+        std::unique_lock<std::mutex> lock(_worker_mutex);
+        _task.swap(task);
     }
 
     /*!
@@ -110,7 +114,7 @@ protected:
 private:
     bool _is_running;
     clock::duration _interval;
-    std::unique_ptr<tc::sdk::task> _task;
+    std::shared_ptr<tc::sdk::task> _task;
     clock::time_point _next_task_timepoint;
     std::thread _worker_thread;
     std::condition_variable _worker_cv;
diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index 0a5e517..f464752 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -32,8 +32,11 @@ high_precision_timer::~high_precision_timer()
 
 bool high_precision_timer::start(clock::duration&& interval)
 {
-    if (!_task)
-        return false;
+    {
+        std::unique_lock<std::mutex> lock(_worker_mutex);
+        if (!_task)
+            return false;
+    }
 
     stop();
 
@@ -90,7 +93,13 @@ void high_precision_timer::worker()
         if (_worker_cv.wait_until(lock, _next_task_timepoint, [this] { return !_is_running; }))
             break;
 
-        _task->invoke();
+        auto task = _task;
+        lock.unlock();
+
+        task->invoke();
+        task.reset();
+
+        lock.lock();
         ++_invoked_callback_count;
         update_next_start_time();
     }
@@ -98,16 +107,14 @@ void high_precision_timer::worker()
 
 void high_precision_timer::update_next_start_time()
 {
-    auto task_next_start_time = _next_task_timepoint;
     const auto now = clock::now();
-    while (now > task_next_start_time)
+
+    _next_task_timepoint += _interval;
+    while (now > _next_task_timepoint)
     {
-        task_next_start_time += _interval;
+        _next_task_timepoint += _interval;
         ++_missed_callback_count;
     }
-    // Adjust _missed_callback_count removing the last execution from the counter.
-    --_missed_callback_count;
-    _next_task_timepoint = task_next_start_time;
 }
 
 }
-- 
2.43.0


From 5989c66e83b9a33a52fba827889b01e5c2ef5a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 05/40] fix: rate_limiter deadlines do not accumulate rounding
 errors

Deadlines were accumulated as floating point seconds since the clock's epoch:
each frame was shortened or lengthened by the same rounding error, so that
the rate drifted, more so the longer the system had been up.
---
 sdk/include/teiacare/sdk/rate_limiter.hpp |  6 +++---
 sdk/src/rate_limiter.cpp                  | 13 +++++++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/sdk/include/teiacare/sdk/rate_limiter.hpp b/sdk/include/teiacare/sdk/rate_limiter.hpp
index 4d1e690..3ee0b10 100644
--- a/sdk/include/teiacare/sdk/rate_limiter.hpp
+++ b/sdk/include/teiacare/sdk/rate_limiter.hpp
@@ -53,8 +53,8 @@ public:
     void sync();
 
 private:
-    using duration_rep = double;
-    const std::chrono::duration<duration_rep> time_between_frames; // 1/rate
-    std::chrono::time_point<tc::sdk::clock, std::remove_const_t<decltype(time_between_frames)>> tp;
+    const size_t rate;
+    const tc::sdk::time_point start_time;
+    size_t frames; // frames since start_time
 };
 }
diff --git a/sdk/src/rate_limiter.cpp b/sdk/src/rate_limiter.cpp
index 2970e62..de45f06 100644
--- a/sdk/src/rate_limiter.cpp
+++ b/sdk/src/rate_limiter.cpp
@@ -19,15 +19,20 @@
 namespace tc::sdk
 {
 rate_limiter::rate_limiter(size_t rate)
-    : time_between_frames{std::chrono::seconds(1) / static_cast<duration_rep>(rate)}
-    , tp{tc::sdk::clock::now()}
+    : rate{rate}
+    , start_time{tc::sdk::clock::now()}
+    , frames{0}
 {
 }
 
 void rate_limiter::sync()
 {
-    tp += time_between_frames;
-    std::this_thread::sleep_until(tp);
+    ++frames;
+
+    // Each deadline is computed from the start time: adding up frame durations would add up their rounding errors too.
+    const std::chrono::seconds seconds(frames / rate);
+    const std::chrono::duration<double> fraction(static_cast<double>(frames % rate) / static_cast<double>(rate));
+    std::this_thread::sleep_until(start_time + seconds + std::chrono::round<tc::sdk::time_duration>(fraction));
 }
 
 }
-- 
2.43.0


From 051a34f816fe141f73776ce000a7c0448b73f49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 06/40] fix: thread_pool::threads_count can be called at any
 time

It read the size of the vector of threads without synchronisation while
start() and stop(), possibly on other threads, were changing it.
---
 sdk/include/teiacare/sdk/thread_pool.hpp | 1 +
 sdk/src/thread_pool.cpp                  | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/thread_pool.hpp b/sdk/include/teiacare/sdk/thread_pool.hpp
index dda217e..313e92e 100644
--- a/sdk/include/teiacare/sdk/thread_pool.hpp
+++ b/sdk/include/teiacare/sdk/thread_pool.hpp
@@ -117,6 +117,7 @@ private:
     std::atomic_bool _is_running;
     std::mutex _is_running_mutex;
     std::vector<std::thread> _threads;
+    std::atomic_size_t _threads_count;
     std::queue<tc::sdk::task> _task_queue;
     std::condition_variable _task_cv;
     std::mutex _task_mutex;
diff --git a/sdk/src/thread_pool.cpp b/sdk/src/thread_pool.cpp
index 75eb3bd..25de6ad 100644
--- a/sdk/src/thread_pool.cpp
+++ b/sdk/src/thread_pool.cpp
@@ -20,6 +20,7 @@ namespace tc::sdk
 {
 thread_pool::thread_pool()
     : _is_running{false}
+    , _threads_count{0}
 {
 }
 
@@ -38,6 +39,7 @@ bool thread_pool::start(const unsigned int num_threads)
 
     const auto thread_count = std::clamp(num_threads, 1u, std::thread::hardware_concurrency());
     _threads.reserve(thread_count);
+    _threads_count = thread_count;
     is_ready = std::make_shared<std::latch>(thread_count + 1);
 
     for (unsigned int i = 0; i < thread_count; ++i)
@@ -71,13 +73,14 @@ bool thread_pool::stop()
     }
 
     _threads.clear();
+    _threads_count = 0;
 
     return true;
 }
 
 size_t thread_pool::threads_count() const
 {
-    return _threads.size();
+    return _threads_count;
 }
 
 bool thread_pool::is_running() const
-- 
2.43.0


From 609d95049444ac8f867e52e55a7e22aa0cccbdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 07/40] fix: uuid_generator draws from one synchronised source
 of randomness

create() used the generator of the singleton without synchronisation, so that
concurrent calls raced and could return equal uuids, and a copy of the
uuid_generator, as the example makes, went on from the same state as the
original and created the same uuids again.
---
 sdk/include/teiacare/sdk/uuid_generator.hpp |  5 +---
 sdk/src/uuid_generator.cpp                  | 28 ++++++++++++++++++---
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/sdk/include/teiacare/sdk/uuid_generator.hpp b/sdk/include/teiacare/sdk/uuid_generator.hpp
index 9354af1..94a1c73 100644
--- a/sdk/include/teiacare/sdk/uuid_generator.hpp
+++ b/sdk/include/teiacare/sdk/uuid_generator.hpp
@@ -16,7 +16,7 @@
 
 #include <teiacare/sdk/uuid.hpp>
 
-#include <random>
+#include <string_view>
 
 namespace tc::sdk
 {
@@ -59,9 +59,6 @@ private:
     explicit uuid_generator() noexcept;
     [[nodiscard]] inline bool is_hex(const char c) const noexcept;
     [[nodiscard]] inline uint8_t hex_to_uint8(const char c) const noexcept;
-
-    std::mt19937 _generator;
-    std::uniform_int_distribution<uint32_t> _distribution;
 };
 
 }
diff --git a/sdk/src/uuid_generator.cpp b/sdk/src/uuid_generator.cpp
index 186114e..ee25dce 100644
--- a/sdk/src/uuid_generator.cpp
+++ b/sdk/src/uuid_generator.cpp
@@ -15,11 +15,29 @@
 #include <teiacare/sdk/uuid_generator.hpp>
 
 #include <limits>
+#include <mutex>
 #include <random>
 #include <stdexcept>
 
 namespace tc::sdk
 {
+namespace
+{
+// One source of randomness for the whole process: a copied generator must not repeat the uuids of the original one.
+struct random_source
+{
+    std::mutex mutex;
+    std::mt19937 generator{std::random_device()()};
+    std::uniform_int_distribution<uint32_t> distribution{std::numeric_limits<uint32_t>::min(), std::numeric_limits<uint32_t>::max()};
+
+    static random_source& instance()
+    {
+        static random_source instance;
+        return instance;
+    }
+};
+}
+
 uuid_generator& uuid_generator::instance()
 {
     static uuid_generator instance;
@@ -30,8 +48,12 @@ uuid_generator& uuid_generator::instance()
 {
     alignas(uint32_t) std::array<uint8_t, 16> bytes;
 
-    for (int i = 0; i < 16; i += 4)
-        *reinterpret_cast<uint32_t*>(bytes.data() + i) = _distribution(_generator);
+    {
+        auto& source = random_source::instance();
+        std::scoped_lock lock(source.mutex);
+        for (int i = 0; i < 16; i += 4)
+            *reinterpret_cast<uint32_t*>(bytes.data() + i) = source.distribution(source.generator);
+    }
 
     // variant must be 10xxxxxx
     bytes[8] &= 0xBF;
@@ -141,8 +163,6 @@ uuid_generator& uuid_generator::instance()
 }
 
 uuid_generator::uuid_generator() noexcept
-    : _generator(std::mt19937(std::random_device()()))
-    , _distribution(std::numeric_limits<uint32_t>::min(), std::numeric_limits<uint32_t>::max())
 {
 }
 
-- 
2.43.0


From b3630912a8aa118d809aecff4d10e3d009d1b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 08/40] fix: argparse converts values of type char

Extracting a single character does not set eofbit, so every value was
reported as a conversion error. Ask whether anything is left instead.
---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 75b0c8d..74ad188 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -270,7 +270,7 @@ protected:
         T value;
         std::istringstream iss(str);
 
-        if (!(iss >> value) || !(iss.eof()))
+        if (!(iss >> value) || iss.peek() != std::istringstream::traits_type::eof())
         {
             throw std::runtime_error("Conversion error: " + _name_long + "=" + str);
         }
-- 
2.43.0


From 7acfadbd410682f5c6d38760d3d26cc2f3eac2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 09/40] fix: argparse reports invalid environment values, empty
 names and foreign exceptions as errors

parse_from_env was noexcept although parse reports errors by throwing, an
empty option name matched the arguments declared without a short name, and
only exceptions derived from std::exception were turned into an error.
---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp |  3 ++-
 sdk/src/argparse/argument_parser.cpp                | 13 +++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 74ad188..c7cb6de 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -83,8 +83,9 @@ public:
      *
      * This function checks if the specified environment variable exists and,
      * if so, parses its value using the parse method.
+     * \throws std::runtime_error If the value of the environment variable is not valid for this argument.
      */
-    void parse_from_env() noexcept
+    void parse_from_env()
     {
         if (_env.empty())
             return;
diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index 1217e3b..9b81019 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -44,6 +44,13 @@ parse_result argument_parser::parse(int argc, char* argv[]) const
         print_help();
         return parse_result::error;
     }
+    catch (...)
+    {
+        // i.e. a validator callback throwing something which does not derive from std::exception
+        std::cerr << "Unknown error" << std::endl;
+        print_help();
+        return parse_result::error;
+    }
 }
 
 parse_result argument_parser::parse(std::vector<std::string>&& args) const
@@ -244,6 +251,12 @@ void argument_parser::print_arguments() const
 
 tc::sdk::argument_base* argument_parser::find_argument(std::string_view name, const std::vector<std::unique_ptr<tc::sdk::argument_base>>& args) const
 {
+    if (name.empty())
+    {
+        // An empty name does not match the arguments without a short name
+        return nullptr;
+    }
+
     auto it = std::find_if(args.begin(), args.end(), [&](const std::unique_ptr<tc::sdk::argument_base>& arg) {
         return name == arg->get_name_short() || name == arg->get_name_long();
     });
-- 
2.43.0


From 04edaecb0e5c043ab1a2b8660ca18341a1872f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 10/40] fix: date arithmetic works outside the nanosecond range

date +/- timedelta went through a nanosecond time point, which overflows for dates before 1678 or after 2261.
---
 sdk/include/teiacare/sdk/datetime/date.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/include/teiacare/sdk/datetime/date.hpp b/sdk/include/teiacare/sdk/datetime/date.hpp
index e7ddd81..5532510 100644
--- a/sdk/include/teiacare/sdk/datetime/date.hpp
+++ b/sdk/include/teiacare/sdk/datetime/date.hpp
@@ -197,7 +197,7 @@ public:
      */
     constexpr tc::sdk::date operator+(const timedelta& delta) const noexcept
     {
-        return tc::sdk::date{std::chrono::sys_days(_ymd) + delta.total_nanoseconds()};
+        return tc::sdk::date{std::chrono::year_month_day{std::chrono::sys_days(_ymd) + std::chrono::floor<std::chrono::days>(delta.total_nanoseconds())}};
     }
 
     /*!
@@ -207,7 +207,7 @@ public:
      */
     constexpr tc::sdk::date operator-(const timedelta& delta) const noexcept
     {
-        return tc::sdk::date{std::chrono::sys_days(_ymd) - delta.total_nanoseconds()};
+        return tc::sdk::date{std::chrono::year_month_day{std::chrono::sys_days(_ymd) - std::chrono::ceil<std::chrono::days>(delta.total_nanoseconds())}};
     }
 
     /*!
-- 
2.43.0


From d14433d40bc7335c3e7caf426179085fa086b1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 11/40] fix: timedelta division by zero throws
 std::domain_error

As documented by operator/.
---
 sdk/include/teiacare/sdk/datetime/timedelta.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/include/teiacare/sdk/datetime/timedelta.hpp b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
index 85a6446..7668184 100644
--- a/sdk/include/teiacare/sdk/datetime/timedelta.hpp
+++ b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
@@ -16,6 +16,7 @@
 
 #include <chrono>
 #include <ostream>
+#include <stdexcept>
 
 namespace tc::sdk
 {
@@ -289,6 +290,9 @@ public:
      */
     constexpr inline tc::sdk::timedelta operator/(int64_t divider) const noexcept(false)
     {
+        if (divider == 0)
+            throw std::domain_error("timedelta division by zero");
+
         return tc::sdk::timedelta{_duration / divider};
     }
 
-- 
2.43.0


From e5e12f3e8baebb4277f910f35826e1787e1cfb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 12/40] fix: date::from_string reads dates outside the
 nanosecond range

The parsed day was converted through a nanosecond time point, which overflows for such dates.
---
 sdk/src/datetime/date.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sdk/src/datetime/date.cpp b/sdk/src/datetime/date.cpp
index 83eb8d0..bb36cab 100644
--- a/sdk/src/datetime/date.cpp
+++ b/sdk/src/datetime/date.cpp
@@ -36,8 +36,7 @@ tc::sdk::date date::from_string(const std::string& str, const std::string& forma
     if (ss.fail())
         throw std::runtime_error("Failed to parse " + str);
 
-    const std::chrono::system_clock::time_point tp = parsed_date;
-    return tc::sdk::date(tp);
+    return tc::sdk::date(std::chrono::year_month_day{parsed_date});
 }
 
 tc::sdk::date date::today() noexcept
-- 
2.43.0


From c5f015e247ce8fb3b31f38fce2feb83b6539f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 13/40] fix: datetime::to_string prints instants before 1970
 cut towards the past

time_point_cast truncates towards the epoch, so that an instant before 1970 could be printed with the next day's date.
---
 sdk/src/datetime/datetime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/datetime/datetime.cpp b/sdk/src/datetime/datetime.cpp
index ccaf9e0..556de93 100644
--- a/sdk/src/datetime/datetime.cpp
+++ b/sdk/src/datetime/datetime.cpp
@@ -26,7 +26,7 @@ std::ostream& operator<<(std::ostream& stream, const datetime& dt)
 template <class DurationT>
 std::string datetime::to_string(const std::string& format) const noexcept(false)
 {
-    return ::date::format(format, std::chrono::time_point_cast<DurationT>(_tp));
+    return ::date::format(format, std::chrono::floor<DurationT>(_tp));
 }
 
 template std::string datetime::to_string<std::chrono::seconds>(const std::string& format) const noexcept(false);
-- 
2.43.0


From d730c5235522a660aa3d40922dc4651f1ff04cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 14/40] fix: time::from_string rejects fields out of range

Hours above 23 and minutes or seconds above 59 were accepted and silently normalised into another time.
---
 sdk/src/datetime/time.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdk/src/datetime/time.cpp b/sdk/src/datetime/time.cpp
index f1cbef9..5869543 100644
--- a/sdk/src/datetime/time.cpp
+++ b/sdk/src/datetime/time.cpp
@@ -39,13 +39,13 @@ template std::string time::to_string<std::chrono::nanoseconds>(const std::string
 template <class DurationT>
 tc::sdk::time time::from_string(const std::string& str, const std::string& format) noexcept(false)
 {
-    DurationT parsed_time;
+    ::date::fields<std::common_type_t<DurationT, std::chrono::seconds>> parsed_fields{};
     std::stringstream ss{str};
-    ss >> ::date::parse(format, parsed_time);
-    if (ss.fail())
+    ::date::from_stream(ss, format.c_str(), parsed_fields);
+    if (ss.fail() || !parsed_fields.has_tod || !parsed_fields.tod.in_conventional_range())
         throw std::runtime_error("Failed to parse " + str);
 
-    return tc::sdk::time(parsed_time);
+    return tc::sdk::time(std::chrono::duration_cast<DurationT>(parsed_fields.tod.to_duration()));
 }
 
 template tc::sdk::time time::from_string<std::chrono::hours>(const std::string& str, const std::string& format) noexcept(false);
-- 
2.43.0


From 62119affc691d6562686f96b162e785d43544fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 15/40] fix: datetime::from_string rejects instants that cannot
 be represented

The conversion to nanoseconds overflowed and an unrelated instant was returned.
---
 sdk/src/datetime/datetime.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/sdk/src/datetime/datetime.cpp b/sdk/src/datetime/datetime.cpp
index 556de93..59f77c5 100644
--- a/sdk/src/datetime/datetime.cpp
+++ b/sdk/src/datetime/datetime.cpp
@@ -37,13 +37,24 @@ template std::string datetime::to_string<std::chrono::nanoseconds>(const std::st
 template <class DurationT>
 tc::sdk::datetime tc::sdk::datetime::from_string(const std::string& str, const std::string& format) noexcept(false)
 {
-    std::chrono::sys_time<DurationT> parsed_time;
+    ::date::fields<std::common_type_t<DurationT, std::chrono::seconds>> parsed_fields{};
+    parsed_fields.has_tod = true;
+    std::chrono::minutes offset{};
     std::stringstream ss{str};
-    ss >> ::date::parse(format, parsed_time);
-    if (ss.fail())
+    ::date::from_stream(ss, format.c_str(), parsed_fields, static_cast<std::string*>(nullptr), &offset);
+    if (ss.fail() || !parsed_fields.ymd.ok() || !parsed_fields.tod.in_conventional_range())
         throw std::runtime_error("Failed to parse " + str);
 
-    return tc::sdk::datetime(parsed_time);
+    const std::chrono::sys_days parsed_days = ::date::sys_days(parsed_fields.ymd);
+    const auto parsed_time = parsed_fields.tod.to_duration() - offset;
+
+    // A text can denote an instant that a nanoseconds time point is not able to represent
+    const std::chrono::sys_time<std::chrono::microseconds> parsed_us = parsed_days + std::chrono::floor<std::chrono::microseconds>(parsed_time);
+    if (parsed_us < std::chrono::ceil<std::chrono::microseconds>(tc::sdk::sys_time_point::min()) ||
+        parsed_us >= std::chrono::floor<std::chrono::microseconds>(tc::sdk::sys_time_point::max()))
+        throw std::runtime_error("Out of range " + str);
+
+    return tc::sdk::datetime(tc::sdk::sys_time_point(parsed_us) + (parsed_time - std::chrono::floor<std::chrono::microseconds>(parsed_time)));
 }
 
 template tc::sdk::datetime datetime::from_string<std::chrono::seconds>(const std::string& str, const std::string& format) noexcept(false);
-- 
2.43.0


From 2de26e9ccdeeb8c9180b5e531e39dc4592a91cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 16/40] fix: task owns a copy of the callable it is built from

A named callable was stored by reference.
---
 sdk/include/teiacare/sdk/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/task.hpp b/sdk/include/teiacare/sdk/task.hpp
index ec67bc8..54afb36 100644
--- a/sdk/include/teiacare/sdk/task.hpp
+++ b/sdk/include/teiacare/sdk/task.hpp
@@ -41,7 +41,7 @@ public:
      */
     template <typename CallableType>
     explicit task(CallableType&& callable)
-        : _callable(std::make_unique<task_impl<CallableType>>(std::move(callable)))
+        : _callable(std::make_unique<task_impl<std::decay_t<CallableType>>>(std::forward<CallableType>(callable)))
     {
     }
 
-- 
2.43.0


From c6b1de37a8ffe20a8e29e8bb476871aa0746fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 17/40] fix: service_locator supports interfaces that are not
 the first base of the service

The service was stored as a void pointer to its own type and read back as a pointer to the interface, without the conversion between the two.
---
 sdk/include/teiacare/sdk/service_locator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/service_locator.hpp b/sdk/include/teiacare/sdk/service_locator.hpp
index e0ea68a..564b4eb 100644
--- a/sdk/include/teiacare/sdk/service_locator.hpp
+++ b/sdk/include/teiacare/sdk/service_locator.hpp
@@ -62,7 +62,8 @@ public:
         static_assert(std::is_base_of_v<ServiceInterfaceT, ServiceT>,
                       "\nServiceT must inherit from ServiceInterfaceT");
 
-        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::make_shared<ServiceT>(std::forward<Args>(args)...));
+        std::shared_ptr<ServiceInterfaceT> service = std::make_shared<ServiceT>(std::forward<Args>(args)...);
+        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::move(service));
         return is_inserted;
     }
 
-- 
2.43.0


From 26431854f5b0056bde0de533ac19f30b9876e4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 18/40] fix: point distances do not overflow

The squares were computed in the coordinate type.
---
 sdk/include/teiacare/sdk/geometry/point.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdk/include/teiacare/sdk/geometry/point.hpp b/sdk/include/teiacare/sdk/geometry/point.hpp
index 39b1d01..831b9bc 100644
--- a/sdk/include/teiacare/sdk/geometry/point.hpp
+++ b/sdk/include/teiacare/sdk/geometry/point.hpp
@@ -156,7 +156,7 @@ public:
      */
     constexpr T distance_from_origin() const noexcept
     {
-        return static_cast<T>(std::sqrt(_x * _x + _y * _y));
+        return static_cast<T>(std::hypot(static_cast<double>(_x), static_cast<double>(_y)));
     }
 
     /*!
@@ -166,9 +166,9 @@ public:
      */
     constexpr T distance(point other) const noexcept
     {
-        T dx = other._x - _x;
-        T dy = other._y - _y;
-        return static_cast<T>(std::sqrt(dx * dx + dy * dy));
+        const T dx = _x < other._x ? other._x - _x : _x - other._x;
+        const T dy = _y < other._y ? other._y - _y : _y - other._y;
+        return static_cast<T>(std::hypot(static_cast<double>(dx), static_cast<double>(dy)));
     }
 
     /*!
-- 
2.43.0


From 753ec1d90c13f35c8ae6214fb7e3874076f7b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 19/40] fix: rectangle::translated compiles

It modified a const point.
---
 sdk/include/teiacare/sdk/geometry/rectangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/geometry/rectangle.hpp b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
index 8ae8696..2a7b3c0 100644
--- a/sdk/include/teiacare/sdk/geometry/rectangle.hpp
+++ b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
@@ -352,7 +352,7 @@ public:
      */
     tc::sdk::rectangle<T> translated(T delta_x, T delta_y) const noexcept
     {
-        const auto translated_position = tc::sdk::point<T>(_position);
+        auto translated_position = tc::sdk::point<T>(_position);
         translated_position.add_delta(delta_x, delta_y);
         return tc::sdk::rectangle<T>(translated_position, _width, _height);
     }
-- 
2.43.0


From b28f992c4ebc9ced950678d5753f94f521cbf3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 20/40] fix: rectangle::contains is strict on all four sides

As documented.
---
 sdk/include/teiacare/sdk/geometry/rectangle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/include/teiacare/sdk/geometry/rectangle.hpp b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
index 2a7b3c0..5886111 100644
--- a/sdk/include/teiacare/sdk/geometry/rectangle.hpp
+++ b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
@@ -254,8 +254,8 @@ public:
     {
         return _position.x() < other._position.x() &&
                _position.y() < other._position.y() &&
-               _position.x() + _width >= other._position.x() + other._width &&
-               _position.y() + _height >= other._position.y() + other._height;
+               _position.x() + _width > other._position.x() + other._width &&
+               _position.y() + _height > other._position.y() + other._height;
     }
 
     /*!
-- 
2.43.0


From abb660a4af53cac3f2f99baf97d53f8fcae07fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 21/40] fix: argparse takes the empty value of '--option='
 instead of the next argument

---
 sdk/include/teiacare/sdk/argparse/argument_parser.hpp | 3 ++-
 sdk/src/argparse/argument_parser.cpp                  | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_parser.hpp b/sdk/include/teiacare/sdk/argparse/argument_parser.hpp
index 6a94715..ace28ab 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_parser.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_parser.hpp
@@ -20,6 +20,7 @@
 
 #include <algorithm>
 #include <memory>
+#include <optional>
 #include <string>
 #include <unordered_map>
 #include <vector>
@@ -199,7 +200,7 @@ protected:
 
 private:
     tc::sdk::argument_base* find_argument(std::string_view name, const std::vector<std::unique_ptr<tc::sdk::argument_base>>& args) const;
-    std::pair<std::string, std::string> split_key_value(const std::string& arg) const;
+    std::pair<std::string, std::optional<std::string>> split_key_value(const std::string& arg) const;
     std::string vector_to_string(const std::vector<std::string>& v) const;
     void check_parsed_arguments(const std::vector<std::unique_ptr<tc::sdk::argument_base>>& args) const;
 
diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index 9b81019..7be92a4 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -101,9 +101,9 @@ parse_result argument_parser::parse(std::vector<std::string>&& args) const
 
             if (auto opt = find_argument(key, _optionals); opt != nullptr)
             {
-                if (!value.empty())
+                if (value)
                 {
-                    opt->parse(value);
+                    opt->parse(*value);
                 }
                 else if (i + 1 < args.size())
                 {
@@ -264,10 +264,10 @@ tc::sdk::argument_base* argument_parser::find_argument(std::string_view name, co
     return it == args.end() ? nullptr : it->get();
 }
 
-std::pair<std::string, std::string> argument_parser::split_key_value(const std::string& arg) const
+std::pair<std::string, std::optional<std::string>> argument_parser::split_key_value(const std::string& arg) const
 {
     std::string key = "";
-    std::string value = "";
+    std::optional<std::string> value = std::nullopt;
 
     const size_t eq_pos = arg.find('=');
     if (eq_pos != std::string::npos)
-- 
2.43.0


From 1e32e7ae49cab814afaee6e84f50915f26a7be2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 22/40] fix: service_locator tells types of the same name in
 different translation units apart

---
 sdk/include/teiacare/sdk/service_locator.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdk/include/teiacare/sdk/service_locator.hpp b/sdk/include/teiacare/sdk/service_locator.hpp
index 564b4eb..7e22d2e 100644
--- a/sdk/include/teiacare/sdk/service_locator.hpp
+++ b/sdk/include/teiacare/sdk/service_locator.hpp
@@ -19,6 +19,7 @@
 
 #include <memory>
 #include <type_traits>
+#include <typeindex>
 #include <typeinfo>
 #include <unordered_map>
 
@@ -126,12 +127,12 @@ private:
     explicit service_locator() = default;
 
     template <typename T>
-    size_t get_id() const noexcept
+    std::type_index get_id() const noexcept
     {
-        return std::move(typeid(T).hash_code());
+        return std::type_index(typeid(T));
     }
 
-    std::unordered_map<size_t, std::shared_ptr<void>> _services;
+    std::unordered_map<std::type_index, std::shared_ptr<void>> _services;
 };
 
 }
-- 
2.43.0


From 1272322f4b0acd2c8bf1b324a1b1f0729b458267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 23/40] fix: task_scheduler compares task ids, not their hashes

---
 sdk/include/teiacare/sdk/task_scheduler.hpp | 27 ++++++++++-----------
 sdk/src/task_scheduler.cpp                  | 22 ++++++-----------
 2 files changed, 20 insertions(+), 29 deletions(-)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index 8632393..a554ce5 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -54,10 +54,10 @@ private:
         }
 
         template <typename FunctionType>
-        explicit schedulable_task(FunctionType&& f, size_t hash)
+        explicit schedulable_task(FunctionType&& f, std::string id)
             : _task{std::make_shared<tc::sdk::task>(std::forward<FunctionType>(f))}
             , _is_enabled{true}
-            , _hash{hash}
+            , _id{std::move(id)}
         {
         }
 
@@ -70,11 +70,11 @@ private:
         }
 
         template <typename FunctionType>
-        explicit schedulable_task(FunctionType&& f, size_t hash, tc::sdk::clock::duration interval)
+        explicit schedulable_task(FunctionType&& f, std::string id, tc::sdk::clock::duration interval)
             : _task{std::make_shared<tc::sdk::task>(std::forward<FunctionType>(f))}
             , _is_enabled{true}
             , _interval{interval}
-            , _hash{hash}
+            , _id{std::move(id)}
         {
         }
 
@@ -86,7 +86,7 @@ private:
             : _task{std::move(other._task)}
             , _is_enabled{std::move(other._is_enabled)}
             , _interval{std::move(other._interval)}
-            , _hash{std::move(other._hash)}
+            , _id{std::move(other._id)}
         {
         }
 
@@ -118,22 +118,22 @@ private:
             return _interval;
         }
 
-        std::optional<size_t> hash() const
+        const std::optional<std::string>& id() const
         {
-            return _hash;
+            return _id;
         }
 
     private:
         std::shared_ptr<tc::sdk::task> _task;
         bool _is_enabled;
         std::optional<tc::sdk::clock::duration> _interval;
-        std::optional<size_t> _hash;
+        std::optional<std::string> _id;
 
         schedulable_task(schedulable_task* st)
             : _task{st->_task}
             , _is_enabled{st->_is_enabled}
             , _interval{st->_interval}
-            , _hash{st->_hash}
+            , _id{st->_id}
         {
         }
     };
@@ -312,7 +312,7 @@ public:
         auto task_wrapper = std::packaged_task<ReturnType()>(task);
         std::future<ReturnType> future = task_wrapper.get_future();
 
-        if (!add_task(std::move(timepoint), schedulable_task(std::move(task_wrapper), _hasher(task_id))))
+        if (!add_task(std::move(timepoint), schedulable_task(std::move(task_wrapper), task_id)))
             return std::nullopt;
 
         return future;
@@ -405,7 +405,7 @@ public:
             return std::apply(t, params);
         };
 
-        return add_task(tc::sdk::clock::now(), schedulable_task(std::move(task), _hasher(task_id), interval));
+        return add_task(tc::sdk::clock::now(), schedulable_task(std::move(task), task_id, interval));
     }
 
     /*!
@@ -420,7 +420,7 @@ public:
             return std::apply(t, params);
         };
 
-        return add_task(tc::sdk::clock::now() + delay, schedulable_task(std::move(task), _hasher(task_id), interval));
+        return add_task(tc::sdk::clock::now() + delay, schedulable_task(std::move(task), task_id, interval));
     }
 
 private:
@@ -431,13 +431,12 @@ private:
     std::mutex _update_tasks_mtx;
     std::mutex _running_mtx; // serializes start() and stop()
     bool _is_running; // guarded by _update_tasks_mtx
-    std::hash<std::string> _hasher;
     std::atomic<tc::sdk::clock::time_point> _next_task_timepoint;
 
     bool add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st);
     void update_tasks();
     auto get_task_iterator(const std::string& task_id) -> decltype(_tasks)::iterator;
-    bool already_exists(const std::optional<size_t>& opt_hash);
+    bool already_exists(const std::optional<std::string>& opt_id);
 };
 
 }
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 197d68c..fd84f15 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -184,7 +184,7 @@ bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulabl
         if (!_is_running)
             return false;
 
-        if (already_exists(st.hash()))
+        if (already_exists(st.id()))
             return false;
 
         _tasks.emplace(std::move(timepoint), std::move(st));
@@ -235,26 +235,18 @@ void task_scheduler::update_tasks()
 
 auto task_scheduler::get_task_iterator(const std::string& task_id) -> decltype(_tasks)::iterator
 {
-    return std::find_if(_tasks.begin(), _tasks.end(), [hash = _hasher(task_id)](auto&& it) {
-        if (it.second.hash().has_value())
-        {
-            return hash == it.second.hash().value();
-        }
-        return false;
+    return std::find_if(_tasks.begin(), _tasks.end(), [&task_id](auto&& it) {
+        return it.second.id() == task_id;
     });
 }
 
-bool task_scheduler::already_exists(const std::optional<size_t>& opt_hash)
+bool task_scheduler::already_exists(const std::optional<std::string>& opt_id)
 {
-    if (!opt_hash.has_value())
+    if (!opt_id.has_value())
         return false;
 
-    return std::any_of(_tasks.begin(), _tasks.end(), [hash = opt_hash.value()](auto&& it) {
-        if (it.second.hash().has_value())
-        {
-            return hash == it.second.hash().value();
-        }
-        return false;
+    return std::any_of(_tasks.begin(), _tasks.end(), [&opt_id](auto&& it) {
+        return it.second.id() == opt_id;
     });
 }
 
-- 
2.43.0


From 2e0abc538c553204d2d5466d63f0984d2b2adb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:51 +0000
Subject: [PATCH 24/40] fix: thread_pool::start that cannot create its threads
 leaves the pool stopped

---
 sdk/src/thread_pool.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/sdk/src/thread_pool.cpp b/sdk/src/thread_pool.cpp
index 25de6ad..98e7901 100644
--- a/sdk/src/thread_pool.cpp
+++ b/sdk/src/thread_pool.cpp
@@ -35,16 +35,32 @@ bool thread_pool::start(const unsigned int num_threads)
     if (_is_running)
         return false;
 
-    _is_running = true;
-
     const auto thread_count = std::clamp(num_threads, 1u, std::thread::hardware_concurrency());
     _threads.reserve(thread_count);
-    _threads_count = thread_count;
     is_ready = std::make_shared<std::latch>(thread_count + 1);
 
-    for (unsigned int i = 0; i < thread_count; ++i)
+    _is_running = true;
+    _threads_count = thread_count;
+
+    try
     {
-        _threads.emplace_back([this] { worker(); });
+        for (unsigned int i = 0; i < thread_count; ++i)
+        {
+            _threads.emplace_back([this] { worker(); });
+        }
+    }
+    catch (...)
+    {
+        // Release the workers that have been created from the latch, in a pool that is not running.
+        _is_running = false;
+        is_ready->count_down(static_cast<std::ptrdiff_t>(thread_count + 1 - _threads.size()));
+
+        for (auto&& t : _threads)
+            t.join();
+
+        _threads.clear();
+        _threads_count = 0;
+        throw;
     }
 
     is_ready->arrive_and_wait();
-- 
2.43.0


From 398524cfa5a288d6eb3cccd927e3a5c0e70b2b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 25/40] fix: thread_pool::stop needs no memory

---
 sdk/src/thread_pool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/src/thread_pool.cpp b/sdk/src/thread_pool.cpp
index 98e7901..560c4f5 100644
--- a/sdk/src/thread_pool.cpp
+++ b/sdk/src/thread_pool.cpp
@@ -77,7 +77,8 @@ bool thread_pool::stop()
 
     {
         std::scoped_lock lock(_task_mutex);
-        _task_queue = {};
+        while (!_task_queue.empty())
+            _task_queue.pop();
     }
 
     _task_cv.notify_all();
-- 
2.43.0


From d4d458a0c8e0b784e140296d33f54c04e242879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:37 +0000
Subject: [PATCH 26/40] fix: event_dispatcher::add_handler that fails leaves no
 event without handlers

---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 2d5a5fd..fdf5bf2 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -121,8 +121,15 @@ public:
         const auto event_handler_id = get_event_handler_id<Args...>(std::move(event_name));
 
         std::unique_lock handlers_lock(_handlers_mutex);
-        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<std::decay_t<Args>...>>(++_handler_id, std::move(handler)));
-        return _handler_id;
+        std::shared_ptr<base_handler_t> new_handler = std::make_unique<handler_t<std::decay_t<Args>...>>(_handler_id + 1, std::move(handler));
+
+        // An event is in _handlers only as long as it has at least one handler.
+        if (auto it = _handlers.find(event_handler_id); it != _handlers.end())
+            it->second.emplace_back(std::move(new_handler));
+        else
+            _handlers.emplace(event_handler_id, std::vector{std::move(new_handler)});
+
+        return ++_handler_id;
     }
 
     /*!
-- 
2.43.0


From 523ff9a960a8b41897cdaafd0fe87fcf8ee687c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 27/40] fix: task_scheduler::start that cannot create its
 thread leaves the scheduler stopped

---
 sdk/src/task_scheduler.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index fd84f15..a01f7e2 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -31,6 +31,9 @@ task_scheduler::~task_scheduler()
 bool task_scheduler::start(const unsigned int num_threads)
 {
     std::scoped_lock running_lock(_running_mtx);
+    std::promise<void> thread_started_notifier;
+    std::future<void> thread_started_watcher = thread_started_notifier.get_future();
+
     if (!_tp.start(num_threads))
         return false;
 
@@ -39,10 +42,7 @@ bool task_scheduler::start(const unsigned int num_threads)
         _is_running = true;
     }
 
-    std::promise<void> thread_started_notifier;
-    std::future<void> thread_started_watcher = thread_started_notifier.get_future();
-
-    _scheduler_thread = std::thread([this, &thread_started_notifier] {
+    auto scheduler_loop = [this, &thread_started_notifier] {
         thread_started_notifier.set_value();
 
         std::unique_lock lock(_update_tasks_mtx);
@@ -68,7 +68,23 @@ bool task_scheduler::start(const unsigned int num_threads)
 
             update_tasks();
         }
-    });
+    };
+
+    try
+    {
+        _scheduler_thread = std::thread(scheduler_loop);
+    }
+    catch (...)
+    {
+        {
+            std::scoped_lock lock(_update_tasks_mtx);
+            _is_running = false;
+            _tasks.clear();
+        }
+
+        _tp.stop();
+        throw;
+    }
 
     thread_started_watcher.wait();
 
-- 
2.43.0


From a9e2317d7ab0c4fd218f03e0866c2a9b7e59888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:08 +0000
Subject: [PATCH 28/40] fix: task_scheduler::update_interval changes nothing
 when it fails

---
 sdk/src/task_scheduler.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index a01f7e2..ef4c4e4 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -181,9 +181,10 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
         while (now > task_next_start_time)
             task_next_start_time += interval;
 
-        task_iterator->second.set_interval(interval);
-        _tasks.emplace(std::move(task_next_start_time), std::move(task_iterator->second));
-        _tasks.erase(task_iterator);
+        auto task_node = _tasks.extract(task_iterator);
+        task_node.key() = task_next_start_time;
+        task_node.mapped().set_interval(interval);
+        _tasks.insert(std::move(task_node));
         lock.unlock();
 
         _update_tasks_cv.notify_one();
-- 
2.43.0


From 5e748199bf4c8fba8d50c2cdd02ff5c734454aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:36 +0000
Subject: [PATCH 29/40] fix: delays and intervals too long for the clock never
 elapse

---
 sdk/include/teiacare/sdk/clock.hpp          | 14 ++++++++++++++
 sdk/include/teiacare/sdk/task_scheduler.hpp |  8 ++++----
 sdk/src/high_precision_timer.cpp            |  6 +++---
 sdk/src/task_scheduler.cpp                  |  6 +++---
 4 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/sdk/include/teiacare/sdk/clock.hpp b/sdk/include/teiacare/sdk/clock.hpp
index ab21bbb..e5ef490 100644
--- a/sdk/include/teiacare/sdk/clock.hpp
+++ b/sdk/include/teiacare/sdk/clock.hpp
@@ -34,6 +34,20 @@ using time_duration = std::chrono::steady_clock::duration;
  */
 using sys_time_point = std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>;
 
+/*!
+ * \brief Get the time point that follows another one by a given duration
+ * \param from initial time point
+ * \param elapsed duration
+ * \return from + elapsed, or the last time point of the clock if it cannot represent the sum
+ */
+constexpr time_point time_after(time_point from, time_duration elapsed) noexcept
+{
+    if (from > time_point() && elapsed > time_point::max() - from)
+        return time_point::max();
+
+    return from + elapsed;
+}
+
 /**
  * @cond SKIP_DOXYGEN
  */
diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index a554ce5..9ffd6a3 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -328,7 +328,7 @@ public:
         -> std::optional<std::future<std::invoke_result_t<TaskFunction>>>
     {
         return at(
-            std::forward<tc::sdk::clock::time_point>(tc::sdk::clock::now() + delay),
+            tc::sdk::time_after(tc::sdk::clock::now(), delay),
             std::forward<TaskFunction>(func));
     }
 
@@ -342,7 +342,7 @@ public:
         -> std::optional<std::future<std::invoke_result_t<TaskFunction, Args...>>>
     {
         return at(
-            std::forward<tc::sdk::clock::time_point>(tc::sdk::clock::now() + delay),
+            tc::sdk::time_after(tc::sdk::clock::now(), delay),
             std::forward<TaskFunction>(func),
             std::forward<Args>(args)...);
     }
@@ -358,7 +358,7 @@ public:
     {
         return at(
             std::forward<std::string>(task_id),
-            std::forward<tc::sdk::clock::time_point>(tc::sdk::clock::now() + delay),
+            tc::sdk::time_after(tc::sdk::clock::now(), delay),
             std::forward<TaskFunction>(func),
             std::forward<Args>(args)...);
     }
@@ -420,7 +420,7 @@ public:
             return std::apply(t, params);
         };
 
-        return add_task(tc::sdk::clock::now() + delay, schedulable_task(std::move(task), task_id, interval));
+        return add_task(tc::sdk::time_after(tc::sdk::clock::now(), delay), schedulable_task(std::move(task), task_id, interval));
     }
 
 private:
diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index f464752..a89bc31 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -43,7 +43,7 @@ bool high_precision_timer::start(clock::duration&& interval)
     _invoked_callback_count = 0;
     _missed_callback_count = 0;
 
-    _next_task_timepoint = clock::now() + interval;
+    _next_task_timepoint = time_after(clock::now(), interval);
     _interval = interval;
 
     std::promise<void> thread_started_notifier;
@@ -109,10 +109,10 @@ void high_precision_timer::update_next_start_time()
 {
     const auto now = clock::now();
 
-    _next_task_timepoint += _interval;
+    _next_task_timepoint = time_after(_next_task_timepoint, _interval);
     while (now > _next_task_timepoint)
     {
-        _next_task_timepoint += _interval;
+        _next_task_timepoint = time_after(_next_task_timepoint, _interval);
         ++_missed_callback_count;
     }
 }
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index ef4c4e4..77dd4bc 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -179,7 +179,7 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
 
         const auto now = tc::sdk::clock::now();
         while (now > task_next_start_time)
-            task_next_start_time += interval;
+            task_next_start_time = tc::sdk::time_after(task_next_start_time, interval);
 
         auto task_node = _tasks.extract(task_iterator);
         task_node.key() = task_next_start_time;
@@ -234,10 +234,10 @@ void task_scheduler::update_tasks()
             // Increment next_start_time starting from current start_time with a step equal to t->interval().value()
             // in order to keep the scheduling with a fixed sample rate.
             const auto task_interval = it->second.interval().value();
-            auto task_next_start_time = it->first + task_interval;
+            auto task_next_start_time = tc::sdk::time_after(it->first, task_interval);
             const auto now = tc::sdk::clock::now();
             while (now > task_next_start_time)
-                task_next_start_time += task_interval;
+                task_next_start_time = tc::sdk::time_after(task_next_start_time, task_interval);
 
             recursive_tasks.emplace(std::move(task_next_start_time), std::move(it->second));
         }
-- 
2.43.0


From d5a76786c9a9efc037366797a96417269db82174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:53 +0000
Subject: [PATCH 30/40] fix: task_scheduler::update_interval never makes an
 executed due time due again

---
 sdk/src/task_scheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 77dd4bc..66ed48e 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -178,7 +178,7 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
         auto task_next_start_time = task_iterator->first - task_interval;
 
         const auto now = tc::sdk::clock::now();
-        while (now > task_next_start_time)
+        while (now >= task_next_start_time)
             task_next_start_time = tc::sdk::time_after(task_next_start_time, interval);
 
         auto task_node = _tasks.extract(task_iterator);
-- 
2.43.0


From bcdb46a14793f4c5dc37730de59200b03444cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:49 +0000
Subject: [PATCH 31/40] fix: uuid_generator is seeded with more than 32 random
 bits

---
 sdk/src/uuid_generator.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sdk/src/uuid_generator.cpp b/sdk/src/uuid_generator.cpp
index ee25dce..a505726 100644
--- a/sdk/src/uuid_generator.cpp
+++ b/sdk/src/uuid_generator.cpp
@@ -14,6 +14,9 @@
 
 #include <teiacare/sdk/uuid_generator.hpp>
 
+#include <algorithm>
+#include <array>
+#include <functional>
 #include <limits>
 #include <mutex>
 #include <random>
@@ -23,11 +26,22 @@ namespace tc::sdk
 {
 namespace
 {
+// The random bits of a uuid are as many as those of the seed, at most: a single word would make uuids of different processes collide.
+std::mt19937 make_generator()
+{
+    std::random_device device;
+    std::array<std::random_device::result_type, 8> words{};
+    std::generate(words.begin(), words.end(), std::ref(device));
+
+    std::seed_seq seed(words.begin(), words.end());
+    return std::mt19937(seed);
+}
+
 // One source of randomness for the whole process: a copied generator must not repeat the uuids of the original one.
 struct random_source
 {
     std::mutex mutex;
-    std::mt19937 generator{std::random_device()()};
+    std::mt19937 generator{make_generator()};
     std::uniform_int_distribution<uint32_t> distribution{std::numeric_limits<uint32_t>::min(), std::numeric_limits<uint32_t>::max()};
 
     static random_source& instance()
-- 
2.43.0


From 7db4ba029400a355476f0d30d7a3966297b5528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:46 +0000
Subject: [PATCH 32/40] fix: intervals that are not positive are refused
 instead of looping forever

---
 sdk/src/high_precision_timer.cpp | 3 +++
 sdk/src/task_scheduler.cpp       | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index a89bc31..17a9113 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -32,6 +32,9 @@ high_precision_timer::~high_precision_timer()
 
 bool high_precision_timer::start(clock::duration&& interval)
 {
+    if (interval <= clock::duration::zero())
+        return false;
+
     {
         std::unique_lock<std::mutex> lock(_worker_mutex);
         if (!_task)
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 66ed48e..b872006 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -171,6 +171,9 @@ std::optional<sdk::clock::duration> task_scheduler::get_interval(const std::stri
 
 bool task_scheduler::update_interval(const std::string& task_id, interval_t interval)
 {
+    if (interval <= interval_t::zero())
+        return false;
+
     std::unique_lock lock(_update_tasks_mtx);
     if (auto task_iterator = get_task_iterator(task_id); task_iterator != _tasks.end() && task_iterator->second.interval().has_value())
     {
@@ -196,6 +199,10 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
 
 bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st)
 {
+    // A task that is due again without any time passing would keep the scheduler thread busy forever.
+    if (st.interval().has_value() && st.interval().value() <= interval_t::zero())
+        return false;
+
     {
         std::scoped_lock lock(_update_tasks_mtx);
         if (!_is_running)
-- 
2.43.0


From 2f77d3d3704e08b82195a8e805746ceff7ee3b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 33/40] fix: timedelta text does not depend on the global
 locale

With a global locale that groups digits, to_string() printed 1.234:00:00.123.456 for 1234 hours.
---
 sdk/src/datetime/timedelta.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/src/datetime/timedelta.cpp b/sdk/src/datetime/timedelta.cpp
index 913a611..fc7d08a 100644
--- a/sdk/src/datetime/timedelta.cpp
+++ b/sdk/src/datetime/timedelta.cpp
@@ -14,6 +14,7 @@
 
 #include <teiacare/sdk/datetime/timedelta.hpp>
 
+#include <locale>
 #include <sstream>
 
 namespace tc::sdk
@@ -29,6 +30,7 @@ std::string timedelta::to_string() const noexcept(false)
     constexpr const char zero = '0';
     const auto hms = std::chrono::hh_mm_ss(std::chrono::duration_cast<DurationT>(_duration));
     std::stringstream os{};
+    os.imbue(std::locale::classic());
 
     if (hms.is_negative())
         os << '-';
-- 
2.43.0


From e2440cf001abc8368babf269beb223f0d99aeb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 34/40] fix: argument values are converted independently of the
 global locale

With a global locale that groups digits, 1.234 was accepted as 1234 for all integer types but int.
---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index c7cb6de..d91dc73 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -270,6 +270,7 @@ protected:
     {
         T value;
         std::istringstream iss(str);
+        iss.imbue(std::locale::classic());
 
         if (!(iss >> value) || iss.peek() != std::istringstream::traits_type::eof())
         {
-- 
2.43.0


From 539ee107fa6047c5f4f3f54e91c05ef659350bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:55 +0000
Subject: [PATCH 35/40] fix: a high_precision_timer does not step through every
 tick it has missed

With an interval shorter than a look at the clock takes, or after a long
suspension, the loop over the missed ticks took arbitrarily long or never
ended, and stop() hung.
---
 sdk/include/teiacare/sdk/clock.hpp | 20 ++++++++++++++++++++
 sdk/src/high_precision_timer.cpp   |  9 +++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/sdk/include/teiacare/sdk/clock.hpp b/sdk/include/teiacare/sdk/clock.hpp
index e5ef490..57090e9 100644
--- a/sdk/include/teiacare/sdk/clock.hpp
+++ b/sdk/include/teiacare/sdk/clock.hpp
@@ -15,6 +15,7 @@
 #pragma once
 
 #include <chrono>
+#include <cstdint>
 
 namespace tc::sdk
 {
@@ -48,6 +49,25 @@ constexpr time_point time_after(time_point from, time_duration elapsed) noexcept
     return from + elapsed;
 }
 
+/*!
+ * \brief Get the first time point of a grid that is not before another time point
+ * \param first first time point of the grid
+ * \param step distance between two time points of the grid, it must be positive
+ * \param not_before time point to look for
+ * \return the first one of first, first + step, first + 2 * step, ... that is not before not_before,
+ *         or the last time point of the clock if it cannot represent it
+ */
+constexpr time_point time_on_grid(time_point first, time_duration step, time_point not_before) noexcept
+{
+    if (not_before <= first)
+        return first;
+
+    // The distance between two time points can be longer than the longest time_duration.
+    const auto distance = static_cast<uint64_t>(not_before.time_since_epoch().count()) - static_cast<uint64_t>(first.time_since_epoch().count());
+    const auto late = distance % static_cast<uint64_t>(step.count());
+    return late == 0 ? not_before : time_after(not_before, step - time_duration(late));
+}
+
 /**
  * @cond SKIP_DOXYGEN
  */
diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index 17a9113..3de2afd 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -112,12 +112,9 @@ void high_precision_timer::update_next_start_time()
 {
     const auto now = clock::now();
 
-    _next_task_timepoint = time_after(_next_task_timepoint, _interval);
-    while (now > _next_task_timepoint)
-    {
-        _next_task_timepoint = time_after(_next_task_timepoint, _interval);
-        ++_missed_callback_count;
-    }
+    const auto missed_timepoint = time_after(_next_task_timepoint, _interval);
+    _next_task_timepoint = time_on_grid(missed_timepoint, _interval, now);
+    _missed_callback_count += static_cast<uint64_t>((_next_task_timepoint - missed_timepoint) / _interval);
 }
 
 }
-- 
2.43.0


From 4b5aa625217e990c1064bcbfed3a6741301bad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:55 +0000
Subject: [PATCH 36/40] fix: task_scheduler does not step through every due
 time it has skipped

update_interval() with a short interval for a task whose first due time is far
away, or a long suspension, kept the scheduler locked for as long as it took to
step through all the due times in between.
---
 sdk/src/task_scheduler.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index b872006..1765c67 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -181,8 +181,7 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
         auto task_next_start_time = task_iterator->first - task_interval;
 
         const auto now = tc::sdk::clock::now();
-        while (now >= task_next_start_time)
-            task_next_start_time = tc::sdk::time_after(task_next_start_time, interval);
+        task_next_start_time = tc::sdk::time_on_grid(task_next_start_time, interval, now + interval_t(1));
 
         auto task_node = _tasks.extract(task_iterator);
         task_node.key() = task_next_start_time;
@@ -243,8 +242,7 @@ void task_scheduler::update_tasks()
             const auto task_interval = it->second.interval().value();
             auto task_next_start_time = tc::sdk::time_after(it->first, task_interval);
             const auto now = tc::sdk::clock::now();
-            while (now > task_next_start_time)
-                task_next_start_time = tc::sdk::time_after(task_next_start_time, task_interval);
+            task_next_start_time = tc::sdk::time_on_grid(task_next_start_time, task_interval, now);
 
             recursive_tasks.emplace(std::move(task_next_start_time), std::move(it->second));
         }
-- 
2.43.0


From 40f7cf09fa9448ab913bb5a0fbbfe207f0e12365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:23 +0000
Subject: [PATCH 37/40] fix: printing the help leaves the format flags of
 std::cout as they were

---
 sdk/src/argparse/argument_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index 7be92a4..f7971ae 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -195,6 +195,7 @@ void argument_parser::print_arguments() const
     constexpr const char* pad = "    ";
     constexpr int item_width = 30;
 
+    const std::ios_base::fmtflags flags = std::cout.flags();
     std::cout << std::left;
     std::cout << "\nOptions: \n";
 
@@ -247,6 +248,7 @@ void argument_parser::print_arguments() const
     }
 
     std::cout << std::endl;
+    std::cout.flags(flags);
 }
 
 tc::sdk::argument_base* argument_parser::find_argument(std::string_view name, const std::vector<std::unique_ptr<tc::sdk::argument_base>>& args) const
-- 
2.43.0


From 19d89352ded78b491d1f01ec0e77ea355d3691bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:23 +0000
Subject: [PATCH 38/40] fix: writing std::chrono calendar types leaves the
 stream's settings as they were

---
 .../teiacare/sdk/datetime/timedelta.hpp       | 65 +++++++++++--------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/sdk/include/teiacare/sdk/datetime/timedelta.hpp b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
index 7668184..5adb8f2 100644
--- a/sdk/include/teiacare/sdk/datetime/timedelta.hpp
+++ b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
@@ -15,7 +15,9 @@
 #pragma once
 
 #include <chrono>
+#include <locale>
 #include <ostream>
+#include <sstream>
 #include <stdexcept>
 
 namespace tc::sdk
@@ -318,58 +320,65 @@ private:
 
 }
 
+// The texts are composed on a stream of their own: the settings of the given one are neither used nor changed.
 inline std::ostream& operator<<(std::ostream& os, const std::chrono::year_month_day& ymd)
 {
-    os.fill('0');
-    os.flags(std::ios::dec | std::ios::right);
-    os.imbue(std::locale::classic());
-    os << static_cast<int>(ymd.year()) << '-';
-    os.width(2);
-    os << static_cast<unsigned>(ymd.month()) << '-';
-    os.width(2);
-    os << static_cast<unsigned>(ymd.day());
+    std::ostringstream text;
+    text.fill('0');
+    text.flags(std::ios::dec | std::ios::right);
+    text.imbue(std::locale::classic());
+    text << static_cast<int>(ymd.year()) << '-';
+    text.width(2);
+    text << static_cast<unsigned>(ymd.month()) << '-';
+    text.width(2);
+    text << static_cast<unsigned>(ymd.day());
 
     if (!ymd.ok())
-        os << " is not a valid year_month_day";
+        text << " is not a valid year_month_day";
 
-    return os;
+    return os << text.str();
 }
 
 inline std::ostream& operator<<(std::ostream& os, const std::chrono::year& y)
 {
-    os.fill('0');
-    os.flags(std::ios::dec | std::ios::internal);
-    os.width(4 + (y < std::chrono::year{0}));
-    os.imbue(std::locale::classic());
-    os << static_cast<int>(y);
+    std::ostringstream text;
+    text.fill('0');
+    text.flags(std::ios::dec | std::ios::internal);
+    text.width(4 + (y < std::chrono::year{0}));
+    text.imbue(std::locale::classic());
+    text << static_cast<int>(y);
 
     if (!y.ok())
-        os << " is not a valid year";
+        text << " is not a valid year";
 
-    return os;
+    return os << text.str();
 }
 
 inline std::ostream& operator<<(std::ostream& os, const std::chrono::month& m)
 {
+    std::ostringstream text;
+    text.imbue(std::locale::classic());
+    text << static_cast<unsigned>(m);
+
     if (!m.ok())
-        os << static_cast<unsigned>(m) << " is not a valid month";
-    else
-        os << static_cast<unsigned>(m);
-    return os;
+        text << " is not a valid month";
+
+    return os << text.str();
 }
 
 inline std::ostream& operator<<(std::ostream& os, const std::chrono::day& d)
 {
-    os.fill('0');
-    os.flags(std::ios::dec | std::ios::internal);
-    os.width(2 + (d < std::chrono::day{0}));
-    os.imbue(std::locale::classic());
-    os << static_cast<unsigned>(d);
+    std::ostringstream text;
+    text.fill('0');
+    text.flags(std::ios::dec | std::ios::internal);
+    text.width(2 + (d < std::chrono::day{0}));
+    text.imbue(std::locale::classic());
+    text << static_cast<unsigned>(d);
 
     if (!d.ok())
-        os << " is not a valid day";
+        text << " is not a valid day";
 
-    return os;
+    return os << text.str();
 }
 
 #if defined(__apple_build_version__)
-- 
2.43.0


From e1e73b506126b3daedbdcf869beb3b30fceecf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:18 +0000
Subject: [PATCH 39/40] fix: rectangles that are apart have no intersection,
 whatever the distance

The gap between two rectangles was computed and tested for being negative,
which it never is for unsigned coordinates and which overflows for signed
ones that are far apart: the result was a huge rectangle.
---
 sdk/include/teiacare/sdk/geometry/rectangle.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sdk/include/teiacare/sdk/geometry/rectangle.hpp b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
index 5886111..3612331 100644
--- a/sdk/include/teiacare/sdk/geometry/rectangle.hpp
+++ b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
@@ -299,14 +299,18 @@ public:
         auto intersection_x = tc::sdk::max(_position.x(), other._position.x());
         auto intersection_y = tc::sdk::max(_position.y(), other._position.y());
 
-        auto intersection_width = tc::sdk::min(_position.x() + _width, other._position.x() + other._width) - intersection_x;
-        if (intersection_width < T())
+        auto intersection_end_x = tc::sdk::min(_position.x() + _width, other._position.x() + other._width);
+        if (intersection_end_x < intersection_x)
             return tc::sdk::rectangle<T>{};
 
-        auto intersection_height = tc::sdk::min(_position.y() + _height, other._position.y() + other._height) - intersection_y;
-        if (intersection_height < T())
+        auto intersection_width = intersection_end_x - intersection_x;
+
+        auto intersection_end_y = tc::sdk::min(_position.y() + _height, other._position.y() + other._height);
+        if (intersection_end_y < intersection_y)
             return tc::sdk::rectangle<T>{};
 
+        auto intersection_height = intersection_end_y - intersection_y;
+
         tc::sdk::point<T> intersection_position(intersection_x, intersection_y);
         return tc::sdk::rectangle<T>(intersection_position, intersection_width, intersection_height);
     }
-- 
2.43.0


From 7ea3ab44865ee0c6d99e26721850f9f16a9f637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:12 +0000
Subject: [PATCH 40/40] fix: range::map works for limits whose distance the
 type does not have

The distance was computed in the type of the limits, where it overflows for
signed integers (undefined) and for floating limits far apart.
---
 sdk/include/teiacare/sdk/geometry/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/geometry/range.hpp b/sdk/include/teiacare/sdk/geometry/range.hpp
index 2e3270d..8fdafd8 100644
--- a/sdk/include/teiacare/sdk/geometry/range.hpp
+++ b/sdk/include/teiacare/sdk/geometry/range.hpp
@@ -192,7 +192,7 @@ public:
     constexpr inline double map(double value) const
     {
         // static_assert(value >= T(0) && value <= T(1));
-        return _min + value * (_max - _min);
+        return static_cast<double>(_min) + value * (static_cast<double>(_max) - static_cast<double>(_min));
     }
 
     /*!
-- 
2.43.0

