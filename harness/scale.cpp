// Large numbers: the guarantees of C01, C04 .. C09, C11 .. C14 and C16 for counts that the random small plans of the other
// harnesses never reach (full queues of tens of thousands of items, thousands of timers, ids beyond 16 bits, ...).
// Mostly one submitting thread, so that the exact outcome is known without a search; the schedule is still controlled.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>

#include <algorithm>
#include <atomic>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace
{
using ns = std::chrono::nanoseconds;
using tc::sdk::clock;
constexpr uint64_t US = 1'000, MS = 1'000'000, EPS = 20'000;

// a count on or around one of the usual limits, or of any magnitude
size_t pick_count(hx::rng& r, size_t max)
{
    static const std::vector<size_t> edges{16, 32, 64, 100, 127, 128, 255, 256, 500, 512, 1000, 1023, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 20000, 32767, 32768, 50000, 65535, 65536, 100000};
    size_t n = max;
    switch (r.below(4))
    {
    case 0: n = max - r.below(std::max<size_t>(1, max / 10)); break;
    case 1:
    {
        size_t lim = 0;
        while (lim < edges.size() && edges[lim] + 2 <= max)
            ++lim;
        if (lim)
            n = (size_t)((int64_t)edges[r.below(lim)] + r.in(-2, 2));
        break;
    }
    default:
    {
        int bits = 1;
        while ((size_t)1 << bits <= max)
            ++bits;
        n = r.below((size_t)1 << r.in(4, bits));
    }
    }
    return std::clamp<size_t>(n, 10, max);
}

ds::config quiet(uint64_t seed, hx::rng& r)
{
    ds::config cfg = ds::random_config(seed);
    cfg.policy = ds::POL_STICKY;
    cfg.switch_permille = r.pick({0, 1, 5, 20});
    cfg.spurious_permille = 0;
    cfg.timejump_permille = 0;
    cfg.max_steps = 60'000'000;
    return cfg;
}

// ------------------------------------------------------------------------------------------------- C01
template <typename T>
struct make;
template <>
struct make<int>
{
    static int of(size_t i) { return (int)i; }
};
template <>
struct make<std::string>
{
    static std::string of(size_t i) { return "item number " + std::to_string(i); }
};

template <typename T>
void queue_run(hx::rng& r, size_t cap)
{
    tc::sdk::blocking_queue<T> q(cap);
    const bool bounded = cap <= 70000;
    if (q.capacity() != cap)
        hx::fail("capacity", hx::cat("capacity() of a queue made for ", cap, " items is ", q.capacity()));
    size_t in = 0, out = 0;
    auto fill = [&](size_t n) {
        for (size_t i = 0; i < n; ++i)
        {
            const bool room = in - out < cap;
            if (room && i % 3 == 2)
                q.push(make<T>::of(in)), ++in;
            else
            {
                const bool ok = q.try_push(make<T>::of(in));
                if (ok != room)
                    hx::fail("try_push", hx::cat("try_push on a queue of ", in - out, " items and capacity ", cap, " returned ", ok));
                in += ok;
            }
            if ((i & 63) == 0 && q.size() != in - out)
                hx::fail("size", hx::cat("size() is ", q.size(), " with ", in - out, " items in the queue"));
        }
        if (q.size() != in - out)
            hx::fail("size", hx::cat("size() is ", q.size(), " with ", in - out, " items in the queue"));
    };
    auto drain = [&](size_t n) {
        for (size_t i = 0; i < n; ++i)
        {
            if (in == out)
            {
                if (q.try_pop().has_value())
                    hx::fail("try_pop", "try_pop on an empty queue returned an item");
                break;
            }
            std::optional<T> v;
            if (i % 3 == 2)
                v = q.pop();
            else
                v = q.try_pop();
            if (!v || *v != make<T>::of(out))
                hx::fail("order", hx::cat("item ", out, " of ", in, " was popped as ", v ? hx::cat(*v) : std::string("nothing"), " (capacity ", cap, ")"));
            ++out;
        }
        if (q.size() != in - out)
            hx::fail("size", hx::cat("size() is ", q.size(), " with ", in - out, " items in the queue"));
    };
    const size_t lot = bounded ? cap + 2 : 70000;
    for (int round = (int)r.in(1, 3); round-- > 0;)
    {
        fill(lot);
        drain(r.below(lot));
        fill(r.below(lot));
        drain(lot + 1);
    }
    // a full queue and somebody who waits for room, an empty one and somebody who waits for an item
    if (bounded && r.chance(60))
    {
        fill(lot);
        std::thread waiting([&] { q.push(make<T>::of(in)); });
        ds::wait_quiescent(false);
        if (q.size() != cap)
            hx::fail("size", hx::cat("size() of a full queue of capacity ", cap, " is ", q.size()));
        const auto v = q.try_pop();
        if (!v || *v != make<T>::of(out))
            hx::fail("order", hx::cat("item ", out, " was popped as ", v ? hx::cat(*v) : std::string("nothing")));
        ++out;
        waiting.join();
        ++in;
        hx::count("waits_for_room");
    }
    drain(in - out);
    if (r.chance(30))
    {
        std::thread waiting([&] {
            const T v = q.pop();
            if (v != make<T>::of(in))
                hx::fail("order", hx::cat("item ", in, " was popped as ", v));
        });
        ds::wait_quiescent(false);
        q.push(make<T>::of(in));
        waiting.join();
        ++in, ++out;
        hx::count("waits_for_an_item");
    }
    // two threads, blocking, through a queue that is mostly full or mostly empty
    const size_t total = std::min<size_t>(2 * lot, 40000), base = in;
    std::thread producer([&] {
        for (size_t i = 0; i < total; ++i)
            q.push(make<T>::of(base + i));
    });
    for (size_t i = 0; i < total; ++i)
    {
        const T v = q.pop();
        if (v != make<T>::of(base + i))
            hx::fail("order", hx::cat("item ", i, " of ", total, " was popped as ", v));
    }
    producer.join();
    if (q.size() != 0)
        hx::fail("size", hx::cat("size() of the emptied queue is ", q.size()));
    hx::count("items", in + total);
    hx::maxi("max_capacity", cap);
}

void queue_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = quiet(seed, r);
    const size_t cap = r.chance(15) ? r.pick<size_t>({(size_t)1 << 31, ((size_t)1 << 32) + 3, ~(size_t)0 - 1, ~(size_t)0}) : pick_count(r, 70000);
    const bool s = r.chance(30);
    ds::run(cfg, [&] {
        if (s)
            queue_run<std::string>(r, cap);
        else
            queue_run<int>(r, cap);
    });
    hx::state(hx::hash64(cap, s));
}

// ------------------------------------------------------------------------------------------------- C04, C05
void pool_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = quiet(seed, r);
    cfg.nprocs = 8;
    const unsigned workers = (unsigned)r.in(1, 4);
    const size_t n = pick_count(r, 70000);
    const bool gated = r.chance(70); // nothing runs before everything has been submitted: the queue really gets that long
    ds::run(cfg, [&] {
        std::vector<int> begun_at(n, -1), done(n, 0);
        std::atomic<int> begun{0};
        std::promise<void> gate;
        std::shared_future<void> open = gate.get_future().share();
        std::vector<std::future<size_t>> fs;
        fs.reserve(n);
        tc::sdk::thread_pool tp;
        if (!tp.start(workers) || tp.threads_count() != workers)
            hx::fail("start", "start failed or gave another number of threads");
        if (gated)
            for (unsigned w = 0; w < workers; ++w)
                tp.run([open] { open.wait(); });
        for (size_t i = 0; i < n; ++i)
            fs.push_back(tp.run([&, i](size_t a) {
                const int at = begun.fetch_add(1);
                begun_at[i] = at;
                ++done[i];
                return i * 3 + a;
            },
                                i % 7));
        gate.set_value();
        for (size_t i = 0; i < n; ++i)
        {
            const size_t v = fs[i].get();
            if (v != i * 3 + i % 7)
                hx::fail("value", hx::cat("the future of task ", i, " of ", n, " delivered ", v));
        }
        ds::wait_quiescent(true);
        for (size_t i = 0; i < n; ++i)
        {
            if (done[i] != 1)
                hx::fail("not-exactly-once", hx::cat("task ", i, " of ", n, " was executed ", done[i], " times"));
            // a task begun as number p (from 0) was overtaken by p - i tasks at least if p > i; it overtook i - p if p < i
            const long d = (long)begun_at[i] - (long)i;
            if (d >= (long)workers * 1 && workers == 1)
                hx::fail("order", hx::cat("one worker began task ", i, " of ", n, " as number ", begun_at[i]));
            if (workers == 1 && d != 0)
                hx::fail("order", hx::cat("one worker began task ", i, " of ", n, " as number ", begun_at[i]));
            if (-d >= (long)workers)
                hx::fail("order", hx::cat("task ", i, " of ", n, " was begun as number ", begun_at[i], " by ", workers, " workers: it overtook at least ", -d, " tasks"));
        }
        tp.stop();
        hx::count("tasks", n);
        hx::maxi("max_queued", gated ? n : 0);
    });
    hx::state(ds::trace_hash());
}

// ------------------------------------------------------------------------------------------------- C06
void poolstop_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = quiet(seed, r);
    cfg.nprocs = 8;
    ds::run(cfg, [&] {
        tc::sdk::thread_pool tp;
        uint64_t dropped = 0, executed = 0;
        const bool cycles = r.chance(40); // many short lives, or few with very much queued
        const int rounds = cycles ? (int)r.in(20, 100) : (int)r.in(1, 3);
        for (int k = 0; k < rounds; ++k)
        {
            const unsigned workers = cycles ? (unsigned)r.in(1, 2) : (unsigned)r.in(1, 4); // (one run has at most 256 threads)
            const size_t n = cycles ? r.below(6) : pick_count(r, 40000);
            if (tp.is_running() || tp.threads_count() != 0)
                hx::fail("state", "a stopped pool says it is running or has threads");
            if (!tp.start(workers) || tp.start(workers))
                hx::fail("start", hx::cat("start number ", k, " returned the wrong result"));
            if (!tp.is_running() || tp.threads_count() != workers)
                hx::fail("state", "a started pool says it is not running or has another number of threads");
            std::promise<void> gate;
            std::shared_future<void> open = gate.get_future().share();
            std::vector<std::future<int>> fs;
            auto alive = std::make_shared<int>(0);
            std::atomic<int> ran{0};
            if (!cycles)
            {
                std::atomic<unsigned> held{0};
                for (unsigned w = 0; w < workers; ++w)
                    tp.run([open, &held] { held.fetch_add(1); open.wait(); });
                ds::wait_quiescent(true);
                if (held.load() != workers)
                    hx::fail("stuck", "fewer tasks than workers are being executed although enough were submitted");
            }
            for (size_t i = 0; i < n; ++i)
                fs.push_back(tp.run([&ran, alive, i] { ran.fetch_add(1); return (int)i; }));
            bool stopped = false;
            if (cycles)
                stopped = tp.stop();
            else
            {
                std::thread stopper([&] { stopped = tp.stop(); });
                ds::wait_quiescent(false); // stop() waits for the tasks that are being executed
                gate.set_value();
                stopper.join();
            }
            if (!stopped || tp.stop())
                hx::fail("stop", "stop returned the wrong result");
            const int after = ran.load();
            size_t vals = 0;
            for (size_t i = 0; i < n; ++i)
            {
                if (fs[i].wait_for(std::chrono::seconds(0)) != std::future_status::ready)
                    hx::fail("future-never-settles", hx::cat("after stop() the future of task ", i, " of ", n, " is not ready"));
                try
                {
                    if (fs[i].get() != (int)i)
                        hx::fail("value", "a future delivered a wrong value");
                    ++vals;
                }
                catch (const std::future_error&)
                {
                    ++dropped;
                }
            }
            if (vals != (size_t)after)
                hx::fail("executed-vs-futures", hx::cat(after, " tasks were executed, but ", vals, " futures have values"));
            if (!cycles && after != 0)
                hx::fail("ran-while-stopping", hx::cat(after, " of ", n, " queued tasks were executed although all workers were busy until stop() had dropped them"));
            ds::wait_quiescent(true);
            if (ran.load() != after)
                hx::fail("ran-after-stop", "a task was executed after stop() had returned");
            fs.clear();
            if (alive.use_count() != 1)
                hx::fail("kept", hx::cat(alive.use_count() - 1, " task objects are still alive after stop()"));
            executed += (uint64_t)after;
        }
        hx::count("rounds", (uint64_t)rounds);
        hx::count("dropped", dropped);
        hx::count("executed", executed);
        hx::count(cycles ? "cycles" : "full_stops");
    });
    hx::state(ds::trace_hash());
}

// ------------------------------------------------------------------------------------------------- C07
void oneshot_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = quiet(seed, r);
    cfg.clock_tick = 0;
    cfg.nprocs = 8;
    const unsigned workers = (unsigned)r.in(1, 3);
    const size_t n = pick_count(r, r.chance(10) ? 20000 : 6000);
    const int ids = n <= 700 ? (int)r.in(0, 2) : 0; // none, some, all
    const int spread = (int)r.below(5);
    ds::run(cfg, [&] {
        tc::sdk::task_scheduler s;
        s.start(workers);
        const uint64_t t0 = ds::now();
        std::vector<uint64_t> due(n), began(n, 0);
        std::vector<int> runs(n, 0);
        std::vector<std::future<size_t>> fs;
        fs.reserve(n);
        for (size_t i = 0; i < n; ++i)
        {
            uint64_t d = 0;
            switch (spread)
            {
            case 0: d = 10 * MS; break;                             // all at the same instant
            case 1: d = MS + i * 10 * US; break;                    // in the order of submission
            case 2: d = MS + (n - i) * 10 * US; break;              // in reverse: each new one is the first
            case 3: d = MS + r.below(1000) * MS; break;             // anywhere, many equal
            default: d = r.below(3600) * 1000 * MS + r.below(MS);   // over an hour
            }
            due[i] = t0 + d;
            auto f = [&, i](size_t a) { began[i] = ds::now(); ++runs[i]; return i + a; };
            std::optional<std::future<size_t>> fut;
            const bool id = ids == 2 || (ids == 1 && i % 2);
            const auto tp = clock::time_point(ns((int64_t)due[i]));
            if (id)
                fut = s.at("task " + std::to_string(i), clock::time_point(tp), f, i);
            else if (i % 3 == 0)
                fut = s.in(ns((int64_t)(due[i] - ds::now())), f, i);
            else
                fut = s.at(clock::time_point(tp), f, i);
            if (!fut)
                hx::fail("refused", hx::cat("task ", i, " of ", n, " was refused by a running scheduler"));
            fs.push_back(std::move(*fut));
        }
        if (ds::now() != t0)
            hx::fail("harness", "time passed while scheduling");
        if (s.tasks_size() != n)
            hx::fail("tasks_size", hx::cat("tasks_size() is ", s.tasks_size(), " after scheduling ", n, " tasks"));
        ds::sleep_for(3'700'000 * MS);
        ds::wait_quiescent(true);
        for (size_t i = 0; i < n; ++i)
        {
            if (fs[i].wait_for(std::chrono::seconds(0)) != std::future_status::ready)
                hx::fail("future-never-settles", hx::cat("the future of task ", i, " of ", n, " is not ready: it was not executed"));
            if (fs[i].get() != 2 * i)
                hx::fail("value", hx::cat("the future of task ", i, " delivered a wrong value"));
        }
        for (size_t i = 0; i < n; ++i)
        {
            if (runs[i] != 1)
                hx::fail("not-exactly-once", hx::cat("task ", i, " of ", n, " was executed ", runs[i], " times"));
            if (began[i] < due[i])
                hx::fail("early", hx::cat("task ", i, " of ", n, " began ", due[i] - began[i], " ns before it was due"));
            if (began[i] > due[i] + EPS)
                hx::fail("late", hx::cat("task ", i, " of ", n, " began ", began[i] - due[i], " ns after it was due although nothing was being executed"));
        }
        if (s.tasks_size() != 0)
            hx::fail("tasks_size", hx::cat("tasks_size() is ", s.tasks_size(), " after all tasks were executed"));
        s.stop();
        hx::count("one_shots", n);
        hx::maxi("max_scheduled", n);
    });
    hx::state(ds::trace_hash());
}

// ------------------------------------------------------------------------------------------------- C08
void periodic_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = quiet(seed, r);
    cfg.clock_tick = 0;
    cfg.nprocs = 8;
    const bool many = r.chance(50);
    const size_t tasks = many ? pick_count(r, 600) : 1;
    const size_t total = many ? tasks * (size_t)r.in(2, 20) : pick_count(r, r.chance(10) ? 70000 : 8000);
    ds::run(cfg, [&] {
        tc::sdk::task_scheduler s;
        s.start((unsigned)r.in(1, 3));
        const uint64_t t0 = ds::now();
        struct per
        {
            uint64_t interval, first;
            std::vector<uint64_t> at;
        };
        std::vector<per> ps(tasks);
        const uint64_t base = r.pick<uint64_t>({US * 100, MS, 7 * MS, 1000 * MS, 3600000 * MS});
        for (size_t i = 0; i < tasks; ++i)
        {
            ps[i].interval = many ? base * (1 + i % 3) : base;
            ps[i].first = t0;
            auto f = [&, i] { ps[i].at.push_back(ds::now()); };
            bool ok;
            if (i % 2)
                ok = s.every(ns((int64_t)ps[i].interval), f);
            else
                ok = s.every("periodic " + std::to_string(i), ns((int64_t)ps[i].interval), f);
            if (!ok)
                hx::fail("refused", hx::cat("periodic task ", i, " of ", tasks, " was refused by a running scheduler"));
        }
        const uint64_t len = base * (total / tasks) + base / 2;
        ds::sleep_for(len);
        ds::wait_quiescent(false);
        const uint64_t end = ds::now();
        if (s.tasks_size() != tasks)
            hx::fail("tasks_size", hx::cat("tasks_size() is ", s.tasks_size(), " with ", tasks, " periodic tasks"));
        if (!s.stop())
            hx::fail("stop", "stop of a running scheduler returned false");
        uint64_t seen = 0;
        for (size_t i = 0; i < tasks; ++i)
        {
            const per& p = ps[i];
            const size_t expect = (end - p.first) / p.interval + 1;
            if (p.at.size() != expect)
                hx::fail("count", hx::cat("periodic task ", i, " of ", tasks, " with an interval of ", p.interval, " ns was executed ", p.at.size(), " times in ", end - t0, " ns, expected ", expect));
            for (size_t k = 0; k < p.at.size(); ++k)
                if (p.at[k] < p.first + k * p.interval || p.at[k] > p.first + k * p.interval + EPS)
                    hx::fail("off-grid", hx::cat("occurrence ", k, " of a task with an interval of ", p.interval, " ns began at +", p.at[k] - p.first, " ns, due at +", k * p.interval));
            seen += p.at.size();
        }
        hx::count("occurrences", seen);
        hx::maxi("max_tasks", tasks);
        hx::maxi("max_occurrences_of_one", many ? 0 : seen);
    });
    hx::state(ds::trace_hash());
}

// ------------------------------------------------------------------------------------------------- C09
void ids_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = quiet(seed, r);
    cfg.clock_tick = 0;
    cfg.nprocs = 4;
    const size_t n = pick_count(r, r.chance(10) ? 3000 : 700);
    const int style = (int)r.below(4);
    ds::run(cfg, [&] {
        auto name = [&](size_t i) {
            switch (style)
            {
            case 0: return std::to_string(i);
            case 1: return std::string(300, 'x') + std::to_string(i); // differ only far behind
            case 2: return std::string(i, 'a');                       // prefixes of one another, the empty one too
            default: return std::string("a\0b", 3) + std::to_string(i) + std::string(1, '\0');
            }
        };
        struct model
        {
            bool periodic, enabled;
            uint64_t interval, due;
            int runs = 0;
        };
        std::map<size_t, model> m;
        tc::sdk::task_scheduler s;
        s.start(2);
        const uint64_t t0 = ds::now();
        std::vector<int> runs(n, 0);
        for (size_t i = 0; i < n; ++i)
        {
            const bool per = r.chance(50);
            const uint64_t iv = (1 + r.below(5)) * 100 * MS, d = (1 + r.below(5)) * 100 * MS;
            const bool ok = per ? s.every(name(i), ns((int64_t)iv), ns((int64_t)d), [&runs, i] { ++runs[i]; }) : s.in(name(i), ns((int64_t)d), [&runs, i] { ++runs[i]; }).has_value();
            if (!ok)
                hx::fail("refused", hx::cat("a task with a new id was refused when ", i, " tasks were scheduled"));
            m[i] = {per, true, iv, t0 + d, 0};
        }
        for (size_t k = 0; k < std::min<size_t>(n, 200); ++k)
        {
            const size_t i = r.below(n + 5);
            const bool there = m.count(i);
            switch (r.below(7))
            {
            case 0:
                if (s.is_scheduled(name(i)) != there)
                    hx::fail("is_scheduled", hx::cat("is_scheduled of task ", i, " of ", n, " is wrong"));
                break;
            case 1:
                if (s.is_enabled(name(i)) != (there && m[i].enabled))
                    hx::fail("is_enabled", hx::cat("is_enabled of task ", i, " of ", n, " is wrong"));
                break;
            case 2:
            {
                const bool e = r.chance(50);
                if (s.set_enabled(name(i), e) != there)
                    hx::fail("set_enabled", hx::cat("set_enabled of task ", i, " of ", n, " returned the wrong result"));
                if (there)
                    m[i].enabled = e;
                break;
            }
            case 3:
            {
                const auto iv = s.get_interval(name(i));
                if (iv.has_value() != (there && m[i].periodic) || (iv && (uint64_t)iv->count() != m[i].interval))
                    hx::fail("get_interval", hx::cat("get_interval of task ", i, " of ", n, " is wrong"));
                break;
            }
            case 4:
                if (s.remove_task(name(i)) != there)
                    hx::fail("remove_task", hx::cat("remove_task of task ", i, " of ", n, " returned the wrong result"));
                m.erase(i);
                break;
            case 5:
                if (there && s.in(name(i), ns((int64_t)MS), [] {}).has_value())
                    hx::fail("duplicate", hx::cat("the id of task ", i, " of ", n, " was accepted a second time"));
                break;
            default:
                if (s.tasks_size() != m.size())
                    hx::fail("tasks_size", hx::cat("tasks_size() is ", s.tasks_size(), " instead of ", m.size()));
            }
            hx::count("calls");
        }
        if (ds::now() != t0)
            hx::fail("harness", "time passed");
        // all of them are exactly what the model says, then time passes
        for (size_t i = 0; i < n; ++i)
            if (s.is_scheduled(name(i)) != (m.count(i) == 1))
                hx::fail("is_scheduled", hx::cat("is_scheduled of task ", i, " of ", n, " is wrong"));
        const uint64_t end = t0 + 1050 * MS;
        ds::sleep_for(end - t0);
        ds::wait_quiescent(false);
        const size_t size = s.tasks_size();
        s.stop();
        size_t left = 0;
        for (size_t i = 0; i < n; ++i)
        {
            int expect = 0;
            if (auto it = m.find(i); it != m.end())
            {
                if (it->second.enabled)
                    expect = it->second.periodic ? (int)((end - it->second.due) / it->second.interval) + 1 : 1;
                left += it->second.periodic;
            }
            if (runs[i] != expect)
                hx::fail("executions", hx::cat("task ", i, " of ", n, " was executed ", runs[i], " times, expected ", expect));
        }
        if (size != left)
            hx::fail("tasks_size", hx::cat("tasks_size() is ", size, " instead of ", left));
        hx::maxi("max_ids", n);
        hx::count("tasks", n);
    });
    hx::state(hx::hash64(seed, n));
}

// ------------------------------------------------------------------------------------------------- C11, C12
void events_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = quiet(seed, r);
    cfg.nprocs = 4;
    const int kind = (int)r.below(4);
    ds::run(cfg, [&] {
        tc::sdk::event_dispatcher d;
        d.start(1);
        switch (kind)
        {
        case 0: // very many handlers of one event
        {
            const size_t n = pick_count(r, 20000);
            std::vector<int> calls(n, 0);
            std::vector<size_t> order;
            std::vector<unsigned long> ids(n);
            for (size_t i = 0; i < n; ++i)
            {
                ids[i] = d.add_handler<int, std::string>("event", [&, i](int a, std::string b) {
                    if (a != 42 || b != "forty-two")
                        hx::fail("arguments", hx::cat("handler ", i, " of ", n, " got other arguments"));
                    ++calls[i];
                    order.push_back(i);
                });
                if (ids[i] != i + 1)
                    hx::fail("id", hx::cat("handler number ", i + 1, " got the id ", ids[i]));
            }
            std::set<size_t> removed;
            for (int k = (int)r.below(60); k-- > 0;)
            {
                const size_t i = r.below(n);
                const bool there = removed.insert(i).second;
                if (d.remove_handler(ids[i]) != there)
                    hx::fail("remove_handler", hx::cat("remove_handler(", ids[i], ") of ", n, " handlers returned ", !there));
            }
            if (d.remove_handler(n + 1) || d.remove_handler(0))
                hx::fail("remove_handler", "an id that was never given was removed");
            if (d.emit<int, std::string>("event", 42, "forty-two") != (removed.size() < n))
                hx::fail("emit", hx::cat("emit to ", n - removed.size(), " registered handlers returned the wrong result"));
            ds::wait_quiescent(true);
            if (!d.stop())
                hx::fail("stop", "stop of a started dispatcher returned false");
            for (size_t i = 0; i < n; ++i)
                if (calls[i] != (removed.count(i) ? 0 : 1))
                    hx::fail("deliveries", hx::cat("handler ", i, " of ", n, removed.count(i) ? " (removed)" : "", " was called ", calls[i], " times"));
            if (!std::is_sorted(order.begin(), order.end()))
                hx::fail("order", hx::cat(n, " handlers of one event were not called in the order of their registration by one thread"));
            hx::count("handlers", n);
            hx::maxi("max_handlers", n);
            break;
        }
        case 1: // very many events
        {
            const size_t n = pick_count(r, 10000);
            std::vector<long> sum(n, 0);
            auto name = [&](size_t i) { return i % 2 ? "event " + std::to_string(i / 2) : std::to_string(i / 2); };
            for (size_t i = 0; i < n; ++i)
                if (d.add_handler<long>(name(i), [&, i](long v) { sum[i] += v; }) != i + 1)
                    hx::fail("id", hx::cat("handler number ", i + 1, " got another id"));
            std::vector<long> expect(n, 0);
            std::vector<char> gone(n, 0);
            for (size_t k = 0; k < 300; ++k)
            {
                const size_t i = r.below(n);
                if (r.chance(10))
                {
                    if (d.remove_event(name(i)) == (bool)gone[i])
                        hx::fail("remove_event", hx::cat("remove_event of event ", i, " of ", n, " returned ", (bool)gone[i]));
                    gone[i] = 1;
                    continue;
                }
                const long v = (long)r.below(1000000);
                if (d.emit<long>(name(i), v) == (bool)gone[i])
                    hx::fail("emit", hx::cat("emit to event ", i, " of ", n, " returned ", (bool)gone[i]));
                if (!gone[i])
                    expect[i] += v;
            }
            ds::wait_quiescent(true);
            if (!d.stop())
                hx::fail("stop", "stop of a started dispatcher returned false");
            for (size_t i = 0; i < n; ++i)
                if (sum[i] != expect[i])
                    hx::fail("deliveries", hx::cat("event ", i, " of ", n, " received ", sum[i], " instead of ", expect[i]));
            hx::count("handlers", n);
            hx::maxi("max_events", n);
            break;
        }
        case 2: // very many emissions waiting for the thread
        {
            const size_t n = pick_count(r, 70000);
            std::promise<void> gate;
            auto open = gate.get_future().share();
            std::vector<size_t> got;
            got.reserve(n);
            d.add_handler<>("block", [open] { open.wait(); });
            d.add_handler<size_t>("value", [&](size_t v) { got.push_back(v); });
            if (r.chance(70))
                d.emit<>("block");
            for (size_t i = 0; i < n; ++i)
                if (!d.emit<size_t>("value", i))
                    hx::fail("emit", "emit to a registered handler returned false");
            gate.set_value();
            ds::wait_quiescent(true);
            if (!d.stop())
                hx::fail("stop", "stop of a started dispatcher returned false");
            if (got.size() != n)
                hx::fail("deliveries", hx::cat(got.size(), " of ", n, " emissions were delivered"));
            for (size_t i = 0; i < n; ++i)
                if (got[i] != i)
                    hx::fail("order", hx::cat("emission ", got[i], " of ", n, " was delivered as number ", i));
            hx::count("emissions", n);
            hx::maxi("max_emissions", n);
            break;
        }
        default: // ids of very many handlers, most of them gone again
        {
            const size_t n = pick_count(r, 70000);
            size_t keep = 0;
            int kept = 0;
            for (size_t i = 1; i <= n; ++i)
            {
                const bool k = r.below(n) < 20;
                const unsigned long id = d.add_handler<>(k ? "kept" : "short", [&, k] { k ? ++kept : 0; });
                if (id != i)
                    hx::fail("id", hx::cat("handler number ", i, " got the id ", id));
                if (k)
                    ++keep;
                else if (i % 1000 == 0 ? !d.remove_event("short") : (i % 2 && !d.remove_handler(id)))
                    hx::fail("remove", hx::cat("handler ", id, " could not be removed"));
            }
            if (keep && !d.emit<>("kept"))
                hx::fail("emit", "emit to registered handlers returned false");
            ds::wait_quiescent(true);
            if (!d.stop())
                hx::fail("stop", "stop of a started dispatcher returned false");
            if (kept != (int)keep)
                hx::fail("deliveries", hx::cat(kept, " of ", keep, " handlers were called"));
            hx::count("handlers", n);
            hx::maxi("max_id", n);
        }
        }
        hx::count(kind == 0 ? "one_event" : kind == 1 ? "many_events" : kind == 2 ? "many_emissions" : "many_ids");
    });
    hx::state(hx::hash64(seed, (uint64_t)kind));
}

// ------------------------------------------------------------------------------------------------- C13
void obs_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = quiet(seed, r);
    const size_t n = pick_count(r, 70000);
    ds::run(cfg, [&] {
        std::vector<int> seen, expect;
        tc::sdk::observable<int> o(-1, [&](int v) { seen.push_back(v); });
        int cur = -1;
        bool on = true;
        for (size_t i = 0; i < n; ++i)
        {
            if (r.below(1000) == 0)
                o.callback_enabled(on = r.chance(70));
            const int v = r.chance(20) ? cur : r.chance(50) ? (int)i : (int)r.below(5);
            if (i % 2)
                o = v;
            else
                o = std::move(int(v));
            if (v != cur && on)
                expect.push_back(v);
            cur = v;
            if (i % 512 == 0 && o.value() != cur)
                hx::fail("value", hx::cat("value() is ", o.value(), " after assigning ", cur));
        }
        if (seen != expect)
            hx::fail("notifications", hx::cat(n, " assignments: ", seen.size(), " notifications instead of ", expect.size(), ", or other values"));
        hx::count("assignments", n);
        hx::count("notifications", seen.size());
    });
    hx::state(seed);
}

// ------------------------------------------------------------------------------------------------- C14
void timer_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = quiet(seed, r);
    cfg.clock_tick = 0;
    const bool missing = r.chance(50);
    const uint64_t interval = r.pick<uint64_t>({1, 10, 1000, MS, 16'666'667, 1000 * MS, 3600000 * MS});
    const size_t ticks = missing ? (size_t)r.in(2, 20) : pick_count(r, r.chance(10) ? 70000 : 20000);
    ds::run(cfg, [&] {
        std::vector<uint64_t> at;
        std::vector<uint64_t> miss_seen;
        uint64_t expect_missed = 0, t0 = 0;
        tc::sdk::high_precision_timer t;
        uint64_t next = 0;
        bool bad = false;
        std::string what;
        std::promise<void> over;
        t.set_callback([&] {
            const uint64_t now = ds::now();
            if (at.size() >= ticks)
                return;
            if (now < next || now > next + EPS)
            {
                bad = true;
                what = hx::cat("callback ", at.size(), " began at +", now - t0, " ns, its tick is at +", next - t0);
            }
            if (t.invoked_callback_count() != at.size() || t.missed_callback_count() != expect_missed)
            {
                bad = true;
                what = hx::cat("in callback ", at.size(), ": invoked ", t.invoked_callback_count(), ", missed ", t.missed_callback_count(), " instead of ", expect_missed);
            }
            at.push_back(now);
            next += interval;
            if (missing)
            {
                // overrun by very many intervals
                const uint64_t over_n = pick_count(r, 70000);
                ds::advance(over_n * interval + interval / 2);
                const uint64_t end = ds::now();
                while (end > next)
                {
                    next += interval;
                    ++expect_missed;
                }
            }
            if (at.size() == ticks)
                over.set_value();
        });
        t0 = ds::now();
        next = t0 + interval;
        if (!t.start(ns((int64_t)interval)))
            hx::fail("start", "start with a callback returned false");
        over.get_future().wait();
        t.stop();
        if (bad)
            hx::fail("grid", what);
        if (t.missed_callback_count() < expect_missed)
            hx::fail("missed", hx::cat("missed_callback_count() is ", t.missed_callback_count(), " instead of ", expect_missed));
        hx::count("callbacks", at.size());
        hx::count("missed", expect_missed);
        hx::maxi("max_callbacks", at.size());
    });
    hx::state(hx::hash64(hx::hash64(interval, ticks), missing));
}

// ------------------------------------------------------------------------------------------------- C16
void limiter_iter(uint64_t seed)
{
    using i128 = __int128;
    hx::rng r(seed);
    ds::config cfg = quiet(seed, r);
    cfg.clock_tick = 0;
    const size_t rate = r.pick<size_t>({1, 3, 7, 24, 30, 60, 144, 999, 44100, 1000003, 333333333});
    const size_t frames = pick_count(r, r.chance(10) ? 6000000 : 140000);
    ds::run(cfg, [&] {
        const i128 T0 = ds::now();
        tc::sdk::rate_limiter rl(rate);
        for (size_t n = 1; n <= frames; ++n)
        {
            if (r.below(20000) == 0)
                ds::advance(r.below(3) * 1000000000ull / rate);
            const i128 call = ds::now();
            rl.sync();
            const i128 ret = ds::now(), due = (i128)n * 1000000000, R = (i128)rate;
            if ((ret - T0 + 1) * R < due || ((call - T0) * R < due && (ret - T0 - 1) * R > due) || ((call - T0) * R >= due && ret != call))
                hx::fail("deadline", hx::cat("rate ", rate, ", frame ", n, ": sync called at T+", (int64_t)(call - T0), " returned at T+", (int64_t)(ret - T0), ", due at T+", (int64_t)(due / R)));
        }
        hx::count("frames", frames);
        hx::maxi("max_frames", frames);
    });
    hx::state(hx::hash64(rate, frames));
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
        {"queue", queue_iter},
        {"pool", pool_iter},
        {"poolstop", poolstop_iter},
        {"many", oneshot_iter},
        {"many_periodic", periodic_iter},
        {"ids", ids_iter},
        {"events", events_iter},
        {"assign", obs_iter},
        {"ticks", timer_iter},
        {"frames", limiter_iter},
    });
}
