// C40: waiting costs no processor time. Components are brought into a state in which nothing is due, then virtual time is let
// pass: every schedule point (lock, wait, wake-up, clock read, atomic access) of any other thread in that time is work done for
// nothing, unless a due time of a timer or of a scheduled task accounts for it.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/signal_handler.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <future>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace
{
using ns = std::chrono::nanoseconds;
using namespace tc::sdk;
constexpr uint64_t S = 1'000'000'000, PER_THREAD = 8, PER_OCCURRENCE = 400;

ds::config make_config(uint64_t seed, hx::rng& r)
{
    ds::config c = ds::random_config(seed);
    c.spurious_permille = 0; // each of them would be somebody waking up
    c.wall_permille = 0;
    c.timejump_permille = 0;
    c.nprocs = r.pick({1, 2, 4, 8});
    return c;
}

// nothing but the given number of due times may make anybody run while time passes
template <class Due>
void idle(hx::rng& r, const std::string& what, Due due)
{
    const uint64_t units[] = {S / 10, S, 60 * S, 3600 * S, 86400 * S};
    for (int k = 0, n = (int)r.in(1, 3); k < n; ++k)
    {
        ds::wait_quiescent(false);
        const int threads = ds::alive_count();
        const uint64_t length = r.pick({units[0], units[1], units[2], units[3], units[4]}) + r.below(S);
        const uint64_t t = ds::now(), before = ds::steps();
        const uint64_t occurrences = due(t, t + length);
        if (occurrences > 300)
            continue;
        ds::sleep_for(length);
        ds::wait_quiescent(false);
        const uint64_t used = ds::steps() - before, allowed = 8 + (uint64_t)threads * PER_THREAD + occurrences * PER_OCCURRENCE;
        if (used > allowed)
            hx::fail(hx::cat("works-while-idle:", what.substr(0, what.find(','))), hx::cat(what, ": ", used, " schedule points in ", length / 1e9, " s of idleness with ", threads, " other threads and ", occurrences, " due times"));
        hx::count("idle_periods");
        hx::count("idle_seconds", length / S);
        if (occurrences)
            hx::count("due_times", occurrences);
        hx::state(hx::hash64(ds::trace_hash(), used));
    }
    if (hx::want_sample())
        hx::sample(hx::cat(what, ": ", ds::steps(), " schedule points in all"));
}
uint64_t none(uint64_t, uint64_t) { return 0; }

void pool_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::run(make_config(seed, r), [&] {
        thread_pool p;
        const unsigned n = (unsigned)r.in(1, 8);
        p.start(n);
        std::atomic<int> runs{0};
        for (int i = 0, k = (int)r.below(12); i < k; ++i)
            p.run([&] { runs.fetch_add(1, std::memory_order_relaxed); });
        std::promise<void> gate;
        std::shared_future<void> open = gate.get_future().share();
        const int stuck = r.chance(40) ? (int)r.in(1, 10) : 0; // tasks that wait for something: the rest of the pool is idle
        for (int i = 0; i < stuck; ++i)
            p.run([open] { open.wait(); });
        std::thread waiter; // somebody waits for a task that has not been executed yet
        if (stuck)
            waiter = std::thread([&] { p.run([] {}).wait(); });
        idle(r, hx::cat("thread_pool, ", n, " threads, ", stuck, " tasks waiting"), none);
        if (!stuck && r.chance(50))
        {
            p.stop();
            idle(r, "stopped thread_pool", none);
        }
        if (waiter.joinable())
        {
            gate.set_value();
            waiter.join();
        }
    });
}

void queue_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::run(make_config(seed, r), [&] {
        const size_t cap = (size_t)r.in(1, 4);
        blocking_queue<std::string> q(cap);
        const bool full = r.chance(50);
        const int n = (int)r.in(1, 5);
        std::vector<std::thread> th;
        if (full)
            for (size_t i = 0; i < cap; ++i)
                q.push("item");
        for (int i = 0; i < n; ++i)
            th.emplace_back([&] {
                if (full)
                    q.push("another");
                else
                    q.pop();
            });
        // only as many as are blocked may be left when something happens in between
        idle(r, hx::cat("blocking_queue, ", n, full ? " threads in push" : " threads in pop"), none);
        for (int i = 0; i < n; ++i)
        {
            if (full)
                q.pop();
            else
                q.push("released");
            if (r.chance(30))
                idle(r, hx::cat("blocking_queue, ", n - i - 1, full ? " threads left in push" : " threads left in pop"), none);
        }
        for (auto& t : th)
            t.join();
    });
}

void scheduler_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::run(make_config(seed, r), [&] {
        task_scheduler s;
        const unsigned n = (unsigned)r.in(1, 4);
        s.start(n);
        struct per_t
        {
            uint64_t first, interval;
        };
        std::vector<uint64_t> once;
        std::vector<per_t> per;
        std::string what = "task_scheduler";
        for (int i = 0, k = (int)r.below(4); i < k; ++i)
        {
            const uint64_t d = r.pick({S / 100, S, 100 * S, 10000 * S, 1000000 * S}) + r.below(S);
            const bool removed = r.chance(20);
            once.push_back(ds::now() + d);
            const std::string id = hx::cat("once ", i);
            s.in(std::string(id), ns(d), [] {});
            if (removed && s.remove_task(id))
                once.pop_back();
            what += hx::cat(", in ", d / 1e9, removed ? " s (removed)" : " s");
        }
        for (int i = 0, k = (int)r.below(3); i < k; ++i)
        {
            const uint64_t d = r.below(5 * S), I = r.pick({S, 60 * S, 3600 * S}) + r.below(S);
            const std::string id = hx::cat("every ", i);
            s.every(std::string(id), ns(I), ns(d), [] {});
            per.push_back({ds::now() + d, I});
            if (r.chance(30))
                s.set_enabled(id, false);
            if (r.chance(20) && s.remove_task(id))
                per.pop_back();
            what += hx::cat(", every ", I / 1e9, " s from ", d / 1e9, " s on");
        }
        const auto due = [&](uint64_t from, uint64_t to) {
            uint64_t c = 2;
            for (uint64_t t : once)
                c += t + S / 1000 >= from && t <= to + S / 1000;
            for (auto& p : per)
                if (p.first <= to + S / 1000)
                    c += (to - std::max(from, p.first)) / p.interval + 2;
            return (once.empty() && per.empty()) ? 0 : c;
        };
        idle(r, what, due);
        if (r.chance(50))
        {
            s.stop();
            idle(r, "stopped task_scheduler", none);
            if (r.chance(50))
            {
                s.start(n);
                idle(r, "restarted task_scheduler", none);
            }
        }
    });
}

void dispatcher_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::run(make_config(seed, r), [&] {
        event_dispatcher d;
        const unsigned n = (unsigned)r.in(1, 4);
        std::atomic<int> got{0};
        d.add_handler<int>("event", [&](int i) { got.fetch_add(i, std::memory_order_relaxed); });
        d.add_handler<int>("event", [&](int i) { got.fetch_add(i, std::memory_order_relaxed); });
        d.start(n);
        for (int i = 0, k = (int)r.below(6); i < k; ++i)
            d.emit("event", i);
        idle(r, hx::cat("event_dispatcher, ", n, " threads"), none);
        d.emit("event", 1);
        d.emit("nobody listens", 1);
        idle(r, hx::cat("event_dispatcher, ", n, " threads"), none);
        if (r.chance(50))
        {
            d.stop();
            idle(r, "stopped event_dispatcher", none);
        }
    });
}

void timer_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::run(make_config(seed, r), [&] {
        high_precision_timer t;
        idle(r, "high_precision_timer, never started", none);
        const uint64_t len = r.chance(50) ? 0 : r.below(10 * S);
        t.set_callback([len] { if (len) ds::sleep_for(len); });
        const uint64_t I = r.pick({S, 60 * S, 3600 * S, 86400 * S}) + r.below(S), t0 = ds::now();
        t.start(ns(I));
        idle(r, hx::cat("high_precision_timer, interval ", I / 1e9, " s, callback takes ", len / 1e9, " s"), [&](uint64_t from, uint64_t to) { return (to - t0) / I - (from - t0) / I + 2; });
        t.stop();
        idle(r, "stopped high_precision_timer", none);
    });
}

void limiter_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::run(make_config(seed, r), [&] {
        rate_limiter l(r.pick({size_t{1}, size_t{2}, size_t{50}, size_t{1000}}));
        for (int i = 0, n = (int)r.in(1, 20); i < n; ++i)
        {
            const uint64_t before = ds::steps(), t = ds::now();
            l.sync();
            const uint64_t used = ds::steps() - before;
            if (used > 20)
                hx::fail("works-while-idle:rate_limiter", hx::cat("sync() made ", used, " schedule points while it waited for ", (ds::now() - t) / 1e9, " s"));
            hx::count("idle_periods");
        }
        hx::state(ds::trace_hash());
    });
}

void quit_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::run(make_config(seed, r), [&] {
        install_signal_handlers([](const char*, int) {});
        std::thread waiter([] { wait_for_quit(); });
        idle(r, "wait_for_quit", none);
        if (r.chance(50))
            quit("enough");
        else
            raise(SIGTERM);
        waiter.join();
        idle(r, "after wait_for_quit", none);
    });
}

// Callers that wait for something in progress: stop(), the destructor, a restart, an assignment during a callback.
void stopping_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::run(make_config(seed, r), [&] {
        std::promise<void> gate;
        std::shared_future<void> open = gate.get_future().share();
        std::atomic<int> inside{0};
        auto stuck = [open, &inside] {
            inside.fetch_add(1);
            open.wait();
        };
        std::vector<std::thread> callers;
        const int n = (int)r.in(1, 3), kind = (int)r.below(5);
        const bool destroy = r.chance(30);
        std::string what;
        // calls is run by n threads at once while something is in progress
        auto during = [&](auto&& call) {
            while (inside.load() == 0)
                ds::sleep_for(S / 100);
            for (int i = 0; i < n; ++i)
                callers.emplace_back(call);
            idle(r, what, none);
            gate.set_value();
            for (auto& t : callers)
                t.join();
            idle(r, what + ", afterwards", none);
        };
        switch (kind)
        {
        case 0:
        {
            auto p = std::make_unique<thread_pool>();
            p->start((unsigned)r.in(1, 3));
            for (int i = 0, k = (int)r.in(1, 5); i < k; ++i)
                p->run(stuck);
            what = hx::cat("thread_pool, being ", destroy ? "destroyed" : "stopped", " during a task");
            std::atomic<bool> first{true};
            during([&] {
                if (!destroy)
                    p->stop();
                else if (first.exchange(false))
                    p.reset();
            });
            break;
        }
        case 1:
        {
            auto s = std::make_unique<task_scheduler>();
            s->start((unsigned)r.in(1, 3));
            const bool every = r.chance(50);
            if (every)
                s->every("stuck", ns((int64_t)S / 10 + 7), ns(3), stuck);
            else
                s->in(ns((int64_t)r.below(S)), stuck);
            what = hx::cat("task_scheduler, being ", destroy ? "destroyed" : "stopped", " during a task");
            std::atomic<bool> first{true};
            during([&] {
                if (!destroy)
                    s->stop();
                else if (first.exchange(false))
                    s.reset();
            });
            break;
        }
        case 2:
        {
            auto d = std::make_unique<event_dispatcher>();
            d->start((unsigned)r.in(1, 3));
            d->add_handler<int>("event", [&](int) { stuck(); });
            d->emit("event", 1);
            what = hx::cat("event_dispatcher, being ", destroy ? "destroyed" : "stopped", " during a delivery");
            std::atomic<bool> first{true};
            during([&] {
                if (!destroy)
                    d->stop();
                else if (first.exchange(false))
                    d.reset();
            });
            break;
        }
        case 3:
        {
            auto t = std::make_unique<high_precision_timer>();
            t->set_callback(stuck);
            t->start(ns((int64_t)r.below(S) + 1));
            const bool restart = r.chance(30);
            what = hx::cat("high_precision_timer, being ", destroy ? "destroyed" : restart ? "restarted" : "stopped", " during a callback");
            std::atomic<bool> first{true};
            during([&] {
                if (!first.exchange(false))
                    return; // the timer has one owner
                if (destroy)
                    t.reset();
                else if (restart)
                {
                    t->set_callback([] {});
                    t->start(ns((int64_t)S * 86400 * 300));
                }
                else
                    t->stop();
            });
            break;
        }
        default:
        {
            observable<int> o(0, [&](int v) { if (v == 1) stuck(); });
            std::thread setter([&] { o = 1; });
            what = "observable, assigned and read during its callback";
            std::atomic<int> k{1};
            during([&] {
                const int v = k.fetch_add(1) + 1;
                switch (v % 3)
                {
                case 0: o = v; break;
                case 1: (void)o.value(); break;
                default: o.callback_enabled(false);
                }
            });
            setter.join();
        }
        }
        hx::count("stops_in_progress");
    });
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
        {"pool", pool_iter},
        {"queue", queue_iter},
        {"scheduler", scheduler_iter},
        {"dispatcher", dispatcher_iter},
        {"timer", timer_iter},
        {"limiter", limiter_iter},
        {"quit", quit_iter},
        {"stopping", stopping_iter},
    });
}
