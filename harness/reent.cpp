// C43: tasks, handlers and callbacks may use the component that runs them.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/service_locator.hpp>
#include <teiacare/sdk/singleton.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>

#include <algorithm>
#include <atomic>
#include <deque>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <vector>

namespace
{
using namespace std::chrono_literals;
using ns = std::chrono::nanoseconds;
using tc::sdk::clock;
constexpr uint64_t MS = 1'000'000, EPS = 20'000;
constexpr int V_IDS = 1, V_EXEC = 100, MAX_IDS = 3000;
enum ek { BEG = 1, END };

int new_id()
{
    const int id = (int)rec::inc(V_IDS);
    if (id >= MAX_IDS)
        hx::fail("harness", "too many tasks");
    return id;
}
clock::time_point tp_of(uint64_t t) { return clock::time_point(ns((int64_t)t)); }

std::string timeline(uint64_t t0)
{
    static const char* n[] = {"", "begin", "end"};
    std::string s;
    for (int i = std::max(0, rec::size() - 120); i < rec::size() && s.size() < 6000; ++i)
    {
        const rec::ev& e = rec::at(i);
        s += hx::cat(i, ":T", e.tid, "@", (e.time - t0) / 1000.0, "us ", n[e.kind], "(", e.a, ",", e.b, ") ");
    }
    return s;
}

// -------------------------------------------------------------------------------------------------- thread_pool
struct pool_ctx
{
    tc::sdk::thread_pool tp;
    unsigned n = 0;
    std::atomic<bool> stopping{false};
    std::mutex m;
    std::vector<std::pair<int, std::future<int>>> futures;
    int budget = 0;

    bool take()
    {
        std::lock_guard l(m);
        return budget-- > 0;
    }
    // One task: submits others to the pool that runs it, and asks it questions.
    int node(int id, uint64_t seed, int depth)
    {
        rec::add(BEG, id);
        rec::inc(V_EXEC + id);
        hx::rng r(seed);
        const int k = depth >= 5 ? 0 : (int)r.below(4);
        for (int i = 0; i < k; ++i)
        {
            if (r.chance(30))
                ds::point();
            if (r.chance(30) && !stopping.load())
            {
                const bool run = tp.is_running();
                const size_t c = tp.threads_count();
                if (!stopping.load() && (!run || c != n))
                    hx::fail("query-from-task", hx::cat("a task of a pool of ", n, " threads sees is_running() ", run, " and threads_count() ", c));
                hx::count("queries_from_tasks");
            }
            if (!take())
                break;
            submit(r.u64(), depth + 1);
            hx::count("tasks_submitted_by_tasks");
        }
        rec::add(END, id);
        return id * 7;
    }
    void submit(uint64_t seed, int depth)
    {
        const int id = new_id();
        std::future<int> f;
        if (seed & 1)
            f = tp.run([this, id, seed, depth] { return node(id, seed, depth); });
        else
            f = tp.run([this](int i, uint64_t s, int d) { return node(i, s, d); }, id, seed, depth);
        std::lock_guard l(m);
        futures.emplace_back(id, std::move(f));
    }
};

void pool_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    const uint64_t t0 = cfg.start_time;
    bool stopped = false;
    ds::run(cfg, [&] {
        pool_ctx c;
        const unsigned req = (unsigned)r.in(1, 4);
        c.n = std::min<unsigned>(req, (unsigned)cfg.nprocs);
        c.budget = (int)r.in(1, 30);
        const bool early = r.chance(20); // tasks submitted before the pool is started
        if (!early)
            c.tp.start(req);
        const int roots = (int)r.in(1, 3);
        std::thread other;
        if (r.chance(40))
            other = std::thread([&] { c.submit(seed * 3 + 1, 1); });
        for (int i = 0; i < roots; ++i)
            c.submit(r.u64(), 0);
        if (early)
            c.tp.start(req);
        stopped = r.chance(30);
        if (stopped)
        {
            for (uint64_t k = r.below(60); k > 0; --k)
                ds::point();
            if (other.joinable())
                other.join();
            c.stopping.store(true);
            c.tp.stop(); // returns although running tasks go on submitting (else: reported as a deadlock)
            hx::count("stops_while_tasks_submit");
        }
        else
        {
            if (other.joinable())
                other.join();
            ds::wait_quiescent(true);
            std::unique_lock l(c.m);
            auto futures = std::move(c.futures);
            l.unlock();
            for (auto& [id, f] : futures)
            {
                const int64_t ex = rec::get(V_EXEC + id);
                if (ex != 1)
                    hx::fail("not-exactly-once", hx::cat("task ", id, " executed ", ex, " times; ", timeline(t0)));
                if (f.wait_for(0s) != std::future_status::ready)
                    hx::fail("future-pending", hx::cat("the future of task ", id, ", which has run, is not ready"));
                if (f.get() != id * 7)
                    hx::fail("wrong-result", "a task submitted by a task delivered another result");
            }
            c.stopping.store(true);
            c.tp.stop();
        }
    });
    for (int i = 1; i <= rec::get(V_IDS); ++i)
        if (rec::get(V_EXEC + i) > 1)
            hx::fail("not-exactly-once", hx::cat("task ", i, " executed more than once; ", timeline(t0)));
    hx::state(ds::trace_hash());
    if (hx::want_sample())
        hx::sample(timeline(t0));
}

// One task, handler or scheduled task makes very many calls at once: nothing makes it wait for the threads it is using up.
void burst_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.policy = ds::POL_STICKY;
    cfg.switch_permille = (int)r.in(0, 20);
    cfg.spurious_permille = 0;
    cfg.max_steps = 4'000'000;
    const int n = r.chance(60) ? (int)r.in(50, 300) : r.chance(70) ? (int)r.in(300, 1500) : (int)r.in(1500, 6000);
    ds::run(cfg, [&] {
        std::atomic<int> ran{0};
        std::atomic<bool> done{false};
        switch (r.below(3))
        {
        case 0:
        {
            tc::sdk::thread_pool tp;
            tp.start(1);
            tp.run([&] {
                for (int i = 0; i < n; ++i)
                    tp.run([&] { ran.fetch_add(1); });
                done.store(true);
            });
            ds::wait_quiescent(true);
            tp.stop();
            break;
        }
        case 1:
        {
            tc::sdk::event_dispatcher d;
            d.start(1);
            d.add_handler<int>("each", [&](int) { ran.fetch_add(1); });
            d.add_handler<>("all", [&] {
                for (int i = 0; i < n; ++i)
                    d.emit<int>("each", i);
                done.store(true);
            });
            d.emit<>("all");
            ds::wait_quiescent(true);
            d.stop();
            break;
        }
        default:
        {
            tc::sdk::task_scheduler s;
            s.start(1);
            const int k = std::min(n, 2000);
            s.in(ns(MS), [&] {
                for (int i = 0; i < k; ++i)
                    if (!s.in(ns((int64_t)(i % 3) * (int64_t)MS), [&] { ran.fetch_add(1); }))
                        hx::fail("refused", "a task scheduled by a task was refused by a running scheduler");
                done.store(true);
            });
            ds::sleep_for(20 * MS);
            ds::wait_quiescent(true);
            if (s.tasks_size() != 0)
                hx::fail("tasks-left", hx::cat(s.tasks_size(), " tasks are still scheduled"));
            s.stop();
            ran.fetch_add(n - k);
            break;
        }
        }
        if (!done.load() || ran.load() != n)
            hx::fail("not-exactly-once", hx::cat(ran.load(), " of ", n, " tasks submitted by one task were executed"));
        hx::maxi("max_burst", (uint64_t)n);
        hx::count("bursts");
    });
    hx::state(ds::trace_hash());
}

// ------------------------------------------------------------------------------------------------ task_scheduler
struct sched_ctx
{
    tc::sdk::task_scheduler s;
    std::atomic<bool> stopping{false};
    std::mutex m;
    uint64_t t0 = 0;
    struct expectation
    {
        int id;
        uint64_t lo, hi; // when it has to start
        std::string what;
    };
    std::vector<expectation> expected;
    std::vector<std::future<void>> futures;
    int children = 0;

    void expect(int id, uint64_t lo, uint64_t hi, const std::string& what)
    {
        std::lock_guard l(m);
        expected.push_back({id, lo, hi, what});
    }
    void keep(std::optional<std::future<void>> f, const std::string& what)
    {
        if (stopping.load())
            return;
        if (!f)
            hx::fail("refused", what + " was refused; " + timeline(t0));
        std::lock_guard l(m);
        futures.push_back(std::move(*f));
    }
    void check(bool ok, const char* key, const std::string& what)
    {
        if (!ok && !stopping.load())
            hx::fail(key, what + "; " + timeline(t0));
    }
    // A one-shot task that schedules itself again, under its own name, which is free once it runs.
    void link(const std::string& name, uint64_t seed, int left)
    {
        hx::rng r(seed);
        const int id = new_id();
        auto body = [this, name, id, next = r.u64(), left] {
            rec::add(BEG, id);
            rec::inc(V_EXEC + id);
            check(!s.is_scheduled(name), "own-id-taken", "one-shot task '" + name + "' is running and still scheduled");
            if (left > 0)
            {
                link(name, next, left - 1);
                hx::count("tasks_scheduling_themselves");
            }
        };
        const int64_t delta = r.chance(20) ? -(int64_t)r.below(2 * MS) : r.chance(20) ? 0 : (int64_t)r.below(5 * MS);
        const uint64_t lo = (uint64_t)((int64_t)ds::now() + delta);
        auto f = r.chance(50) ? s.in(std::string(name), ns(delta), body) : s.at(std::string(name), tp_of(lo), body);
        expect(id, lo, std::max<uint64_t>(ds::now(), (uint64_t)((int64_t)ds::now() + delta)), "one-shot '" + name + "'");
        keep(std::move(f), "one-shot task '" + name + "', whose earlier instance was running,");
    }
    // A one-shot task that schedules others.
    void tree(uint64_t seed, int depth)
    {
        hx::rng r(seed);
        {
            std::lock_guard l(m);
            if (++children > 25)
                return;
        }
        const int id = new_id();
        auto body = [this, id, next = r.u64(), depth] {
            rec::add(BEG, id);
            rec::inc(V_EXEC + id);
            hx::rng rr(next);
            if (depth < 4)
                for (uint64_t k = rr.below(3); k > 0; --k)
                {
                    tree(rr.u64(), depth + 1);
                    hx::count("tasks_scheduled_by_tasks");
                }
            (void)s.tasks_size();
        };
        const int64_t delta = r.chance(20) ? 0 : (int64_t)r.below(4 * MS);
        const uint64_t lo = ds::now() + (uint64_t)delta;
        auto f = r.chance(50) ? s.in(ns(delta), body) : s.at("tree " + std::to_string(id), tp_of(lo), body);
        expect(id, lo, ds::now() + (uint64_t)delta, "child task");
        keep(std::move(f), "a task with a fresh id");
    }
};

void sched_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.nprocs = 8;
    if (r.chance(20))
        cfg.clock_tick = 0; // a clock that shows the same time again and again
    const uint64_t t0 = cfg.start_time;
    const bool stop_early = r.chance(20);
    struct periodic
    {
        std::string name;
        int id, id2, kind;
        uint64_t I, J = 0;
        int at; // in which occurrence it acts
        uint64_t first_lo = 0, first_hi = 0;
    };
    std::vector<periodic> ps;
    std::vector<sched_ctx::expectation> expected;
    uint64_t end = 0;
    ds::run(cfg, [&] {
        sched_ctx c;
        c.t0 = t0;
        c.s.start(8);
        const int chains = (int)r.below(3), np = (int)r.in(0, 3), trees = (int)r.below(3);
        for (int i = 0; i < chains; ++i)
            c.link("chain " + std::to_string(i), r.u64(), (int)r.in(1, 5));
        for (int i = 0; i < np; ++i)
        {
            periodic p;
            p.name = "periodic " + std::to_string(i);
            p.id = new_id();
            p.id2 = new_id();
            p.kind = (int)r.below(5);
            p.I = (uint64_t)r.in(500'000, 4'000'000);
            p.J = (uint64_t)r.in(500'000, 4'000'000);
            p.at = (int)r.in(1, 4);
            ps.push_back(p);
        }
        for (auto& p : ps)
        {
            auto count = std::make_shared<int>(0);
            auto body = [&c, p, count, t0] {
                rec::add(BEG, p.id);
                const int k = (int)rec::inc(V_EXEC + p.id);
                // occurrences do not overlap here: they are instantaneous
                if (k != p.at)
                    return;
                c.check(c.s.is_scheduled(p.name), "query-from-task", "a periodic task that is running is not scheduled");
                c.check(c.s.get_interval(p.name) == std::optional<clock::duration>(ns((int64_t)p.I)), "query-from-task", "a periodic task sees another interval of its own");
                switch (p.kind)
                {
                case 0:
                    c.check(c.s.remove_task(p.name), "remove-own", "remove_task() of a periodic task by itself returned false");
                    c.check(!c.s.is_scheduled(p.name), "remove-own", "a periodic task that has removed itself is still scheduled");
                    c.check(!c.s.remove_task(p.name), "remove-own", "remove_task() of a removed task returned true");
                    hx::count("tasks_removing_themselves");
                    break;
                case 1:
                    c.check(c.s.update_interval(p.name, ns((int64_t)p.J)), "update-own", "update_interval() of a periodic task by itself returned false");
                    c.check(c.s.get_interval(p.name) == std::optional<clock::duration>(ns((int64_t)p.J)), "update-own", "a periodic task sees another interval than the one it has set");
                    hx::count("tasks_updating_themselves");
                    break;
                case 2:
                    c.check(c.s.set_enabled(p.name, false), "disable-own", "set_enabled() of a periodic task by itself returned false");
                    c.check(!c.s.is_enabled(p.name), "disable-own", "a periodic task that has disabled itself is enabled");
                    hx::count("tasks_disabling_themselves");
                    break;
                case 3:
                {
                    // replaces itself by another task of the same name
                    c.check(c.s.remove_task(p.name), "remove-own", "remove_task() of a periodic task by itself returned false");
                    const bool ok = c.s.every(std::string(p.name), ns((int64_t)p.J), [id = p.id2] { rec::add(BEG, id); rec::inc(V_EXEC + id); });
                    c.check(ok, "refused", "the name of a removed task was refused");
                    hx::count("tasks_replacing_themselves");
                    break;
                }
                default: (void)c.s.tasks_size(); break;
                }
            };
            p.first_lo = ds::now();
            const bool ok = r.chance(50) ? c.s.every(std::string(p.name), ns((int64_t)p.I), body)
                                         : c.s.every(std::string(p.name), ns((int64_t)p.I), [body](int) { body(); }, 1);
            p.first_hi = ds::now();
            if (!ok)
                hx::fail("refused", "every() with a fresh id was refused by a running scheduler");
            (void)count;
        }
        for (int i = 0; i < trees; ++i)
            c.tree(r.u64(), 0);
        ds::sleep_for(stop_early ? r.below(12 * MS) : 40 * MS);
        if (stop_early)
        {
            for (uint64_t k = r.below(30); k > 0; --k)
                ds::point();
            c.stopping.store(true);
            hx::count("stops_while_tasks_schedule");
        }
        else
        {
            ds::wait_quiescent(false);
            size_t left = 0;
            for (auto& p : ps)
            {
                const bool removed = p.kind == 0;
                left += !removed;
                if (c.s.is_scheduled(p.name) == removed)
                    hx::fail("tasks-left", "periodic task '" + p.name + "' is " + (removed ? "still" : "not") + " scheduled; " + timeline(t0));
                if (p.kind == 2 && c.s.is_enabled(p.name))
                    hx::fail("disable-own", "a task that has disabled itself is enabled later on");
            }
            if (c.s.tasks_size() != left)
                hx::fail("tasks-left", hx::cat(c.s.tasks_size(), " tasks scheduled instead of ", left, "; ", timeline(t0)));
            c.stopping.store(true);
        }
        end = ds::now();
        c.s.stop();
        std::lock_guard l(c.m);
        expected = c.expected;
        if (!stop_early)
            for (auto& f : c.futures)
                if (f.wait_for(0s) != std::future_status::ready)
                    hx::fail("future-pending", "the future of a task scheduled by a task is not ready");
    });
    std::map<int, std::vector<uint64_t>> starts;
    for (int i = 0; i < rec::size(); ++i)
    {
        const rec::ev& e = rec::at(i);
        if (e.kind == BEG)
            starts[(int)e.a].push_back(e.time);
    }
    for (auto& x : expected)
    {
        auto& v = starts[x.id];
        if (v.size() > 1 || (!stop_early && v.size() != 1))
            hx::fail("not-exactly-once", hx::cat(x.what, " (task ", x.id, ") executed ", v.size(), " times; ", timeline(t0)));
        if (!v.empty() && v[0] < x.lo)
            hx::fail("early", hx::cat(x.what, " (task ", x.id, ") started ", x.lo - v[0], " ns before its time; ", timeline(t0)));
        if (!v.empty() && v[0] > x.hi + 5 * EPS)
            hx::fail("late", hx::cat(x.what, " (task ", x.id, ") started ", v[0] - x.hi, " ns after its time; ", timeline(t0)));
    }
    for (auto& p : ps)
    {
        const uint64_t tol = 5 * EPS + (p.first_hi - p.first_lo);
        auto compare = [&](const std::vector<uint64_t>& v, const std::vector<uint64_t>& due, const char* which) {
            const auto what = hx::cat(which, " '", p.name, "' (interval ", p.I, " ns, kind ", p.kind, " acting in occurrence ", p.at, ", then ", p.J, " ns)");
            const size_t sure = (size_t)std::count_if(due.begin(), due.end(), [&](uint64_t t) { return t + 2 * tol < end; });
            if (v.size() > due.size() || (!stop_early && v.size() < sure))
                hx::fail("occurrences", hx::cat(what, " ran ", v.size(), " times instead of ", due.size(), "; ", timeline(t0)));
            for (size_t i = 0; i < v.size(); ++i)
                if (v[i] < due[i] || v[i] > due[i] + tol)
                    hx::fail("off-grid", hx::cat("occurrence ", i + 1, " of ", what, " started ", (int64_t)(v[i] - due[i]), " ns after its due time; ", timeline(t0)));
        };
        std::vector<uint64_t> due, due2;
        uint64_t d = p.first_lo;
        for (int k = 1; k < p.at && d < end; ++k, d += p.I)
            due.push_back(d);
        if (d < end)
        {
            due.push_back(d); // the occurrence that acts
            if (p.kind == 1)
                for (d += p.J; d < end; d += p.J)
                    due.push_back(d);
            if (p.kind == 4)
                for (d += p.I; d < end; d += p.I)
                    due.push_back(d);
            if (p.kind == 3 && starts[p.id].size() >= (size_t)p.at)
                for (d = starts[p.id][(size_t)p.at - 1]; d < end; d += p.J)
                    due2.push_back(d);
        }
        compare(starts[p.id], due, "periodic task");
        compare(starts[p.id2], due2, "the task that replaced periodic task");
    }
    hx::state(ds::trace_hash());
    if (hx::want_sample())
        hx::sample(timeline(t0));
}

// ---------------------------------------------------------------------------------------------- event_dispatcher
struct disp_ctx
{
    tc::sdk::event_dispatcher d;
    std::mutex m; // guards all below; held across the calls, which are made one at a time
    struct handler
    {
        int uid;
        unsigned long id;
        int event;
    };
    std::vector<handler> handlers;                 // the model: in order of registration
    std::deque<std::pair<int, int>> expected;      // (handler, payload) still to be delivered
    unsigned long last_id = 0;
    int uids = 0, payloads = 0, budget = 0;
    bool ordered = true;
    uint64_t t0 = 0;
    uint64_t seed = 0;

    static std::string name(int e) { return "event " + std::to_string(e); }
    void add(int event) // m held
    {
        const int uid = ++uids;
        handler h{uid, 0, event};
        h.id = d.add_handler<int>(name(event), [this, uid](int payload) { on(uid, payload); });
        if (h.id != ++last_id)
            hx::fail("handler-id", hx::cat("add_handler() returned ", h.id, " instead of ", last_id));
        handlers.push_back(h);
    }
    void emit(int event) // m held
    {
        const int payload = ++payloads;
        bool any = false;
        for (auto& h : handlers)
            if (h.event == event)
            {
                expected.emplace_back(h.uid, payload);
                any = true;
            }
        if (d.emit<int>(name(event), payload) != any)
            hx::fail("emit-result", hx::cat("emit() returned ", !any, " for an event ", any ? "with" : "without", " handlers"));
    }
    void remove(int uid) // m held
    {
        auto it = std::find_if(handlers.begin(), handlers.end(), [&](auto& h) { return h.uid == uid; });
        const bool known = it != handlers.end();
        if (!known)
            return;
        if (!d.remove_handler(it->id))
            hx::fail("remove-result", "remove_handler() of a registered handler returned false");
        const unsigned long id = it->id;
        handlers.erase(it);
        if (d.remove_handler(id))
            hx::fail("remove-result", "remove_handler() of a removed handler returned true");
    }
    void remove_event(int event) // m held
    {
        const bool any = std::any_of(handlers.begin(), handlers.end(), [&](auto& h) { return h.event == event; });
        if (d.remove_event(name(event)) != any)
            hx::fail("remove-result", hx::cat("remove_event() returned ", !any, " for an event ", any ? "with" : "without", " handlers"));
        std::erase_if(handlers, [&](auto& h) { return h.event == event; });
    }
    void on(int uid, int payload)
    {
        rec::add(BEG, uid, payload);
        std::lock_guard l(m);
        const auto want = std::make_pair(uid, payload);
        auto it = ordered ? expected.begin() : std::find(expected.begin(), expected.end(), want);
        if (it == expected.end() || *it != want)
            hx::fail("delivery", hx::cat("handler ", uid, " was called with payload ", payload, it == expected.end() ? ", which nobody expects" : hx::cat(" instead of handler ", it->first, " with ", it->second), "; ", timeline(t0)));
        expected.erase(it);
        hx::rng r(seed * 31 + (uint64_t)uid * 1009 + (uint64_t)payload);
        for (uint64_t k = r.below(3); k > 0 && budget > 0; --k, --budget)
        {
            const int e = (int)r.below(3);
            switch (r.below(6))
            {
            case 0: case 1: emit(e); hx::count("emissions_by_handlers"); break;
            case 2: add(e); hx::count("handlers_added_by_handlers"); break;
            case 3: remove(uid); hx::count("handlers_removing_themselves"); break;
            case 4: if (!handlers.empty()) remove(handlers[r.below(handlers.size())].uid); break;
            default: remove_event(e); hx::count("events_removed_by_handlers"); break;
            }
        }
    }
};

void disp_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    bool stopped = false;
    ds::run(cfg, [&] {
        disp_ctx c;
        c.t0 = cfg.start_time;
        c.seed = seed;
        const unsigned n = r.chance(60) ? 1 : (unsigned)r.in(2, 3);
        c.ordered = n == 1 || cfg.nprocs == 1;
        c.budget = (int)r.in(5, 40);
        c.d.start(n);
        {
            std::lock_guard l(c.m);
            for (int k = (int)r.in(1, 5); k > 0; --k)
                c.add((int)r.below(3));
        }
        stopped = r.chance(20);
        for (int k = (int)r.in(1, 4); k > 0; --k)
        {
            {
                std::lock_guard l(c.m);
                c.emit((int)r.below(3));
            }
            if (!stopped && r.chance(60))
                ds::wait_quiescent(true);
        }
        if (stopped)
        {
            for (uint64_t k = r.below(40); k > 0; --k)
                ds::point();
            // Handlers call emit() of a dispatcher being stopped: what they are told then is not judged, stop() has to return.
            {
                std::lock_guard l(c.m);
                c.budget = 0;
            }
            c.d.stop();
            hx::count("stops_while_handlers_run");
        }
        else
        {
            ds::wait_quiescent(true);
            std::lock_guard l(c.m);
            if (!c.expected.empty())
                hx::fail("not-delivered", hx::cat("handler ", c.expected.front().first, " was not called with payload ", c.expected.front().second, "; ", timeline(cfg.start_time)));
        }
    });
    hx::state(ds::trace_hash());
    if (hx::want_sample())
        hx::sample(timeline(cfg.start_time));
}

// ---------------------------------------------------------------------------------------------------------- timer
void timer_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.clock_tick = r.pick({uint64_t{0}, uint64_t{1}});
    ds::run(cfg, [&] {
        tc::sdk::high_precision_timer t;
        struct state_t
        {
            uint64_t ticks = 0; // since start()
            int current = 0;    // the callback installed last
        } st; // used by the callbacks, and by this thread while the timer is stopped
        std::function<void(int)> install = [&](int gen) {
            auto text = std::make_shared<std::string>("callback number " + std::to_string(gen));
            const bool swaps = hx::rng(seed * 77 + (uint64_t)gen).chance(60);
            auto body = [&, gen, text, swaps](int arg) {
                rec::add(BEG, gen, (int64_t)st.ticks);
                if (arg != gen + 1)
                    hx::fail("wrong-arguments", "a timer callback got another argument");
                if (gen != st.current)
                    hx::fail("wrong-callback", hx::cat("callback number ", gen, " was called after number ", st.current, " had been set; ", timeline(cfg.start_time)));
                if (t.invoked_callback_count() != st.ticks)
                    hx::fail("invoked-count", hx::cat("invoked_callback_count() is ", t.invoked_callback_count(), " in the callback of tick ", st.ticks + 1));
                (void)t.missed_callback_count();
                ++st.ticks;
                if (swaps)
                {
                    st.current = gen + 1;
                    install(gen + 1);
                    hx::count("callbacks_replacing_themselves");
                }
                // The callable that is running stays alive until it is done.
                if (*text != "callback number " + std::to_string(gen))
                    hx::fail("destroyed-while-running", "a timer callback was destroyed while it was running");
                hx::count("timer_callbacks");
            };
            if (gen > 0 || r.chance(50))
                t.set_callback(body, gen + 1);
            else
                t.set_callback([body, gen] { body(gen + 1); });
        };
        install(0);
        const int rounds = (int)r.in(1, 3);
        for (int q = 0; q < rounds; ++q)
        {
            const uint64_t I = (uint64_t)r.in(1, 2000) * 1000;
            st.ticks = 0;
            if (!t.start(ns((int64_t)I)))
                hx::fail("start-result", "start() with a callback returned false");
            ds::sleep_for(I * r.below(8) + (r.chance(50) ? I / 2 : 0));
            t.stop();
            if (t.invoked_callback_count() != st.ticks)
                hx::fail("invoked-count", hx::cat("invoked_callback_count() is ", t.invoked_callback_count(), " after ", st.ticks, " callbacks"));
        }
    });
    hx::state(ds::trace_hash());
    if (hx::want_sample())
        hx::sample(timeline(cfg.start_time));
}

// ------------------------------------------------------------------------------------------- all of them together
// Timer and scheduler feed a pool, whose tasks emit events, whose handlers assign an observable, whose callback assigns
// another one and fills a queue that a consumer empties: nothing is lost or made up on the way, and everything stops.
void chain_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.nprocs = 8;
    uint64_t sources = 0, popped = 0;
    ds::run(cfg, [&] {
        std::atomic<int> made{0};
        tc::sdk::blocking_queue<int> queue((size_t)r.in(1, 4));
        int last = 0; // guarded by the observable
        tc::sdk::observable<int> total(0, [&](int v) {
            if (v != last)
                hx::fail("observable-chain", "the second observable was notified of another value than the first one has passed on");
            queue.push(v); // blocks while the consumer is slow
        });
        tc::sdk::observable<int> source(0, [&](int v) { last = v; total = v; });
        tc::sdk::event_dispatcher d;
        tc::sdk::thread_pool tp;
        tc::sdk::task_scheduler s;
        tc::sdk::high_precision_timer t;
        d.add_handler<int>("made", [&](int v) { source = v; });
        std::atomic<bool> done{false};
        std::vector<int> got;
        std::thread consumer([&] {
            for (;;)
            {
                const int v = queue.pop();
                if (v < 0)
                    return;
                got.push_back(v);
                if (v % 3 == 0)
                    ds::sleep_for(200'000);
            }
        });
        d.start((unsigned)r.in(1, 2));
        tp.start((unsigned)r.in(1, 3));
        s.start((unsigned)r.in(1, 2));
        auto produce = [&] {
            const int v = made.fetch_add(1) + 1;
            tp.run([&, v] {
                if (!d.emit<int>("made", v))
                    hx::fail("emit-result", "emit() of an event with a handler returned false");
            });
        };
        t.set_callback(produce);
        const bool timer = r.chance(60);
        if (timer)
            t.start(ns((int64_t)r.in(300, 3000) * 1000));
        s.every("source", ns((int64_t)r.in(300, 3000) * 1000), produce);
        const int k = (int)r.below(5);
        for (int i = 0; i < k; ++i)
            s.in(ns((int64_t)r.below(6 * MS)), produce);
        ds::sleep_for(r.in(6, 15) * MS);
        t.stop();
        s.stop();
        ds::wait_quiescent(true);
        d.stop();
        tp.stop();
        queue.push(-1);
        consumer.join();
        sources = (uint64_t)made.load();
        popped = got.size();
        std::sort(got.begin(), got.end());
        for (size_t i = 0; i < got.size(); ++i)
            if (got[i] != (int)i + 1)
                hx::fail("conservation", hx::cat("value ", i + 1, " is missing or doubled at the end of the chain (", got.size(), " values of ", sources, ")"));
        if (popped != sources)
            hx::fail("conservation", hx::cat(sources, " values were made, ", popped, " arrived at the end of the chain"));
    });
    hx::count("values_through_the_chain", popped);
    hx::state(ds::trace_hash());
}

// --------------------------------------------------------------------------------------- locator and singletons
struct clock_service
{
    virtual ~clock_service() = default;
    virtual int now() const = 0;
};
struct log_service
{
    virtual ~log_service() = default;
    virtual int lines() const = 0;
};
struct user_service
{
    virtual ~user_service() = default;
    virtual int sum() const = 0;
};
struct fixed_clock : clock_service
{
    int v;
    explicit fixed_clock(int x) : v(x) {}
    int now() const override { return v; }
};
struct counting_log : log_service
{
    std::shared_ptr<clock_service> c;
    counting_log() : c(tc::sdk::service_locator::instance().get<clock_service>()) {}
    int lines() const override { return c ? c->now() * 2 : -1; }
};
struct wired_user : user_service
{
    // registers what it needs, unless it is there
    bool made_clock = false, made_log = false;
    int base;
    explicit wired_user(int b) : base(b)
    {
        auto& l = tc::sdk::service_locator::instance();
        if (!l.is_registered<clock_service>())
            made_clock = l.register_service<clock_service, fixed_clock>(b);
        if (!l.is_registered<log_service>())
            made_log = l.register_service<log_service, counting_log>();
        if (l.is_registered<user_service>())
            base = -base;
    }
    int sum() const override
    {
        auto& l = tc::sdk::service_locator::instance();
        auto c = l.get<clock_service>();
        auto g = l.get<log_service>();
        return base + (c ? c->now() : 0) + (g ? g->lines() : 0);
    }
};
void wiring_iter(uint64_t seed)
{
    hx::rng r(seed);
    auto& l = tc::sdk::service_locator::instance();
    l.unregister<clock_service>();
    l.unregister<log_service>();
    l.unregister<user_service>();
    const int steps = (int)r.in(1, 12);
    std::optional<int> clk, lines, user;
    uint64_t h = 0;
    for (int i = 0; i < steps; ++i)
    {
        const int v = (int)r.in(1, 1000), op = (int)r.below(6);
        h = hx::hash64(h, (uint64_t)op);
        switch (op)
        {
        case 0:
            if (l.register_service<clock_service, fixed_clock>(v) == clk.has_value())
                hx::fail("register-result", "register_service() result");
            if (!clk)
                clk = v;
            break;
        case 1:
            if (l.register_service<log_service, counting_log>() == lines.has_value())
                hx::fail("register-result", "register_service() result");
            if (!lines)
                lines = clk ? *clk * 2 : -1;
            break;
        case 2:
        case 3:
        {
            if (l.register_service<user_service, wired_user>(v) == user.has_value())
                hx::fail("register-result", "register_service() of a service that registers others returned the wrong result");
            // the object may or may not be constructed when the type is registered already
            if (!user || (!clk && l.is_registered<clock_service>()) || (!lines && l.is_registered<log_service>()))
            {
                if (!clk)
                    clk = v;
                if (!lines)
                    lines = *clk * 2;
            }
            if (!user)
                user = v;
            hx::count("services_registering_services");
            break;
        }
        case 4: if (l.unregister<clock_service>() != clk.has_value()) hx::fail("unregister-result", "unregister() result"); clk.reset(); break;
        default: if (l.unregister<user_service>() != user.has_value()) hx::fail("unregister-result", "unregister() result"); user.reset(); break;
        }
        auto c = l.get<clock_service>();
        auto g = l.get<log_service>();
        auto u = l.get<user_service>();
        if ((c != nullptr) != clk.has_value() || (c && c->now() != *clk))
            hx::fail("wrong-service", "get() of the first service");
        if ((g != nullptr) != lines.has_value() || (g && g->lines() != *lines))
            hx::fail("wrong-service", "get() of a service that uses another one");
        if ((u != nullptr) != user.has_value() || (u && u->sum() != *user + clk.value_or(0) + lines.value_or(0)))
            hx::fail("wrong-service", "get() of a service that registers others");
    }
    hx::state(h);
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
        {"pool", pool_iter},
        {"burst", burst_iter},
        {"sched", sched_iter},
        {"disp", disp_iter},
        {"timer", timer_iter},
        {"chain", chain_iter},
        {"wiring", wiring_iter},
    });
}
