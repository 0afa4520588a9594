// C39: components own what they are given exactly as long as it is needed. Tokens are put into callables, arguments, handlers
// and items; every construction and destruction is recorded, and whenever a component is idle the tokens alive are compared
// with what is still queued, scheduled or registered.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>

#include <array>
#include <chrono>
#include <future>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace
{
using ns = std::chrono::nanoseconds;
using namespace tc::sdk;
constexpr int MAXT = 1000, ALIVE = 100, USED = ALIVE + MAXT, DEAD_USE = 60, NEXT = 61;
static_assert(USED + MAXT < rec::NVARS);

int new_token() { return (int)rec::inc(NEXT); }
// an object with an identity; all its copies and moved-to objects count
class token
{
    int id_;
    uint32_t canary;
    std::unique_ptr<int> heap; // lost if it is never destroyed, freed twice if destroyed twice
    static constexpr uint32_t GOOD = 0x600DF00D;

public:
    explicit token(int id) : id_(id), canary(GOOD), heap(std::make_unique<int>(id)) { rec::inc(ALIVE + id_); }
    token(const token& o) : token(o.id()) {}
    token(token&& o) noexcept : token(o.id()) {}
    token& operator=(const token& o)
    {
        const int n = o.id();
        check();
        rec::inc(ALIVE + id_, -1);
        id_ = n;
        *heap = n;
        rec::inc(ALIVE + id_);
        return *this;
    }
    ~token()
    {
        check();
        canary = 0xDEAD;
        rec::inc(ALIVE + id_, -1);
    }
    void check() const
    {
        if (canary != GOOD || *heap != id_)
            hx::fail("used-after-destruction", hx::cat("token ", id_, " is used or destroyed after its destruction"));
    }
    int id() const
    {
        check();
        return id_;
    }
    void use() const
    {
        check();
        rec::inc(USED + id_);
        ds::point();
        check(); // still there
    }
    bool operator==(const token& o) const { return id() == o.id(); }
};
bool alive(int id) { return rec::get(ALIVE + id) > 0; }
std::string list(const std::set<int>& s)
{
    std::string o;
    for (int i : s)
        o += hx::cat(i, " ");
    return o;
}
// allowed: tokens that must be alive; maybe: tokens that may be
void compare(const char* where, const std::set<int>& must, const std::set<int>& maybe = {}, int64_t most = 1 << 20)
{
    std::set<int> lost, kept;
    for (int i = 1; i <= (int)rec::get(NEXT); ++i)
    {
        if (alive(i) && !must.count(i) && !maybe.count(i))
            kept.insert(i);
        if (!alive(i) && must.count(i))
            lost.insert(i);
        if (rec::get(ALIVE + i) > most)
            hx::fail(hx::cat("copies-pile-up:", where), hx::cat("there are ", rec::get(ALIVE + i), " copies of token ", i));
    }
    if (!kept.empty())
        hx::fail(hx::cat("not-released:", where), hx::cat("tokens still alive although nothing can use them: ", list(kept)));
    if (!lost.empty())
        hx::fail(hx::cat("released-early:", where), hx::cat("tokens destroyed although they are still needed: ", list(lost)));
    hx::count("idle_states_compared");
}
void begin() { rec::reset(); }
void finish(uint64_t seed, const std::string& what)
{
    hx::count("tokens", (uint64_t)rec::get(NEXT));
    hx::state(hx::hash64(ds::trace_hash(), seed));
    if (hx::want_sample())
        hx::sample(hx::cat(what, ": ", rec::get(NEXT), " tokens, ", ds::switches(), " switches"));
}

void pool_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    ds::run(cfg, [&] {
        begin();
        auto pool = std::make_unique<thread_pool>();
        std::vector<std::future<int>> futures; // a future may keep its task's state
        std::set<int> with_future, queued;
        bool running = false;
        int steps = (int)r.in(3, 12);
        for (int k = 0; k < steps; ++k)
        {
            switch (r.below(8))
            {
            case 0: running |= pool->start((unsigned)r.in(1, 3)); break;
            case 1:
                // work that is still waiting for a thread when the pool is stopped, and is dropped then
                for (int i = running && r.chance(60) ? (int)r.in(1, 8) : 0; i > 0; --i)
                {
                    const int a = new_token(), b = new_token();
                    auto f = pool->run([c = token(a), len = r.below(2'000'000)](const token& x) { c.use(); ds::sleep_for(len); x.use(); return 0; }, token(b));
                    if (r.chance(30))
                    {
                        futures.push_back(std::move(f));
                        with_future.insert({a, b});
                    }
                    hx::count("tasks_waiting_at_stop");
                }
                if (pool->stop())
                {
                    running = false;
                    queued.clear();
                }
                break;
            case 2:
                futures.clear();
                with_future.clear();
                break;
            default: {
                const int nt = (int)r.in(1, 3);
                std::vector<std::thread> th;
                std::vector<std::vector<std::pair<std::future<int>, std::set<int>>>> got((size_t)nt);
                for (int t = 0; t < nt; ++t)
                    th.emplace_back([&, t] {
                        hx::rng rr(seed * 7 + (uint64_t)(t + 16 * k));
                        for (int i = 0, n = (int)rr.in(1, 3); i < n; ++i)
                        {
                            const int a = new_token(), b = new_token();
                            const bool bad = rr.chance(20);
                            auto f = [c = token(a), bad](const token& x) { c.use(); x.use(); if (bad) throw 1; return c.id() + x.id(); };
                            if (rr.chance(50))
                                got[(size_t)t].emplace_back(pool->run(f, token(b)), std::set<int>{a, b});
                            else
                            {
                                token tb(b);
                                got[(size_t)t].emplace_back(pool->run(std::move(f), tb), std::set<int>{a, b});
                            }
                        }
                    });
                for (auto& t : th)
                    t.join();
                for (auto& g : got)
                    for (auto& [f, ids] : g)
                    {
                        if (r.chance(30))
                        {
                            futures.push_back(std::move(f));
                            with_future.insert(ids.begin(), ids.end());
                        }
                        queued.insert(ids.begin(), ids.end());
                        f = std::future<int>();
                    }
            }
            }
            ds::wait_quiescent(false);
            if (running)
                queued.clear(); // everything has been executed
            compare(running ? "running pool" : "stopped pool", queued, with_future);
        }
        if (r.chance(50))
            pool.reset();
        futures.clear();
        if (pool)
        {
            compare(running ? "running pool" : "stopped pool", queued);
            pool.reset();
        }
        compare("destroyed pool", {});
        finish(seed, "thread_pool");
    });
}

void scheduler_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.nprocs = 4;
    ds::run(cfg, [&] {
        begin();
        auto s = std::make_unique<task_scheduler>();
        s->start((unsigned)r.in(1, 3));
        struct entry
        {
            std::set<int> ids;
            uint64_t due;
            bool periodic;
        };
        std::map<std::string, entry> model;
        std::vector<std::future<int>> futures;
        std::set<int> with_future;
        int64_t most = 6; // copies of one token: a callable may be copied on its way in, but not with every execution
        for (int k = 0, steps = (int)r.in(4, 16), name = 0; k < steps; ++k)
        {
            const int a = new_token(), b = new_token();
            switch (r.below(9))
            {
            case 0:
            case 1: {
                const std::string n = r.chance(30) && !model.empty() ? model.begin()->first : hx::cat("t", name++);
                const uint64_t d = r.below(5'000'000);
                const bool bad = r.chance(20);
                auto f = s->in(std::string(n), ns(d), [c = token(a), bad](const token& x) { c.use(); x.use(); if (bad) throw 1; return 0; }, token(b));
                if (f)
                {
                    model[n] = {{a, b}, ds::now() + d, false};
                    if (r.chance(30))
                    {
                        futures.push_back(std::move(*f));
                        with_future.insert({a, b});
                    }
                }
                break;
            }
            case 2:
            case 3: {
                const std::string n = r.chance(30) && !model.empty() ? model.begin()->first : hx::cat("t", name++);
                if (s->every(std::string(n), ns(r.in(200'000, 2'000'000)), ns(r.below(3'000'000)), [c = token(a)](const token& x) { c.use(); x.use(); }, token(b)))
                    model[n] = {{a, b}, 0, true};
                break;
            }
            case 4:
                if (!model.empty())
                {
                    auto it = model.begin();
                    std::advance(it, (long)r.below(model.size()));
                    if (s->remove_task(it->first))
                        model.erase(it);
                }
                break;
            case 5:
                if (!model.empty())
                {
                    auto it = model.begin();
                    std::advance(it, (long)r.below(model.size()));
                    if (r.chance(50))
                        s->set_enabled(it->first, r.chance(50));
                    else
                        s->update_interval(it->first, ns(r.in(200'000, 2'000'000)));
                }
                break;
            case 6:
                futures.clear();
                with_future.clear();
                break;
            case 7:
                if (r.chance(30))
                {
                    // work that is waiting for a thread of the pool
                    for (int i = r.chance(60) ? (int)r.in(1, 8) : 0; i > 0; --i)
                    {
                        const int c = new_token();
                        s->in(ns(0), [c = token(c), len = r.below(2'000'000)] { c.use(); ds::sleep_for(len); c.use(); });
                        hx::count("tasks_waiting_at_stop");
                    }
                    if (r.chance(50))
                        ds::sleep_for(r.below(100'000));
                    s->stop();
                    model.clear();
                    compare("stopped scheduler", {}, with_future);
                    s->start((unsigned)r.in(1, 3));
                }
                break;
            default: ds::sleep_for(r.below(6'000'000));
            }
            ds::wait_quiescent(false);
            // one-shot tasks that are due are gone; those whose time is close may be either
            std::set<int> must, maybe = with_future;
            for (auto it = model.begin(); it != model.end();)
            {
                auto& e = it->second;
                if (!e.periodic && !s->is_scheduled(it->first))
                {
                    if (e.due > ds::now())
                        hx::fail("one-shot-vanished", hx::cat("task ", it->first, " is no longer scheduled before it is due"));
                    it = model.erase(it);
                    continue;
                }
                must.insert(e.ids.begin(), e.ids.end());
                ++it;
            }
            ds::wait_quiescent(false);
            if (s->tasks_size() != model.size())
                continue; // one more has just become due
            compare("running scheduler", must, maybe, most);
        }
        const bool stop = r.chance(50);
        if (stop)
        {
            s->stop();
            compare("stopped scheduler", {}, with_future);
        }
        s.reset();
        compare("destroyed scheduler", {}, with_future);
        futures.clear();
        compare("destroyed scheduler", {});
        finish(seed, "task_scheduler");
    });
}

void dispatcher_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    ds::run(cfg, [&] {
        begin();
        auto d = std::make_unique<event_dispatcher>();
        std::map<unsigned long, std::pair<std::string, int>> handlers;
        std::set<int> undelivered; // emitted while stopped
        bool running = false;
        for (int k = 0, steps = (int)r.in(4, 16); k < steps; ++k)
        {
            const std::string n = hx::cat("event", r.below(3));
            const int a = new_token();
            switch (r.below(9))
            {
            case 0: running |= d->start((unsigned)r.in(1, 3)); break;
            case 1:
                if (r.chance(50))
                {
                    // deliveries that are waiting for a thread of the pool
                    if (running && r.chance(60))
                    {
                        const int h = new_token();
                        d->add_handler<token>("slow", [c = token(h), len = r.below(2'000'000)](const token& x) { c.use(); ds::sleep_for(len); x.use(); });
                        for (int i = (int)r.in(1, 8); i > 0; --i)
                        {
                            d->emit("slow", token(new_token()));
                            hx::count("deliveries_waiting_at_stop");
                        }
                    }
                    if (d->stop())
                        undelivered.clear();
                    else
                        for (auto& [id, h] : handlers) // deliveries that wait for a start
                            undelivered.insert(h.second);
                    running = false;
                    handlers.clear();
                }
                break;
            case 2:
            case 3: handlers[d->add_handler<token>(n, [c = token(a), bad = r.chance(20)](const token& x) { c.use(); x.use(); if (bad) throw 1; })] = {n, a}; break;
            case 4:
                if (!handlers.empty())
                {
                    auto it = handlers.begin();
                    std::advance(it, (long)r.below(handlers.size()));
                    d->remove_handler(it->first);
                    if (!running)
                        undelivered.insert(it->second.second); // may have deliveries waiting
                    handlers.erase(it);
                }
                break;
            case 5:
                if (r.chance(40))
                {
                    d->remove_event(n);
                    for (auto it = handlers.begin(); it != handlers.end();)
                        if (it->second.first == n)
                        {
                            if (!running)
                                undelivered.insert(it->second.second);
                            it = handlers.erase(it);
                        }
                        else
                            ++it;
                }
                break;
            default:
                if (r.chance(50))
                    d->emit(n, token(a));
                else
                {
                    token t(a);
                    d->emit(n, t);
                }
                if (!running)
                    undelivered.insert(a);
            }
            ds::wait_quiescent(false);
            if (running)
                undelivered.clear();
            std::set<int> must;
            for (auto& [id, h] : handlers)
                must.insert(h.second);
            compare(running ? "running dispatcher" : "stopped dispatcher", must, undelivered);
        }
        if (r.chance(50))
        {
            for (auto& [id, h] : handlers)
                undelivered.insert(h.second);
            if (d->stop())
                undelivered.clear();
            compare("stopped dispatcher", {}, undelivered);
        }
        d.reset();
        compare("destroyed dispatcher", {});
        finish(seed, "event_dispatcher");
    });
}

void queue_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    ds::run(cfg, [&] {
        begin();
        auto q = std::make_unique<blocking_queue<token>>((size_t)r.in(0, 4));
        for (int k = 0, steps = (int)r.in(2, 5); k < steps; ++k)
        {
            const int np = (int)r.in(1, 2), nc = (int)r.in(1, 2);
            std::vector<std::thread> th;
            std::vector<std::set<int>> in((size_t)np);
            for (int t = 0; t < np; ++t)
                th.emplace_back([&, t] {
                    hx::rng rr(seed * 3 + (uint64_t)(t + 8 * k));
                    for (int i = 0, n = (int)rr.in(0, 4); i < n; ++i)
                    {
                        const int a = new_token();
                        token x(a);
                        if (rr.chance(50) ? q->try_push(x) : q->try_push(token(a)))
                            in[(size_t)t].insert(a);
                    }
                });
            for (int t = 0; t < nc; ++t)
                th.emplace_back([&, t] {
                    hx::rng rr(seed * 5 + (uint64_t)(t + 8 * k));
                    for (int i = 0, n = (int)rr.in(0, 4); i < n; ++i)
                        if (auto x = q->try_pop())
                        {
                            x->use();
                            rec::set(USED + x->id(), -1); // taken
                        }
                });
            for (auto& t : th)
                t.join();
            std::set<int> must;
            for (int i = 1; i <= (int)rec::get(NEXT); ++i)
                if (alive(i))
                {
                    must.insert(i);
                    if (rec::get(USED + i) == -1)
                        hx::fail("not-released:queue", hx::cat("item ", i, " was taken out and is still alive"));
                    if (rec::get(ALIVE + i) != 1)
                        hx::fail("copies-pile-up:queue", hx::cat("there are ", rec::get(ALIVE + i), " copies of item ", i));
                }
            if (must.size() != q->size())
                hx::fail("not-released:queue", hx::cat("the queue has ", q->size(), " items and ", must.size(), " are alive"));
            compare("queue", must);
        }
        q.reset();
        compare("destroyed queue", {});
        finish(seed, "blocking_queue");
    });
}

void observable_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    ds::run(cfg, [&] {
        begin();
        const int cb = new_token(), first = new_token();
        auto o = [&] {
            return r.chance(50) ? std::make_unique<observable<token>>(token(first), [c = token(cb)](token x) { c.use(); x.use(); }) : [&] { token f(first); return std::make_unique<observable<token>>(f, [c = token(cb)](token x) { c.use(); x.use(); }); }();
        }();
        for (int k = 0, steps = (int)r.in(2, 6); k < steps; ++k)
        {
            std::vector<std::thread> th;
            for (int t = 0, nt = (int)r.in(1, 3); t < nt; ++t)
                th.emplace_back([&, t] {
                    hx::rng rr(seed * 3 + (uint64_t)(t + 8 * k));
                    for (int i = 0, n = (int)rr.in(0, 3); i < n; ++i)
                    {
                        const int a = rr.chance(20) ? (int)rr.in(1, rec::get(NEXT)) : new_token();
                        if (rr.chance(50))
                            *o = token(a);
                        else
                        {
                            token x(a);
                            *o = x;
                        }
                        if (rr.chance(30))
                            o->value().use();
                        if (rr.chance(20))
                            o->callback_enabled(rr.chance(50));
                    }
                });
            for (auto& t : th)
                t.join();
            const int now = o->value().id();
            compare("observable", {cb, now}, {}, 1 + (now == cb));
        }
        o.reset();
        compare("destroyed observable", {});
        finish(seed, "observable");
    });
}

void timer_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    ds::run(cfg, [&] {
        begin();
        auto t = std::make_unique<high_precision_timer>();
        int current = 0;
        bool running = false;
        for (int k = 0, steps = (int)r.in(3, 12); k < steps; ++k)
        {
            switch (r.below(5))
            {
            case 0:
            case 1: {
                const int a = new_token();
                auto f = [c = token(a)] { c.use(); };
                if (r.chance(50))
                    t->set_callback(f);
                else
                    t->set_callback(std::move(f));
                current = a;
                break;
            }
            case 2: running = t->start(ns(r.in(1000, 1'000'000))) || running; break;
            case 3:
                t->stop();
                running = false;
                break;
            default: ds::sleep_for((uint64_t)r.below(3'000'000));
            }
            ds::wait_quiescent(false);
            std::set<int> must;
            if (current)
                must.insert(current);
            compare(running ? "running timer" : "stopped timer", must, {}, 3);
        }
        t.reset();
        compare("destroyed timer", {});
        finish(seed, "high_precision_timer");
    });
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
                                     {"pool", pool_iter},
                                     {"scheduler", scheduler_iter},
                                     {"dispatcher", dispatcher_iter},
                                     {"queue", queue_iter},
                                     {"observable", observable_iter},
                                     {"timer", timer_iter},
                                 });
}
