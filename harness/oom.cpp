// C42: resource exhaustion. operator new of the calling thread fails at a chosen allocation (or the creation of a thread does, or
// copying an object of the user throws) while one call is executed; the call must either complete or throw and then have had no effect, and the component must go on
// working as a sequential model says.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/service_locator.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>

#include <chrono>
#include <cstdlib>
#include <deque>
#include <future>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <system_error>
#include <thread>
#include <vector>

namespace
{
thread_local long alloc_left = -1; // so many more allocations of this thread succeed, the next one fails
thread_local bool alloc_fired = false;
void* allocate(std::size_t n, std::size_t align)
{
    if (alloc_left >= 0 && alloc_left-- == 0)
    {
        alloc_fired = true;
        return nullptr;
    }
    return align ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
}
void* must(void* p)
{
    if (!p)
        throw std::bad_alloc();
    return p;
}
} // namespace
void* operator new(std::size_t n) { return must(allocate(n, 0)); }
void* operator new[](std::size_t n) { return must(allocate(n, 0)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return must(allocate(n, (std::size_t)a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return must(allocate(n, (std::size_t)a)); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { free(p); }

namespace
{
using ns = std::chrono::nanoseconds;
using namespace tc::sdk;
constexpr uint64_t S = 1'000'000'000, H = 3600 * S;
constexpr int RUNS = 100, MAXI = 1500, LIVE = 50, NEXT = 51;
static_assert(RUNS + MAXI < rec::NVARS);
const std::string PADDING = " some text that does not fit into a small string";

struct copy_failed
{
};
thread_local long copies_left = -1; // so many more copies made by this thread succeed, the next one throws
thread_local bool copy_fired = false;
struct token // counts the objects that exist
{
    token() { rec::inc(LIVE); }
    token(const token&)
    {
        if (copies_left >= 0 && copies_left-- == 0)
        {
            copy_fired = true;
            throw copy_failed();
        }
        rec::inc(LIVE);
    }
    token(token&&) noexcept { rec::inc(LIVE); }
    token& operator=(const token&) { return *this; }
    ~token() { rec::inc(LIVE, -1); }
};
int64_t live() { return rec::get(LIVE); }
int new_id()
{
    const int id = (int)rec::inc(NEXT);
    if (id >= MAXI)
        hx::abandon("too many ids");
    return id;
}
int64_t runs(int id) { return rec::get(RUNS + id); }
void run_once(int id) { rec::inc(RUNS + id); }

bool fired = false; // did the last attempt meet a failure
std::string log_;
void say(const std::string& s)
{
    if (hx::verbose())
        fprintf(stderr, "%s\n", s.c_str());
    if (log_.size() < 3000)
        log_ += s + "; ";
}
// Executes f while an allocation or the creation of a thread fails; false: it threw.
enum what_t
{
    NOTHING,
    MEMORY,
    THREAD,
    COPY
};
template <class F>
bool attempt(hx::rng& r, what_t what, const char* name, F f)
{
    const long at = what == NOTHING ? -1 : what == THREAD ? (long)r.below(5) : what == COPY ? (long)r.below(3) : r.chance(50) ? (long)r.below(4) : (long)r.below(14);
    fired = false;
    bool threw = false;
    alloc_fired = copy_fired = false;
    if (what == THREAD)
        ds::fail_thread_creation(at);
    if (what == MEMORY)
        alloc_left = at;
    if (what == COPY)
        copies_left = at;
    try
    {
        f();
        alloc_left = copies_left = -1;
    }
    catch (const copy_failed&)
    {
        threw = true;
        hx::count("copies_failed");
    }
    catch (const std::bad_alloc&)
    {
        alloc_left = -1;
        threw = true;
    }
    catch (const std::system_error& e)
    {
        alloc_left = -1;
        threw = true;
        if (what != THREAD && !alloc_fired)
            hx::fail(hx::cat("foreign-exception:", name), hx::cat(log_, name, " threw ", e.what()));
    }
    catch (const std::exception& e)
    {
        alloc_left = -1;
        hx::fail(hx::cat("foreign-exception:", name), hx::cat(log_, name, " threw ", e.what()));
    }
    alloc_left = copies_left = -1;
    ds::fail_thread_creation(-1);
    fired = alloc_fired || copy_fired || (what == THREAD && threw);
    hx::count(fired ? threw ? "calls_failed" : "failures_absorbed" : "calls_unharmed");
    if (fired && what == THREAD)
        hx::count("thread_creations_failed");
    say(hx::cat(name, what == MEMORY ? hx::cat(" [allocation ", at, " fails]") : what == THREAD ? hx::cat(" [thread ", at, " fails]") : what == COPY ? hx::cat(" [copy ", at, " throws]") : std::string(), threw ? " threw" : " completed"));
    if (threw && what == NOTHING)
        hx::fail(hx::cat("failed-for-nothing:", name), log_);
    return !threw;
}
what_t memory(hx::rng& r) { return r.chance(45) ? MEMORY : r.chance(45) ? COPY : NOTHING; }
what_t any(hx::rng& r) { return r.chance(35) ? MEMORY : r.chance(50) ? THREAD : NOTHING; }
[[noreturn]] void bad(const std::string& key, const std::string& d) { hx::fail(key, log_ + " => " + d); }
void must_complete(bool completed, const char* name)
{
    if (!completed)
        bad(hx::cat("cannot-fail:", name), hx::cat(name, " failed for lack of resources"));
}
void threads_are(int n, const char* where)
{
    ds::wait_quiescent(false);
    if (const int a = ds::alive_count(); a != n)
        bad(hx::cat("threads-left:", where), hx::cat(a, " threads exist instead of ", n));
}
void begin()
{
    rec::reset();
    log_.clear();
}
void finish(uint64_t seed, const char* what)
{
    if (live() != 0)
        bad(hx::cat("not-released:", what), hx::cat(live(), " objects are left at the end"));
    hx::state(hx::hash64(hx::hash64(ds::trace_hash(), hx::hash_str(log_)), seed));
    if (hx::want_sample())
        hx::sample(hx::cat(what, ": ", log_.substr(0, 300)));
}
ds::config conf(uint64_t seed)
{
    ds::config c = ds::random_config(seed);
    c.wall_permille = 0;
    c.timejump_permille = 0;
    return c;
}

struct item
{
    std::string text;
    token t;
    bool operator==(const item& o) const { return text == o.text; }
};
void queue_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::run(conf(seed), [&] {
        begin();
        {
            const size_t cap = r.pick({1, 2, 5, 40, 200});
            auto q = std::make_unique<blocking_queue<item>>(cap);
            std::deque<int> model;
            auto make = [](int id) { return item{hx::cat(id, PADDING), {}}; };
            auto expect = [&](const item& i) {
                if (model.empty() || i.text != make(model.front()).text)
                    bad("wrong-item", hx::cat("got ", i.text));
                model.pop_front();
            };
            for (int k = 0, n = (int)r.in(4, 40); k < n; ++k)
            {
                const int64_t before = live();
                const size_t op = r.below(10);
                if (op < 6 && model.size() < cap)
                {
                    const int id = new_id();
                    {
                        item i = make(id);
                        bool pushed = true, done;
                        switch (r.below(4))
                        {
                        case 0: done = attempt(r, memory(r), "push(const&)", [&] { q->push(i); }); break;
                        case 1: done = attempt(r, memory(r), "push(&&)", [&] { q->push(std::move(i)); }); break;
                        case 2: done = attempt(r, memory(r), "try_push(const&)", [&] { pushed = q->try_push(i); }); break;
                        default: done = attempt(r, memory(r), "try_push(&&)", [&] { pushed = q->try_push(std::move(i)); }); break;
                        }
                        if (!pushed)
                            bad("refused", "try_push refused although there is room");
                        if (done)
                            model.push_back(id);
                    }
                }
                else if (op < 8 && !model.empty())
                {
                    std::optional<item> out;
                    const bool blocking = r.chance(50);
                    const bool done = blocking ? attempt(r, memory(r), "pop", [&] { item i = q->pop(); alloc_left = copies_left = -1; out.emplace(std::move(i)); }) : attempt(r, memory(r), "try_pop", [&] { auto i = q->try_pop(); alloc_left = copies_left = -1; out = std::move(i); });
                    if (done && !out)
                        bad("empty", "try_pop found nothing");
                    if (done)
                        expect(*out);
                }
                else if (op == 8 && model.empty())
                {
                    // somebody waits for an item: a push that fails must not wake it to nothing, nor keep it from being woken later
                    const int id = new_id();
                    std::string got;
                    std::thread consumer([&] { got = q->pop().text; });
                    ds::wait_quiescent(false);
                    const item i = make(id);
                    while (!attempt(r, memory(r), "push to a waiting consumer", [&] { q->push(i); }))
                        ;
                    consumer.join();
                    if (got != i.text)
                        bad("wrong-item", hx::cat("the consumer got ", got));
                    hx::count("waiting_consumers");
                }
                else if (op == 9 && model.size() == cap)
                {
                    const int id = new_id();
                    std::thread producer([&] { q->push(make(id)); });
                    ds::wait_quiescent(false);
                    std::optional<item> out;
                    while (!attempt(r, memory(r), "pop from under a waiting producer", [&] { item i = q->pop(); alloc_left = copies_left = -1; out.emplace(std::move(i)); }))
                        ;
                    producer.join();
                    expect(*out);
                    model.push_back(id);
                    hx::count("waiting_producers");
                }
                if (q->size() != model.size())
                    bad("wrong-size", hx::cat("size() is ", q->size(), " instead of ", model.size()));
                if (live() != (int64_t)model.size())
                    bad("not-released:queue", hx::cat(live(), " items exist, ", model.size(), " are queued (", before, " before)"));
            }
            while (!model.empty())
                expect(q->pop());
        }
        finish(seed, "queue");
    });
}

void pool_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::run(conf(seed), [&] {
        begin();
        {
            auto p = std::make_unique<thread_pool>();
            int threads = 0;
            std::vector<int> queued; // while it is not running
            std::vector<std::pair<int, std::future<int>>> futures;
            std::vector<int> done, never;
            for (int k = 0, n = (int)r.in(4, 24); k < n; ++k)
            {
                const size_t op = r.below(10);
                if (op < 2)
                {
                    const bool was = threads > 0;
                    bool res = false;
                    const unsigned want = (unsigned)r.in(1, 6);
                    if (attempt(r, was ? memory(r) : any(r), "start", [&] { res = p->start(want); }))
                    {
                        if (res == was)
                            bad("start-result", hx::cat("start() returned ", res));
                        if (!was)
                        {
                            threads = (int)p->threads_count();
                            if (threads < 1 || threads > (int)want)
                                bad("threads-count", hx::cat(threads, " threads instead of at most ", want));
                            done.insert(done.end(), queued.begin(), queued.end());
                            queued.clear();
                        }
                    }
                }
                else if (op < 4)
                {
                    futures.clear(); // a broken promise needs memory
                    bool res = false;
                    must_complete(attempt(r, memory(r), "stop", [&] { res = p->stop(); }), "stop");
                    if (res != (threads > 0))
                        bad("stop-result", hx::cat("stop() returned ", res));
                    if (threads > 0)
                    {
                        never.insert(never.end(), queued.begin(), queued.end());
                        queued.clear();
                    }
                    threads = 0;
                }
                else
                {
                    const int id = new_id();
                    std::future<int> f;
                    const std::string text = PADDING;
                    auto task = [id, t = token(), s = r.chance(50) ? PADDING : std::string()](const std::string& a) {
                        run_once(id);
                        return id + (int)a.size() * 0;
                    };
                    if (attempt(r, memory(r), "run", [&] { f = p->run(task, text); }))
                    {
                        if (threads)
                            done.push_back(id);
                        else
                            queued.push_back(id);
                        if (r.chance(30))
                            futures.emplace_back(id, std::move(f));
                    }
                    else
                        never.push_back(id);
                }
                threads_are(threads, "thread_pool");
                if (p->is_running() != (threads > 0) || (int)p->threads_count() != threads)
                    bad("state", hx::cat("is_running() = ", p->is_running(), ", threads_count() = ", p->threads_count(), ", expected ", threads, " threads"));
                for (int id : done)
                    if (runs(id) != 1)
                        bad("not-once", hx::cat("task ", id, " ran ", runs(id), " times"));
                for (int id : never)
                    if (runs(id) != 0)
                        bad("ran-after-failure", hx::cat("task ", id, " was executed although run() failed or stop() dropped it"));
                for (int id : queued)
                    if (runs(id) != 0)
                        bad("ran-while-stopped", hx::cat("task ", id));
                if (futures.empty() && live() != (int64_t)queued.size())
                    bad("not-released:thread_pool", hx::cat(live(), " callables exist, ", queued.size(), " tasks are queued"));
            }
            for (auto& [id, f] : futures)
                if (runs(id) == 1 && f.get() != id)
                    bad("wrong-result", hx::cat("task ", id));
            futures.clear();
            if (r.chance(50))
            {
                // the destructor is stop()
                alloc_fired = false;
                alloc_left = (long)r.below(3);
                p.reset();
                alloc_left = -1;
                hx::count(alloc_fired ? "failures_absorbed" : "calls_unharmed");
            }
        }
        threads_are(0, "destroyed thread_pool");
        finish(seed, "pool");
    });
}

void scheduler_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config c = conf(seed);
    ds::run(c, [&] {
        begin();
        {
            auto s = std::make_unique<task_scheduler>();
            struct task_t
            {
                int id;
                std::string name;
                uint64_t interval; // 0: once
                bool enabled;
            };
            std::vector<task_t> tasks;
            std::vector<int> never;
            int threads = 0; // of the pool
            auto find = [&](const std::string& n) {
                for (auto it = tasks.begin(); it != tasks.end(); ++it)
                    if (it->name == n)
                        return it;
                return tasks.end();
            };
            for (int k = 0, n = (int)r.in(4, 30); k < n; ++k)
            {
                const size_t op = r.below(20);
                const std::string name = hx::cat((char)('a' + r.below(6)), PADDING);
                auto it = find(name);
                if (op < 2)
                {
                    bool res = false;
                    const bool was = threads > 0;
                    const unsigned want = (unsigned)r.in(1, 4);
                    if (attempt(r, was ? memory(r) : any(r), "start", [&] { res = s->start(want); }))
                    {
                        if (res == was)
                            bad("start-result", hx::cat("start() returned ", res));
                        ds::wait_quiescent(false);
                        threads = was ? threads : ds::alive_count();
                    }
                }
                else if (op < 3)
                {
                    bool res = false;
                    must_complete(attempt(r, memory(r), "stop", [&] { res = s->stop(); }), "stop");
                    if (res != (threads > 0))
                        bad("stop-result", hx::cat("stop() returned ", res));
                    threads = 0;
                    for (auto& t : tasks)
                        never.push_back(t.id);
                    tasks.clear();
                }
                else if (op < 10)
                {
                    const int id = new_id();
                    const uint64_t delay = (uint64_t)r.in(1, 5) * H, interval = r.chance(50) ? (uint64_t)r.in(1, 5) * H : 0;
                    const bool named = interval || r.chance(70), fresh = !named || it == tasks.end();
                    auto fn = [id, t = token()](const std::string&) { run_once(id); };
                    bool accepted = false;
                    // refusing a task breaks its promise, which needs memory
                    const what_t w = threads && fresh ? memory(r) : NOTHING;
                    bool done;
                    if (interval)
                        done = attempt(r, w, "every", [&] { accepted = s->every(std::string(name), ns(interval), ns(delay), fn, PADDING); });
                    else if (named && r.chance(50))
                        done = attempt(r, w, "in", [&] { accepted = s->in(std::string(name), ns(delay), fn, PADDING).has_value(); });
                    else if (named)
                        done = attempt(r, w, "at", [&] { accepted = s->at(std::string(name), tc::sdk::clock::now() + ns(delay), fn, PADDING).has_value(); });
                    else
                        done = attempt(r, w, "in", [&] { accepted = s->in(ns(delay), fn, PADDING).has_value(); });
                    if (done && accepted != (threads && fresh))
                        bad("accepted", hx::cat("a task was ", accepted ? "accepted" : "refused"));
                    if (accepted)
                        tasks.push_back({id, named ? name : std::string(), interval, true});
                    else
                        never.push_back(id);
                }
                else if (op < 12)
                {
                    bool res = false;
                    if (attempt(r, memory(r), "remove_task", [&] { res = s->remove_task(name); }))
                    {
                        if (res != (it != tasks.end()))
                            bad("remove-result", hx::cat("remove_task() returned ", res));
                        if (res)
                        {
                            never.push_back(it->id);
                            tasks.erase(it);
                        }
                    }
                }
                else if (op < 14)
                {
                    bool res = false;
                    const bool on = r.chance(50);
                    if (attempt(r, memory(r), "set_enabled", [&] { res = s->set_enabled(name, on); }))
                    {
                        if (res != (it != tasks.end()))
                            bad("set-enabled-result", hx::cat("set_enabled() returned ", res));
                        if (res)
                            it->enabled = on;
                    }
                }
                else if (op < 18)
                {
                    bool res = false;
                    const uint64_t interval = (uint64_t)r.in(1, 5) * H;
                    if (attempt(r, memory(r), "update_interval", [&] { res = s->update_interval(name, ns(interval)); }))
                    {
                        if (res != (it != tasks.end() && it->interval))
                            bad("update-result", hx::cat("update_interval() returned ", res));
                        if (res)
                            it->interval = interval;
                    }
                }
                else
                {
                    bool a = false, b = false;
                    std::optional<tc::sdk::clock::duration> i;
                    size_t n_ = 0;
                    if (attempt(r, memory(r), "queries", [&] { a = s->is_scheduled(name); b = s->is_enabled(name); i = s->get_interval(name); n_ = s->tasks_size(); }) && n_ != tasks.size())
                        bad("tasks-size", hx::cat(n_, " instead of ", tasks.size()));
                }
                // state
                ds::wait_quiescent(false);
                threads_are(threads, "task_scheduler");
                if (s->tasks_size() != tasks.size())
                    bad("tasks-size", hx::cat("tasks_size() = ", s->tasks_size(), " instead of ", tasks.size()));
                for (char x = 'a'; x <= 'f'; ++x)
                {
                    const std::string m = x + PADDING;
                    const auto t = find(m);
                    const auto i = s->get_interval(m);
                    if (s->is_scheduled(m) != (t != tasks.end()) || s->is_enabled(m) != (t != tasks.end() && t->enabled) || (i ? (uint64_t)i->count() : 0) != (t != tasks.end() ? t->interval : 0))
                        bad("task-state", hx::cat("task ", x, " is ", s->is_scheduled(m) ? "" : "not ", "scheduled, ", s->is_enabled(m) ? "" : "not ", "enabled, interval ", i ? i->count() : 0));
                }
                for (int id : never)
                    if (runs(id))
                        bad("ran-after-failure", hx::cat("task ", id, " was executed although scheduling it failed or it was removed"));
                if (live() != (int64_t)tasks.size())
                    bad("not-released:task_scheduler", hx::cat(live(), " callables exist, ", tasks.size(), " tasks are scheduled"));
            }
            if (threads && r.chance(70))
            {
                ds::sleep_for(11 * H);
                ds::wait_quiescent(false);
                for (auto& t : tasks)
                    if (const int64_t x = runs(t.id); t.enabled ? t.interval ? x < 1 : x != 1 : x != 0)
                        bad("due-task", hx::cat("task ", t.id, " (interval ", t.interval / H, " h, ", t.enabled ? "enabled" : "disabled", ") ran ", x, " times in 11 h"));
                for (int id : never)
                    if (runs(id))
                        bad("ran-after-failure", hx::cat("task ", id, " was executed although scheduling it failed or it was removed"));
                hx::count("due_tasks", tasks.size());
            }
            alloc_fired = false;
            alloc_left = (long)r.below(3);
            s.reset();
            alloc_left = -1;
        }
        threads_are(0, "destroyed task_scheduler");
        finish(seed, "scheduler");
    });
}

void dispatcher_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::run(conf(seed), [&] {
        begin();
        {
            auto d = std::make_unique<event_dispatcher>();
            struct handler_t
            {
                unsigned long hid;
                int id;
                std::string event;
                int64_t least, most;
            };
            std::vector<handler_t> hs, gone;
            const token argument;
            int threads = 0;
            for (int k = 0, n = (int)r.in(4, 30); k < n; ++k)
            {
                const size_t op = r.below(12);
                const std::string event = hx::cat((char)('a' + r.below(3)), PADDING);
                if (op < 2)
                {
                    bool res = false;
                    const bool was = threads > 0;
                    const unsigned want = (unsigned)r.in(1, 4);
                    if (attempt(r, was ? memory(r) : any(r), "start", [&] { res = d->start(want); }))
                    {
                        if (res == was)
                            bad("start-result", hx::cat("start() returned ", res));
                        ds::wait_quiescent(false);
                        threads = was ? threads : ds::alive_count();
                    }
                }
                else if (op < 3)
                {
                    bool res = false;
                    must_complete(attempt(r, memory(r), "stop", [&] { res = d->stop(); }), "stop");
                    if (res != (threads > 0))
                        bad("stop-result", hx::cat("stop() returned ", res));
                    threads = 0;
                    gone.insert(gone.end(), hs.begin(), hs.end());
                    hs.clear();
                }
                else if (op < 6)
                {
                    const int id = new_id();
                    unsigned long hid = 0;
                    auto fn = [id, t = token(), s = r.chance(50) ? PADDING : std::string()](int, std::string, token) { run_once(id); };
                    if (attempt(r, memory(r), "add_handler", [&] { hid = d->add_handler<int, std::string, token>(event, std::move(fn)); }))
                        hs.push_back({hid, id, event, 0, 0});
                    else
                        gone.push_back({0, id, event, 0, 0});
                }
                else if (op < 7 && !hs.empty())
                {
                    const size_t i = r.below(hs.size());
                    bool res = false;
                    const auto hid = hs[i].hid;
                    if (attempt(r, memory(r), "remove_handler", [&] { res = d->remove_handler(hid); }))
                    {
                        if (!res)
                            bad("remove-result", "remove_handler() returned false");
                        gone.push_back(hs[i]);
                        hs.erase(hs.begin() + (long)i);
                    }
                }
                else if (op < 8)
                {
                    bool res = false, any_ = false;
                    if (attempt(r, memory(r), "remove_event", [&] { res = d->remove_event(event); }))
                    {
                        for (size_t i = hs.size(); i-- > 0;)
                            if (hs[i].event == event)
                            {
                                any_ = true;
                                gone.push_back(hs[i]);
                                hs.erase(hs.begin() + (long)i);
                            }
                        if (res != any_)
                            bad("remove-result", hx::cat("remove_event() returned ", res));
                    }
                }
                else if (threads)
                {
                    bool res = false, any_ = false;
                    const bool done = attempt(r, memory(r), "emit", [&] { res = d->emit<int, std::string, token>(event, 1, PADDING, argument); });
                    bool before = true; // a failed emit may have reached the first handlers
                    ds::wait_quiescent(false);
                    for (auto& h : hs)
                        if (h.event == event)
                        {
                            any_ = true;
                            const bool got = runs(h.id) == h.most + 1;
                            if (done || (got && before))
                            {
                                ++h.least;
                                ++h.most;
                            }
                            before = before && got;
                        }
                    if (done && res != any_)
                        bad("emit-result", hx::cat("emit() returned ", res, " for an event with", any_ ? "" : "out", " handlers"));
                    if (done)
                        hx::count("emits");
                }
                ds::wait_quiescent(false);
                threads_are(threads, "event_dispatcher");
                for (auto* v : {&hs, &gone})
                    for (auto& h : *v)
                        if (runs(h.id) != h.least)
                            bad("deliveries", hx::cat("handler ", h.id, " was called ", runs(h.id), " times instead of ", h.least));
                if (live() != (int64_t)hs.size() + 1)
                    bad("not-released:event_dispatcher", hx::cat(live() - 1, " handlers or arguments exist, ", hs.size(), " are registered"));
            }
            alloc_left = (long)r.below(3);
            d.reset();
            alloc_left = -1;
        }
        threads_are(0, "destroyed event_dispatcher");
        finish(seed, "dispatcher");
    });
}

void timer_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::run(conf(seed), [&] {
        begin();
        {
            auto t = std::make_unique<high_precision_timer>();
            int current = 0; // callback
            bool running = false;
            for (int k = 0, n = (int)r.in(3, 16); k < n; ++k)
            {
                const size_t op = r.below(6);
                if (op < 2)
                {
                    const int id = new_id();
                    auto fn = [id, x = token()](const std::string&) { run_once(id); };
                    if (attempt(r, memory(r), "set_callback", [&] { t->set_callback(fn, PADDING); }))
                        current = id;
                }
                else if (op < 4)
                {
                    bool res = false;
                    if (attempt(r, any(r), "start", [&] { res = t->start(ns(H)); }))
                    {
                        if (res != (current != 0))
                            bad("start-result", hx::cat("start() returned ", res));
                        running = running || res;
                    }
                    else // the run that was going on, if any, has ended or goes on
                    {
                        ds::wait_quiescent(false);
                        running = ds::alive_count() > 0;
                    }
                }
                else if (op < 5)
                {
                    must_complete(attempt(r, memory(r), "stop", [&] { t->stop(); }), "stop");
                    running = false;
                }
                else
                {
                    std::map<int, int64_t> before;
                    for (int id = 1; id <= (int)rec::get(NEXT); ++id)
                        before[id] = runs(id);
                    ds::sleep_for(3 * H + H / 2);
                    ds::wait_quiescent(false);
                    for (auto [id, x] : before)
                        if (const int64_t more = runs(id) - x; running && id == current ? more < 3 || more > 4 : more != 0)
                            bad("ticks", hx::cat("callback ", id, " ran ", more, " times in three and a half intervals; the timer is ", running ? "running" : "stopped", " with callback ", current));
                    hx::count("tick_periods");
                }
                threads_are(running ? 1 : 0, "high_precision_timer");
                if (live() != (current ? 1 : 0))
                    bad("not-released:high_precision_timer", hx::cat(live(), " callbacks exist"));
            }
            alloc_left = (long)r.below(3);
            t.reset();
            alloc_left = -1;
        }
        threads_are(0, "destroyed high_precision_timer");
        finish(seed, "timer");
    });
}

void observable_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::run(conf(seed), [&] {
        begin();
        {
            int calls = 0;
            std::string last, value = "0" + PADDING;
            const std::function<void(std::string)> cb = [&, t = token()](std::string s) {
                alloc_left = copies_left = -1;
                ++calls;
                last = std::move(s);
            };
            std::optional<observable<std::string>> o;
            while (!attempt(r, memory(r), "constructor", [&] { o.emplace(value, cb); }))
                ;
            bool enabled = true;
            for (int k = 0, n = (int)r.in(2, 20); k < n; ++k)
            {
                const std::string next = hx::cat(r.below(4), PADDING, r.chance(50) ? PADDING : std::string());
                const int calls_before = calls;
                if (r.chance(15))
                {
                    enabled = r.chance(60);
                    o->callback_enabled(enabled);
                    continue;
                }
                const bool done = attempt(r, memory(r), "assignment", [&] { if (r.chance(50)) *o = next; else *o = std::string(next); });
                const std::string now = o->value();
                if (done && (now != next || calls != calls_before + (enabled && next != value) || (calls > calls_before && last != next)))
                    bad("assignment", hx::cat("value ", now, ", ", calls - calls_before, " calls"));
                // the value may have been changed when the callback's argument could not be made
                if (!done && (calls != calls_before || (now != value && now != next)))
                    bad("failed-assignment", hx::cat("value ", now, ", ", calls - calls_before, " calls"));
                value = now;
                std::string copy;
                if (attempt(r, memory(r), "value", [&] { copy = o->value(); }) && copy != value)
                    bad("value", copy);
            }
        }
        finish(seed, "observable");
    });
}

struct service
{
    virtual ~service() = default;
    virtual int id() const = 0;
    token t;
};
template <int N>
struct interface : service
{
};
template <int N>
struct implementation : interface<N>
{
    int id_;
    std::string text;
    token arg;
    implementation(int id, std::string s, const token& a) : id_(id), text(std::move(s)), arg(a) {}
    int id() const override { return id_; }
};
struct locator_t
{
    int registered = 0;
    template <int N>
    void step(hx::rng& r)
    {
        service_locator& l = service_locator::instance();
        switch (r.below(5))
        {
        case 0:
        case 1:
        {
            const int id = new_id();
            bool res = false;
            const bool shared = r.chance(50);
            std::shared_ptr<interface<N>> p = shared ? std::make_shared<implementation<N>>(id, PADDING, token()) : nullptr;
            const token argument;
            const bool done = shared ? attempt(r, memory(r), "register_instance", [&] { res = l.register_instance<interface<N>>(p); }) : attempt(r, memory(r), "register_service", [&] { res = l.register_service<interface<N>, implementation<N>>(id, PADDING, argument); });
            if (done && res == (registered != 0))
                bad("register-result", hx::cat("registration returned ", res));
            if (done && res)
                registered = id;
            break;
        }
        case 2:
        {
            bool res = false;
            if (attempt(r, memory(r), "unregister", [&] { res = l.unregister<interface<N>>(); }))
            {
                if (res != (registered != 0))
                    bad("unregister-result", hx::cat("unregister() returned ", res));
                registered = 0;
            }
            break;
        }
        default:
        {
            bool is = false;
            std::shared_ptr<interface<N>> p;
            if (attempt(r, memory(r), "queries", [&] { is = l.is_registered<interface<N>>(); p = l.get<interface<N>>(); }) && (is != (registered != 0) || (p ? p->id() : 0) != registered))
                bad("lookup", hx::cat("found ", p ? p->id() : 0, " instead of ", registered));
        }
        }
        auto p = l.get<interface<N>>();
        if (l.is_registered<interface<N>>() != (registered != 0) || (p ? p->id() : 0) != registered)
            bad("lookup", hx::cat("found ", p ? p->id() : 0, " instead of ", registered));
    }
    template <int N>
    void end()
    {
        service_locator::instance().unregister<interface<N>>();
    }
};
template <int... N>
void locator_steps(hx::rng& r, std::integer_sequence<int, N...>)
{
    locator_t l[sizeof...(N)];
    for (int k = 0, n = (int)r.in(4, 40); k < n; ++k)
    {
        const int which = (int)r.below(sizeof...(N));
        ((which == N ? l[N].template step<N>(r) : void()), ...);
        int64_t expected = 0;
        for (auto& x : l)
            expected += x.registered ? 2 : 0;
        if (live() != expected)
            bad("not-released:service_locator", hx::cat(live(), " objects of services exist instead of ", expected));
    }
    (l[N].template end<N>(), ...);
}
void locator_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::run(conf(seed), [&] {
        begin();
        locator_steps(r, std::make_integer_sequence<int, 8>());
        finish(seed, "locator");
    });
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {{"queue", queue_iter}, {"pool", pool_iter}, {"scheduler", scheduler_iter}, {"dispatcher", dispatcher_iter}, {"timer", timer_iter}, {"observable", observable_iter}, {"locator", locator_iter}});
}
