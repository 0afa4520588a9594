// thread_pool: C04 (exactly once, result delivery), C05 (start order, bounded concurrency), C06 (start/stop protocol).
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/thread_pool.hpp>

#include <algorithm>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace
{
enum ek { RUN_INV = 1, RUN_RET, BEG, END, START_INV, START_RET, STOP_INV, STOP_RET, QRY_INV, QRY_RET };
constexpr int V_EXEC = 100; // + task id: number of executions
constexpr int V_IDS = 1;
constexpr int V_RUNNING = 2;
constexpr int MAXTASK = 1500;

struct boom
{
    int64_t id;
};
struct boom2 : std::runtime_error
{
    int64_t id;
    explicit boom2(int64_t i) : std::runtime_error("task " + std::to_string(i)), id(i) {}
};

int64_t free_function(int64_t id, const std::string& s)
{
    rec::inc(V_EXEC + (int)id);
    rec::add(BEG, id);
    ds::point();
    rec::add(END, id);
    return id * 3 + (int64_t)s.size();
}
struct object
{
    int64_t base;
    int64_t method(int64_t id)
    {
        rec::inc(V_EXEC + (int)id);
        rec::add(BEG, id);
        rec::add(END, id);
        return base + id;
    }
};
struct functor
{
    int64_t id;
    std::string state;
    int64_t operator()(std::vector<int> v) const
    {
        rec::inc(V_EXEC + (int)id);
        rec::add(BEG, id);
        ds::point();
        int64_t sum = 0;
        for (int x : v)
            sum += x;
        rec::add(END, id);
        return sum * 1000 + (int64_t)state.size();
    }
};

struct scope
{
    int64_t id;
    scope(int64_t i) : id(i)
    {
        rec::inc(V_EXEC + (int)id);
        rec::add(BEG, id);
    }
    ~scope() { rec::add(END, id); }
};

int new_id() { return (int)rec::inc(V_IDS); }

struct expectation
{
    int id;
    std::function<std::string()> check; // waits for the future; empty string: as expected
};

// Submit one task of a random kind. The caller's own copies of the arguments are overwritten right after run().
expectation submit(tc::sdk::thread_pool& pool, hx::rng& r, object& obj)
{
    const int id = new_id();
    const int kind = (int)r.below(9);
    const uint64_t len = r.chance(40) ? r.below(2000000) : 0;
    const int64_t salt = (int64_t)r.below(1000000);
    rec::add(RUN_INV, id, kind);
    expectation e{id, nullptr};
    auto wrong = [id, kind](auto got, auto want) { return hx::cat("task ", id, " (kind ", kind, ") delivered ", got, " instead of ", want); };
    switch (kind)
    {
    case 0: // values by copy, result by value
    {
        std::string s = "argument " + std::to_string(salt);
        std::vector<int> v{1, 2, (int)salt};
        auto f = std::make_shared<std::future<std::string>>(pool.run([id, len](int64_t a, std::string str, std::vector<int> vec) {
            scope sc(id);
            if (len)
                ds::sleep_for(len);
            return str + "/" + std::to_string(a) + "/" + std::to_string(vec.size()) + "/" + std::to_string(vec.back());
        }, salt, s, v));
        rec::add(RUN_RET, id);
        std::string want = s + "/" + std::to_string(salt) + "/3/" + std::to_string((int)salt);
        std::fill(s.begin(), s.end(), 'X');
        v.clear();
        e.check = [=] {
            std::string g = f->get();
            return g == want ? std::string() : wrong(g, want);
        };
        break;
    }
    case 1: // exception, not derived from std::exception
    {
        auto f = std::make_shared<std::future<int>>(pool.run([id]() -> int { scope sc(id); throw boom{id}; }));
        rec::add(RUN_RET, id);
        e.check = [=]() -> std::string {
            try
            {
                return wrong(f->get(), "an exception");
            }
            catch (const boom& b)
            {
                return b.id == id ? std::string() : wrong(b.id, id);
            }
        };
        break;
    }
    case 2: // standard exception, void result
    {
        auto f = std::make_shared<std::future<void>>(pool.run([id](int64_t x) { scope sc(id); throw boom2(x); }, (int64_t)id));
        rec::add(RUN_RET, id);
        e.check = [=]() -> std::string {
            try
            {
                f->get();
                return wrong("nothing", "an exception");
            }
            catch (const boom2& b)
            {
                return b.id == id && b.what() == "task " + std::to_string(id) ? std::string() : wrong(b.what(), id);
            }
        };
        break;
    }
    case 3: // reference argument through std::ref; plain writes must be visible after get()
    {
        auto slot = std::make_shared<std::pair<int64_t, std::string>>(-1, "");
        auto f = std::make_shared<std::future<void>>(pool.run([id, len](std::pair<int64_t, std::string>& out, int64_t v) {
            scope sc(id);
            out.first = v;
            if (len)
                ds::sleep_for(len);
            out.second = "written by " + std::to_string(id);
        }, std::ref(*slot), salt));
        rec::add(RUN_RET, id);
        e.check = [=]() -> std::string {
            f->get();
            return slot->first == salt && slot->second == "written by " + std::to_string(id) ? std::string() : wrong(slot->second, salt);
        };
        break;
    }
    case 4: // function pointer
    {
        std::string s(salt % 40, 'q');
        auto f = std::make_shared<std::future<int64_t>>(pool.run(&free_function, (int64_t)id, s));
        rec::add(RUN_RET, id);
        const int64_t want = id * 3 + (int64_t)s.size();
        s += "more";
        e.check = [=]() -> std::string {
            const int64_t g = f->get();
            return g == want ? std::string() : wrong(g, want);
        };
        break;
    }
    case 5: // member function
    {
        auto f = std::make_shared<std::future<int64_t>>(pool.run(&object::method, &obj, (int64_t)id));
        rec::add(RUN_RET, id);
        const int64_t want = obj.base + id;
        e.check = [=]() -> std::string {
            const int64_t g = f->get();
            return g == want ? std::string() : wrong(g, want);
        };
        break;
    }
    case 6: // named functor, changed by the caller afterwards
    {
        functor fn{id, std::string(salt % 30, 's')};
        std::vector<int> v{(int)(salt % 100), 5};
        const int64_t want = ((int64_t)(salt % 100) + 5) * 1000 + salt % 30;
        auto f = std::make_shared<std::future<int64_t>>(r.chance(50) ? pool.run(fn, v) : pool.run(static_cast<const functor&>(fn), v));
        rec::add(RUN_RET, id);
        fn.state = "changed afterwards by the caller, longer than before";
        v.assign(10, 77);
        e.check = [=]() -> std::string {
            const int64_t g = f->get();
            return g == want ? std::string() : wrong(g, want);
        };
        break;
    }
    case 7: // a task that submits another one
    {
        auto f = std::make_shared<std::future<std::shared_ptr<std::future<int64_t>>>>(pool.run([id, &pool, salt] {
            scope sc(id);
            const int nid = new_id();
            rec::add(RUN_INV, nid, 100);
            auto in = std::make_shared<std::future<int64_t>>(pool.run([nid](int64_t x) { scope sc2(nid); return x + 1; }, salt));
            rec::add(RUN_RET, nid);
            return in;
        }));
        rec::add(RUN_RET, id);
        e.check = [=]() -> std::string {
            auto in = f->get();
            const int64_t g = in->get();
            return g == salt + 1 ? std::string() : wrong(g, salt + 1);
        };
        break;
    }
    default: // shared state captured
    {
        auto data = std::make_shared<std::vector<int64_t>>(3, salt);
        std::weak_ptr<std::vector<int64_t>> weak = data;
        auto f = std::make_shared<std::future<int64_t>>(pool.run([id, data, len] {
            scope sc(id);
            if (len)
                ds::sleep_for(len);
            return (*data)[0] + (*data)[2];
        }));
        rec::add(RUN_RET, id);
        data.reset();
        e.check = [=]() -> std::string {
            const int64_t g = f->get();
            return g == 2 * salt ? std::string() : wrong(g, 2 * salt);
        };
        break;
    }
    }
    return e;
}

void once_iter(uint64_t seed)
{
    hx::rng r(seed);
    const int nsub = (int)r.in(1, 4), per = (int)r.in(1, 8), nthreads = (int)r.in(0, 6);
    ds::config cfg = ds::random_config(seed);
    object obj{5000};
    ds::run(cfg, [&] {
        auto pool = std::make_unique<tc::sdk::thread_pool>();
        pool->start((unsigned)nthreads);
        const int main_id = ds::self_id();
        (void)main_id;
        std::vector<std::thread> th;
        for (int s = 0; s < nsub; ++s)
            th.emplace_back([&, s] {
                hx::rng rr(seed * 31 + s);
                std::vector<expectation> ex;
                auto settle = [&](expectation& e) {
                    std::string w;
                    try
                    {
                        w = e.check();
                    }
                    catch (const std::exception& x)
                    {
                        w = hx::cat("task ", e.id, ": future failed unexpectedly: ", x.what());
                    }
                    catch (...)
                    {
                        w = hx::cat("task ", e.id, ": future failed unexpectedly");
                    }
                    if (!w.empty())
                        hx::fail("wrong-result", w);
                    if (rec::get(V_EXEC + e.id) != 1)
                        hx::fail("not-exactly-once", hx::cat("task ", e.id, " executed ", rec::get(V_EXEC + e.id), " times when its future became ready"));
                };
                for (int i = 0; i < per; ++i)
                {
                    ex.push_back(submit(*pool, rr, obj));
                    if (rr.chance(25))
                    {
                        settle(ex.back());
                        ex.pop_back();
                    }
                }
                while (!ex.empty())
                {
                    const size_t k = rr.below(ex.size());
                    settle(ex[k]);
                    ex.erase(ex.begin() + (long)k);
                }
            });
        for (auto& t : th)
            t.join();
        if (r.chance(50))
            pool->stop();
        pool.reset();
    });
    const int n = (int)rec::get(V_IDS);
    for (int i = 1; i <= n; ++i)
        if (rec::get(V_EXEC + i) != 1)
            hx::fail("not-exactly-once", hx::cat("task ", i, " executed ", rec::get(V_EXEC + i), " times"));
    // on a pool thread: never on the submitting threads (1..) is implied by tid bookkeeping: pool threads are created by start()
    std::set<int> submitters, workers;
    for (int i = 0; i < rec::size(); ++i)
        if (rec::at(i).kind == BEG)
            workers.insert(rec::at(i).tid);
        else if (rec::at(i).kind == RUN_INV && rec::at(i).b != 100)
            submitters.insert(rec::at(i).tid);
    for (int w : workers)
        if (submitters.count(w) || w == 0)
            hx::fail("ran-on-caller", hx::cat("a task ran on thread T", w, ", which is not a pool thread"));
    hx::count("tasks", (uint64_t)n);
    hx::count("context_switches", ds::switches());
    hx::maxi("max_worker_threads_seen", workers.size());
    hx::state(ds::trace_hash());
}

void order_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    const unsigned req = (unsigned)r.pick({0, 1, 1, 1, 2, 2, 3, 4, 5, 9, 1000});
    const unsigned n = std::min<unsigned>(std::max(1u, req), (unsigned)cfg.nprocs);
    const int nsub = (int)r.in(1, 4), per = (int)r.in(2, 12);
    const bool with_groups = r.chance(50);
    ds::run(cfg, [&] {
        tc::sdk::thread_pool pool;
        if (r.chance(20))
        {
            pool.start(3);
            pool.stop();
        }
        rec::add(START_INV, n);
        pool.start(req);
        if (pool.threads_count() != n)
            hx::fail("wrong-thread-count", hx::cat("start(", req, ") with hardware concurrency ", cfg.nprocs, ": threads_count() is ", pool.threads_count()));
        if (with_groups)
        {
            // n tasks that wait for each other, nothing else pending
            for (int round = 0; round < 2; ++round)
            {
                std::mutex m;
                std::condition_variable cv;
                unsigned in = 0;
                std::vector<std::future<void>> fs;
                for (unsigned i = 0; i < n; ++i)
                {
                    const int id = new_id();
                    rec::add(RUN_INV, id);
                    fs.push_back(pool.run([&, id] {
                        rec::add(BEG, id);
                        std::unique_lock l(m);
                        if (++in == n)
                            cv.notify_all();
                        cv.wait(l, [&] { return in >= n; });
                        rec::add(END, id);
                    }));
                    rec::add(RUN_RET, id);
                }
                for (auto& f : fs)
                    f.get();
                hx::count("rendezvous_groups");
            }
        }
        std::vector<std::thread> th;
        for (int s = 0; s < nsub; ++s)
            th.emplace_back([&, s] {
                hx::rng rr(seed * 77 + s);
                std::vector<std::future<void>> fs;
                for (int i = 0; i < per; ++i)
                {
                    const int id = new_id();
                    const uint64_t len = rr.chance(50) ? rr.below(5000000) : 0;
                    const bool thr = rr.chance(20);
                    rec::add(RUN_INV, id);
                    fs.push_back(pool.run([id, len, thr] {
                        rec::add(BEG, id);
                        if (len)
                            ds::sleep_for(len);
                        else
                            ds::point();
                        rec::add(END, id);
                        if (thr)
                            throw boom{id};
                    }));
                    rec::add(RUN_RET, id);
                    if (rr.chance(20))
                        fs.back().wait();
                }
                for (auto& f : fs)
                    f.wait();
            });
        for (auto& t : th)
            t.join();
        if (pool.threads_count() != n)
            hx::fail("wrong-thread-count", hx::cat("threads_count() is ", pool.threads_count(), " while running with ", n));
    });
    struct t_t
    {
        int inv = -1, ret = 1 << 30, beg = 1 << 30, end = 1 << 30;
    };
    std::map<int, t_t> ts;
    int cur = 0, peak = 0;
    for (int i = 0; i < rec::size(); ++i)
    {
        const rec::ev& e = rec::at(i);
        t_t& t = ts[(int)e.a];
        switch (e.kind)
        {
        case RUN_INV: t.inv = i; break;
        case RUN_RET: t.ret = i; break;
        case BEG:
            t.beg = i;
            peak = std::max(peak, ++cur);
            break;
        case END:
            t.end = i;
            --cur;
            break;
        default: ts.erase((int)e.a); break;
        }
        if (cur > (int)n)
            hx::fail("too-many-executing", hx::cat(cur, " tasks executing at once on a pool of ", n));
    }
    uint64_t pairs = 0;
    for (auto& [id, t] : ts)
    {
        unsigned overtaken = 0;
        std::string who;
        for (auto& [id2, u] : ts)
            if (u.ret < t.inv)
            {
                ++pairs;
                if (u.beg > t.beg)
                {
                    ++overtaken;
                    who += hx::cat(" ", id2);
                }
            }
        if (overtaken >= n)
            hx::fail("order-broken", hx::cat("task ", id, " started while ", overtaken, " tasks submitted before it (", who, ") had not started, on a pool of ", n, " threads"));
    }
    hx::count("tasks", ts.size());
    hx::count("ordered_pairs_checked", pairs);
    hx::maxi("max_concurrency_seen", (uint64_t)peak);
    hx::count("context_switches", ds::switches());
    hx::state(ds::trace_hash());
}

// ------------------------------------------------------------------------------------------------- life cycle
struct lop
{
    int kind; // 0 start, 1 stop, 2 is_running
    bool res;
    int inv, ret;
};
bool lin_bool(const std::vector<lop>& h, uint64_t done, bool running, std::set<std::pair<uint64_t, bool>>& seen)
{
    if (done == (1ull << h.size()) - 1)
        return true;
    if (!seen.insert({done, running}).second)
        return false;
    int minret = 1 << 30;
    for (size_t i = 0; i < h.size(); ++i)
        if (!(done >> i & 1))
            minret = std::min(minret, h[i].ret);
    for (size_t i = 0; i < h.size(); ++i)
    {
        if ((done >> i & 1) || h[i].inv > minret)
            continue;
        bool ok, next = running;
        if (h[i].kind == 0)
            ok = h[i].res == !running, next = true;
        else if (h[i].kind == 1)
            ok = h[i].res == running, next = false;
        else
            ok = h[i].res == running;
        if (ok && lin_bool(h, done | 1ull << i, next, seen))
            return true;
    }
    return false;
}

std::string timeline()
{
    static const char* n[] = {"", "run-call", "run-return", "begin", "end", "start-call", "start-return", "stop-call", "stop-return", "is_running-call", "is_running-return"};
    std::string s;
    for (int i = 0; i < rec::size() && s.size() < 6000; ++i)
    {
        const rec::ev& e = rec::at(i);
        s += hx::cat(i, ":T", e.tid, " ", n[e.kind], "(", e.a, ") ");
    }
    return s;
}

void life_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    const int nctl = (int)r.in(1, 3), nsub = (int)r.in(0, 3), per = (int)r.in(1, 6), nops = (int)r.in(1, 7);
    const bool destroy_running = r.chance(30);
    std::vector<std::shared_ptr<std::future<int>>> futs(MAXTASK);
    ds::run(cfg, [&] {
        auto pool = std::make_unique<tc::sdk::thread_pool>();
        auto do_run = [&](hx::rng& rr) {
            const int id = new_id();
            const uint64_t len = rr.chance(50) ? rr.below(3000000) : 0;
            rec::add(RUN_INV, id);
            futs[id] = std::make_shared<std::future<int>>(pool->run([id, len] {
                rec::inc(V_EXEC + id);
                rec::add(BEG, id);
                if (len)
                    ds::sleep_for(len);
                else
                    ds::point();
                rec::add(END, id);
                return id;
            }));
            rec::add(RUN_RET, id);
        };
        auto do_start = [&](hx::rng& rr) {
            const unsigned k = (unsigned)rr.in(1, 4);
            rec::add(START_INV, k);
            const bool ok = pool->start(k);
            rec::add(START_RET, ok);
        };
        auto do_stop = [&] {
            rec::add(STOP_INV);
            const bool ok = pool->stop();
            rec::add(STOP_RET, ok);
        };
        auto do_query = [&] {
            rec::add(QRY_INV);
            const bool ok = pool->is_running();
            rec::add(QRY_RET, ok);
        };
        std::vector<std::thread> th;
        for (int c = 0; c < nctl; ++c)
            th.emplace_back([&, c] {
                hx::rng rr(seed * 13 + c);
                for (int i = 0; i < nops; ++i)
                    switch (rr.below(6))
                    {
                    case 0:
                    case 1: do_start(rr); break;
                    case 2:
                    case 3: do_stop(); break;
                    case 4: do_query(); break;
                    default: do_run(rr);
                    }
            });
        for (int s = 0; s < nsub; ++s)
            th.emplace_back([&, s] {
                hx::rng rr(seed * 17 + 100 + s);
                for (int i = 0; i < per; ++i)
                {
                    do_run(rr);
                    if (rr.chance(30))
                        ds::sleep_for(rr.below(2000000));
                    if (rr.chance(10))
                        do_query();
                }
            });
        for (auto& t : th)
            t.join();
        if (destroy_running)
        {
            rec::add(STOP_INV, 1);
            pool.reset();
            rec::add(STOP_RET, 2); // the destructor: stopped for good whatever the state was
        }
        else
        {
            if (!pool->is_running())
                do_start(r);
            do_run(r);
            ds::wait_quiescent(true);
        }
        const int n = (int)rec::get(V_IDS);
        for (int i = 1; i <= n; ++i)
            if (futs[i]->wait_for(std::chrono::seconds(0)) != std::future_status::ready)
                hx::fail("future-hangs", hx::cat("the future of task ", i, " is not ready although the pool ", destroy_running ? "was destroyed" : "is running and idle", "; ", timeline()));
        pool.reset();
    });
    const int n = (int)rec::get(V_IDS);
    std::vector<lop> h;
    std::map<int, lop> open;
    struct t_t
    {
        int inv = -1, ret = 1 << 30, beg = -1, end = -1;
    };
    std::vector<t_t> ts(n + 1);
    std::vector<lop> stops, starts;
    for (int i = 0; i < rec::size(); ++i)
    {
        const rec::ev& e = rec::at(i);
        switch (e.kind)
        {
        case RUN_INV: ts[e.a].inv = i; break;
        case RUN_RET: ts[e.a].ret = i; break;
        case BEG: ts[e.a].beg = i; break;
        case END: ts[e.a].end = i; break;
        case START_INV:
        case STOP_INV:
        case QRY_INV: open[e.tid] = {e.kind == START_INV ? 0 : e.kind == STOP_INV ? 1 : 2, false, i, 0}; break;
        default:
        {
            lop o = open[e.tid];
            o.res = e.a != 0;
            o.ret = i;
            if (o.kind == 1 && o.res)
                stops.push_back(o);
            if (o.kind == 0 && o.res)
                starts.push_back(o);
            if (e.a != 2)
                h.push_back(o);
        }
        }
    }
    if (h.size() < 40)
    {
        std::set<std::pair<uint64_t, bool>> seen;
        if (!lin_bool(h, 0, false, seen))
            hx::fail("start-stop-results", "no order of the start/stop/is_running calls explains their results: " + timeline());
        hx::count("start_stop_histories");
    }
    for (int i = 1; i <= n; ++i)
    {
        const t_t& t = ts[i];
        const int64_t ex = rec::get(V_EXEC + i);
        if (ex > 1)
            hx::fail("executed-twice", hx::cat("task ", i, " executed ", ex, " times; ", timeline()));
        bool ready_value = false;
        try
        {
            ready_value = futs[i]->get() == i;
        }
        catch (const std::future_error& e)
        {
            if (e.code() != std::future_errc::broken_promise)
                hx::fail("wrong-future-error", hx::cat("task ", i, ": ", e.what()));
        }
        if (ready_value != (ex == 1))
            hx::fail("future-lies", hx::cat("task ", i, " executed ", ex, " times but its future ", ready_value ? "has a value" : "is broken", "; ", timeline()));
        if (ex == 0)
        {
            bool excuse = false;
            for (auto& s : stops)
                excuse |= s.ret > t.inv;
            if (!excuse)
                hx::fail("task-dropped", hx::cat("task ", i, " was dropped although no stop() followed or overlapped its run(); ", timeline()));
            hx::count("dropped_by_stop");
        }
        else
        {
            hx::count("executed");
            for (auto& s : stops)
                if (t.ret < s.inv && t.beg > s.ret)
                    hx::fail("ran-after-stop", hx::cat("task ", i, " was queued when stop() (events ", s.inv, "..", s.ret, ") ran but executed later; ", timeline()));
            for (int tau : {t.beg, t.end})
                for (auto& s : stops)
                {
                    if (s.ret >= tau)
                        continue;
                    bool restarted = false;
                    for (auto& a : starts)
                        restarted |= a.inv < tau && a.ret > s.inv;
                    if (!restarted)
                        hx::fail("executing-while-stopped", hx::cat("task ", i, " was executing at event ", tau, " although stop() had returned at event ", s.ret, "; ", timeline()));
                }
            if (!std::any_of(starts.begin(), starts.end(), [&](auto& a) { return a.inv < t.beg; }))
                hx::fail("executing-while-stopped", hx::cat("task ", i, " executed before any start(); ", timeline()));
        }
    }
    hx::count("stops", stops.size());
    hx::count("starts", starts.size());
    hx::count("context_switches", ds::switches());
    hx::state(ds::trace_hash());
    if (hx::want_sample() && n > 3)
        hx::sample(timeline());
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
        {"once", once_iter},
        {"order", order_iter},
        {"life", life_iter},
    });
}
