// task_scheduler: C07 (one-shot), C08 (periodic grid), C09 (management calls), C10 (start/stop).
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/task_scheduler.hpp>

#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <string>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <vector>

namespace
{
using namespace std::chrono_literals;
using ns = std::chrono::nanoseconds;
using tc::sdk::clock;
using tc::sdk::task_scheduler;

enum ek { BEG = 1, END, ADD_INV, ADD_RET, START_INV, START_RET, STOP_INV, STOP_RET, OTHER };
constexpr int V_EXEC = 100;
constexpr int V_IDS = 1;
constexpr uint64_t EPS = 20'000; // 20 us of virtual time: a clock read costs 1 ns, deadlines are ms apart
constexpr uint64_t MS = 1'000'000;

int new_id() { return (int)rec::inc(V_IDS); }
struct boom
{
    int64_t id;
};
struct scope
{
    int64_t id;
    explicit scope(int64_t i) : id(i)
    {
        rec::inc(V_EXEC + (int)id);
        rec::add(BEG, id);
    }
    ~scope() { rec::add(END, id); }
};
std::string timeline(uint64_t t0)
{
    static const char* n[] = {"", "begin", "end", "add-call", "add-return", "start-call", "start-return", "stop-call", "stop-return", "op"};
    std::string s;
    for (int i = std::max(0, rec::size() - 150); i < rec::size() && s.size() < 7000; ++i)
    {
        const rec::ev& e = rec::at(i);
        s += hx::cat(i, ":T", e.tid, "@", (e.time - t0) / 1000.0, "us ", n[e.kind], "(", e.a, ") ");
    }
    return s;
}
clock::time_point tp_of(uint64_t t) { return clock::time_point(ns((int64_t)t)); }

// Virtual time during which fewer than n tasks were executing within [from, to].
uint64_t free_time(uint64_t from, uint64_t to, unsigned n)
{
    uint64_t last = from, total = 0;
    int cur = 0;
    for (int i = 0; i < rec::size(); ++i)
    {
        const rec::ev& e = rec::at(i);
        if (e.kind != BEG && e.kind != END)
            continue;
        const uint64_t t = std::min(std::max(e.time, from), to);
        if (cur < (int)n)
            total += t - std::min(t, last);
        last = std::max(last, t);
        cur += e.kind == BEG ? 1 : -1;
    }
    if (cur < (int)n)
        total += to - std::min(to, last);
    return total;
}

struct shot
{
    int id;
    uint64_t due_lo; // it must not start before this
    uint64_t due_hi; // time from which it ought to run
    std::function<std::string()> check;
};

struct arg_functor
{
    int id;
    std::string operator()(const std::string& a, int b) const
    {
        scope sc(id);
        return a + "|" + std::to_string(b);
    }
};

struct with_method
{
    int64_t base;
    int64_t method(int id, int64_t v) const
    {
        scope sc(id);
        return base + v;
    }
};

std::string free_function(int id, std::string text)
{
    scope sc(id);
    return text + "!";
}

// One-shot tasks in several forms.
shot add_shot(task_scheduler& s, hx::rng& r, bool with_name)
{
    shot x;
    x.id = new_id();
    const int id = x.id;
    const bool rel = r.chance(50);
    const int64_t delta = r.chance(15) ? -(int64_t)r.below(5 * MS) : r.chance(15) ? 0 : r.chance(30) ? (int64_t)(r.below(8) * MS) : (int64_t)r.below(12 * MS);
    const uint64_t len = r.chance(30) ? r.below(3 * MS) : 0;
    const int64_t salt = (int64_t)r.below(100000);
    const int kind = with_name ? 3 + (int)r.below(3) : (int)r.below(3);
    const bool method = r.chance(50);
    rec::add(ADD_INV, id);
    const uint64_t t_inv = ds::now();
    uint64_t at = (uint64_t)((int64_t)t_inv + delta);
    if (!rel && r.chance(30))
        at = at / MS * MS; // equal time points across threads
    auto refused = [&]() -> shot { hx::fail("refused", hx::cat("one-shot task ", id, " with a fresh or no id was refused by a running scheduler")); };
    auto expect = [id](auto got, auto want) { return got == want ? std::string() : hx::cat("one-shot task ", id, " delivered ", got, " instead of ", want); };
    switch (kind)
    {
    case 0:
    {
        auto fn = [id, len, salt] { scope sc(id); if (len) ds::sleep_for(len); return salt * 2; };
        auto f = rel ? s.in(ns(delta), fn) : s.at(tp_of(at), fn);
        if (!f)
            refused();
        auto fp = std::make_shared<std::future<int64_t>>(std::move(*f));
        x.check = [=] { return expect(fp->get(), salt * 2); };
        break;
    }
    case 1:
    {
        std::string a = "argument-" + std::to_string(salt);
        int b = (int)salt;
        arg_functor fn{id};
        auto f = rel ? s.in(ns(delta), fn, a, b) : s.at(tp_of(at), fn, a, b);
        if (!f)
            refused();
        auto fp = std::make_shared<std::future<std::string>>(std::move(*f));
        const std::string want = a + "|" + std::to_string(b);
        std::fill(a.begin(), a.end(), 'Z');
        b = -1;
        fn.id = 0;
        x.check = [=] { return expect(fp->get(), want); };
        break;
    }
    case 2:
    {
        auto fn = [id, salt]() -> int { scope sc(id); throw boom{salt}; };
        auto f = rel ? s.in(ns(delta), fn) : s.at(tp_of(at), fn);
        if (!f)
            refused();
        auto fp = std::make_shared<std::future<int>>(std::move(*f));
        x.check = [=]() -> std::string {
            try
            {
                fp->get();
            }
            catch (const boom& b)
            {
                return expect(b.id, salt);
            }
            return hx::cat("one-shot task ", id, " did not deliver its exception");
        };
        break;
    }
    case 3:
    {
        auto data = std::make_shared<std::string>("captured " + std::to_string(salt));
        auto fn = [id, len, data](int64_t k) { scope sc(id); if (len) ds::sleep_for(len); return *data + "/" + std::to_string(k); };
        const std::string name = "task " + std::to_string(id);
        auto f = rel ? s.in(std::string(name), ns(delta), fn, salt) : s.at(std::string(name), tp_of(at), fn, salt);
        if (!f)
            refused();
        auto fp = std::make_shared<std::future<std::string>>(std::move(*f));
        const std::string want = *data + "/" + std::to_string(salt);
        data.reset();
        x.check = [=] { return expect(fp->get(), want); };
        break;
    }
    case 5: // pointers to functions, an object that outlives the task
    {
        static const with_method obj{77};
        const std::string name = "task " + std::to_string(id);
        if (method)
        {
            auto f = rel ? s.in(std::string(name), ns(delta), &with_method::method, &obj, id, salt) : s.at(std::string(name), tp_of(at), &with_method::method, &obj, id, salt);
            if (!f)
                refused();
            auto fp = std::make_shared<std::future<int64_t>>(std::move(*f));
            x.check = [=] { return expect(fp->get(), salt + 77); };
            break;
        }
        std::string text = "the text of " + std::to_string(salt);
        const std::string want = text + "!";
        auto f = rel ? s.in(std::string(name), ns(delta), free_function, id, text) : s.at(std::string(name), tp_of(at), &free_function, id, text);
        if (!f)
            refused();
        text = "changed by the caller afterwards";
        auto fp = std::make_shared<std::future<std::string>>(std::move(*f));
        x.check = [=] { return expect(fp->get(), want); };
        break;
    }
    default:
    {
        auto out = std::make_shared<std::pair<int64_t, int64_t>>(0, 0);
        auto fn = [id, out, salt] { scope sc(id); out->first = salt; ds::point(); out->second = salt + 1; };
        const std::string name = "task " + std::to_string(id);
        auto f = rel ? s.in(std::string(name), ns(delta), fn) : s.at(std::string(name), tp_of(at), fn);
        if (!f)
            refused();
        auto fp = std::make_shared<std::future<void>>(std::move(*f));
        x.check = [=]() -> std::string { fp->get(); return expect(out->first + out->second, 2 * salt + 1); };
        break;
    }
    }
    const uint64_t t_ret = ds::now();
    rec::add(ADD_RET, id);
    x.due_lo = rel ? (uint64_t)((int64_t)t_inv + delta) : at;
    x.due_hi = std::max(t_ret, rel ? (uint64_t)((int64_t)t_ret + delta) : at);
    return x;
}

void oneshot_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    const bool noisy = r.chance(25);
    if (noisy)
    {
        cfg.oversleep_max = r.below(3 * MS) + 1;
        cfg.timejump_permille = r.chance(50) ? 3 : 0;
        cfg.clock_tick = r.pick({uint64_t{1}, uint64_t{1000}, uint64_t{200000}});
    }
    const unsigned req = (unsigned)r.in(1, 4), n = std::min<unsigned>(req, (unsigned)cfg.nprocs);
    const int nc = (int)r.in(1, 3), per = (int)r.in(1, 7);
    std::vector<std::vector<shot>> shots(nc);
    uint64_t t0 = cfg.start_time;
    ds::run(cfg, [&] {
        task_scheduler s;
        s.start(req);
        std::vector<std::thread> th;
        for (int c = 0; c < nc; ++c)
            th.emplace_back([&, c] {
                hx::rng rr(seed * 11 + c);
                auto& mine = shots[c];
                for (int i = 0; i < per; ++i)
                {
                    mine.push_back(add_shot(s, rr, rr.chance(40)));
                    if (rr.chance(40))
                        ds::sleep_for(rr.below(4 * MS));
                }
                for (auto& x : mine)
                {
                    std::string w;
                    try
                    {
                        w = x.check();
                    }
                    catch (const std::exception& e)
                    {
                        w = hx::cat("the future of one-shot task ", x.id, " failed: ", e.what());
                    }
                    catch (const boom&)
                    {
                        w = hx::cat("the future of one-shot task ", x.id, " failed");
                    }
                    if (!w.empty())
                        hx::fail("wrong-result", w);
                }
            });
        for (auto& t : th)
            t.join();
        ds::sleep_for(30 * MS); // nothing may run twice
        if (s.tasks_size() != 0)
            hx::fail("tasks-left", hx::cat(s.tasks_size(), " tasks still scheduled after all one-shot tasks have run"));
        s.stop();
    });
    std::map<int, uint64_t> beg;
    for (int i = 0; i < rec::size(); ++i)
        if (rec::at(i).kind == BEG)
            beg.emplace((int)rec::at(i).a, rec::at(i).time);
    uint64_t late_max = 0;
    for (auto& v : shots)
        for (auto& x : v)
        {
            const int64_t ex = rec::get(V_EXEC + x.id);
            if (ex != 1)
                hx::fail("not-exactly-once", hx::cat("one-shot task ", x.id, " executed ", ex, " times; ", timeline(t0)));
            const uint64_t b = beg[x.id];
            if (b < x.due_lo)
                hx::fail("early", hx::cat("one-shot task ", x.id, " started ", x.due_lo - b, " ns before its time; ", timeline(t0)));
            if (!noisy && b > x.due_hi)
            {
                late_max = std::max(late_max, b - x.due_hi);
                const uint64_t fr = free_time(x.due_hi, b, n);
                if (fr > EPS)
                    hx::fail("late", hx::cat("one-shot task ", x.id, " (due at ", (x.due_hi - t0) / 1000.0, " us) started ", b - x.due_hi, " ns late although a pool thread was free for ", fr, " ns of that; ", timeline(t0)));
            }
            hx::count("one_shots");
            if (b > x.due_hi + EPS)
                hx::count("waited_for_a_thread");
        }
    hx::maxi("max_lateness_ns", late_max);
    hx::state(ds::trace_hash());
    if (hx::want_sample())
        hx::sample(timeline(t0));
}

// -------------------------------------------------------------------------------------------------- periodic
struct per_t
{
    int id;
    uint64_t I;
    uint64_t first_lo, first_hi;
    std::string name;
    uint64_t upd_at = 0, upd_I = 0; // update_interval at quiescence
    uint64_t len = 0;               // how long one occurrence takes
    uint64_t base = 0;
};

void periodic_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    const int mode = (int)r.below(4); // 0,1: keeps up; 2: overload; 3: late wake-ups
    const uint64_t t0 = cfg.start_time;
    unsigned n = 8;
    cfg.nprocs = 8;
    if (mode == 2)
    {
        n = (unsigned)r.in(1, 2);
        cfg.clock_tick = r.pick({uint64_t{1}, uint64_t{1000}, uint64_t{50000}});
    }
    if (mode == 3)
    {
        cfg.oversleep_max = r.below(6 * MS) + 1;
        cfg.spurious_permille = 0;
    }
    std::vector<per_t> ps((size_t)r.in(1, 3));
    const uint64_t T = (uint64_t)r.in(10, 60) * MS;
    uint64_t t_end_lo = 0, t_end_hi = 0;
    ds::run(cfg, [&] {
        task_scheduler s;
        s.start(n);
        for (auto& p : ps)
        {
            p.id = new_id();
            p.I = (uint64_t)r.in(200'000, 5'000'000);
            if (r.chance(30))
                p.I = (uint64_t)r.in(1, 4) * MS;
            const int id = p.id;
            const uint64_t len = mode == 2 ? (uint64_t)r.below(3 * p.I) : r.chance(50) ? r.below(p.I * 9 / 10) : 0;
            p.len = len;
            const bool throws = r.chance(15);
            auto fn = [id, len, throws] {
                scope sc(id);
                if (len)
                    ds::sleep_for(len);
                if (throws)
                    throw boom{id}; // concerns this occurrence and no other one
            };
            // takes its arguments by value: each occurrence has its own copy and does with it as it likes
            auto fn_args = [id, len, throws](std::string text, std::shared_ptr<const int> k) {
                scope sc(id);
                if (text != "periodic argument" || !k || *k != id)
                    hx::fail("wrong-arguments", hx::cat("an occurrence of a periodic task got other arguments than those scheduled: ", hx::quote(text), k ? ", a value" : ", no value"));
                text = "spoilt by an occurrence";
                k.reset();
                if (len)
                    ds::sleep_for(len);
                if (throws)
                    throw boom{id};
            };
            const int form = (int)r.below(5);
            const uint64_t delay = form == 4 ? r.below(8 * MS) : 0;
            p.first_lo = ds::now() + delay;
            bool ok = false;
            p.name = "periodic " + std::to_string(id);
            std::string text = "periodic argument";
            auto shared_id = std::make_shared<const int>(id);
            switch (form)
            {
            case 0: ok = s.every(ns(p.I), fn); p.name.clear(); break;
            case 1: ok = s.every(ns(p.I), fn_args, text, shared_id); p.name.clear(); break;
            case 2: ok = s.every(std::string(p.name), ns(p.I), fn); break;
            case 3: ok = s.every(std::string(p.name), ns(p.I), fn_args, text, std::move(shared_id)); break;
            default: ok = s.every(std::string(p.name), ns(p.I), ns(delay), fn_args, text, shared_id); break;
            }
            text = "overwritten";
            shared_id.reset();
            p.first_hi = ds::now() + delay;
            if (!ok)
                hx::fail("refused", "every() with a fresh or no id was refused by a running scheduler");
            if (r.chance(50))
                ds::sleep_for(r.below(3 * MS));
        }
        std::thread noise;
        if (r.chance(60))
            noise = std::thread([&] {
                hx::rng rr(seed + 5);
                const int k = (int)rr.in(1, 8);
                for (int i = 0; i < k; ++i)
                {
                    ds::sleep_for(rr.below(T / (uint64_t)k + 1));
                    const int id = new_id();
                    switch (rr.below(3))
                    {
                    case 0: s.in(ns((int64_t)rr.below(5 * MS)), [id] { scope sc(id); }); break;
                    case 1: s.is_scheduled("periodic 1"); break;
                    default: s.at(tp_of(ds::now()), [id] { scope sc(id); }); break;
                    }
                }
            });
        if (mode == 1 && r.chance(70))
        {
            // one interval update at a quiescent moment
            ds::sleep_for(r.below(T / 2));
            ds::wait_quiescent(false);
            per_t& p = r.pick(ps);
            if (!p.name.empty())
            {
                p.upd_I = (uint64_t)r.in(200'000, 5'000'000);
                p.upd_I = std::max(p.upd_I, p.len * 10 / 9 + 1); // the pool goes on keeping up
                p.upd_at = ds::now();
                if (!s.update_interval(p.name, ns(p.upd_I)))
                    hx::fail("update-refused", "update_interval() of a scheduled periodic task returned false");
                if (s.get_interval(p.name) != std::optional<clock::duration>(ns(p.upd_I)))
                    hx::fail("interval-wrong", "get_interval() after update_interval() returns another interval");
            }
        }
        ds::sleep_for(T);
        if (noise.joinable())
            noise.join();
        ds::wait_quiescent(false);
        t_end_lo = ds::now();
        s.stop();
        t_end_hi = ds::now();
    });
    std::map<int, std::vector<uint64_t>> starts;
    for (int i = 0; i < rec::size(); ++i)
        if (rec::at(i).kind == BEG)
            starts[(int)rec::at(i).a].push_back(rec::at(i).time);
    for (auto& p : ps)
    {
        auto& v = starts[p.id];
        hx::count("occurrences", v.size());
        const auto where = [&](size_t i) { return hx::cat("occurrence ", i + 1, " of task ", p.id, " (first due at ", (p.first_lo - t0) / 1000.0, " us, interval ", p.I / 1000.0, " us", p.upd_I ? hx::cat(", updated to ", p.upd_I / 1000.0, " us at ", (p.upd_at - t0) / 1000.0, " us") : std::string(), ")"); };
        // the due times: first + k*I, later base + k*upd_I
        std::vector<uint64_t> due;
        const uint64_t slack = p.first_hi - p.first_lo; // how precisely the first due time is known (a few clock reads)
        uint64_t d = p.first_lo;
        bool ambiguous = false;
        const uint64_t horizon = t_end_lo; // what is due shortly before must have run; until stop() has returned it may
        if (p.upd_I)
        {
            for (; d <= p.upd_at; d += p.I)
            {
                due.push_back(d);
                ambiguous |= d + EPS + slack > p.upd_at;
            }
            d -= p.I; // the last due time so far, or the first one minus the interval
            while (d < p.upd_at)
            {
                d += p.upd_I;
                ambiguous |= d < p.upd_at + EPS && d + EPS + slack > p.upd_at;
            }
            for (; d <= t_end_hi; d += p.upd_I)
                due.push_back(d);
            if (!ambiguous)
                hx::count("interval_updates");
        }
        else
            for (; d <= t_end_hi; d += p.I)
                due.push_back(d);
        if (ambiguous)
        {
            hx::count("ambiguous_updates");
            continue;
        }
        if (slack > EPS && mode != 2)
        {
            hx::count("imprecise_first");
            continue;
        }
        for (size_t i = 0; i < v.size(); ++i)
            if (i >= due.size() || v[i] < due[i])
                hx::fail("early", hx::cat(where(i), " started at ", (v[i] - t0) / 1000.0, " us, before its due time", i < due.size() ? hx::cat(" ", (due[i] - t0) / 1000.0, " us") : std::string(" (more occurrences than due times)"), "; ", timeline(t0)));
        if (mode <= 1)
        {
            for (size_t i = 0; i < due.size(); ++i)
            {
                if (due[i] + slack + EPS > horizon)
                    break;
                if (i >= v.size())
                    hx::fail("occurrence-missing", hx::cat(where(i), " due at ", (due[i] - t0) / 1000.0, " us never started; ", timeline(t0)));
                if (v[i] > due[i] + slack + EPS)
                    hx::fail("off-grid", hx::cat(where(i), " due at ", (due[i] - t0) / 1000.0, " us started at ", (v[i] - t0) / 1000.0, " us; ", timeline(t0)));
            }
            hx::count("occurrences_on_grid", v.size());
        }
        if (mode == 3)
        {
            // late wake-ups: passed due times are skipped, not replayed, and the grid is kept
            for (size_t i = 0; i + 1 < v.size(); ++i)
            {
                const uint64_t from = v[i] > EPS ? v[i] - EPS : 0, to = v[i + 1];
                // a due time in (from, to] (the first due time is known up to slack)
                const uint64_t kf = from < p.first_lo ? 0 : (from - p.first_lo) / p.I + 1;
                const uint64_t k_time = p.first_lo + kf * p.I;
                if (k_time > to)
                    hx::fail("replayed", hx::cat(where(i + 1), " started at ", (to - t0) / 1000.0, " us, right after the one at ", (v[i] - t0) / 1000.0, " us, with no due time in between; ", timeline(t0)));
                hx::count("skips_checked");
                if ((v[i + 1] - p.first_lo) / p.I > (v[i] - p.first_lo) / p.I + 1)
                    hx::count("due_times_skipped");
            }
        }
    }
    hx::state(ds::trace_hash());
    if (hx::want_sample())
        hx::sample(timeline(t0));
}

// ------------------------------------------------------------------- delays and intervals too long for the clock
ns too_long(hx::rng& r)
{
    const int64_t m = ns::max().count();
    switch (r.below(4))
    {
    case 0: return ns::max();
    case 1: return ns(m - (int64_t)r.below(1000));
    case 2: return ns(m - (int64_t)r.below(1000 * MS)); // the sum with the clock is still too large
    default: return std::chrono::duration_cast<ns>(std::chrono::hours(m / 3600 / 1000000000)) - ns((int64_t)r.below(1000));
    }
}
// a delay that the clock can represent, but that never elapses here
ns very_long(hx::rng& r) { return ns(ns::max().count() / (int64_t)r.in(2, 100000)); }

void forever_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    const unsigned req = (unsigned)r.in(1, 4);
    const uint64_t t0 = cfg.start_time;
    std::vector<int> never;
    std::vector<shot> soon;
    ds::run(cfg, [&] {
        task_scheduler s;
        s.start(req);
        std::vector<std::future<int>> futures;
        std::vector<std::string> names;
        std::thread other;
        if (r.chance(30))
            other = std::thread([&] {
                hx::rng rr(seed + 3);
                for (int i = 0; i < 3; ++i)
                {
                    ds::sleep_for(rr.below(3 * MS));
                    shot x = add_shot(s, rr, false);
                    if (const std::string w = x.check(); !w.empty())
                        hx::fail("wrong-result", w);
                }
            });
        const int k = (int)r.in(2, 7);
        for (int i = 0; i < k; ++i)
        {
            if (r.chance(40))
            {
                soon.push_back(add_shot(s, r, r.chance(40)));
                continue;
            }
            const int id = new_id();
            const ns d = r.chance(70) ? too_long(r) : very_long(r);
            never.push_back(id);
            rec::add(ADD_INV, id);
            auto fn = [id] { scope sc(id); return id; };
            auto fn1 = [id](const std::string&) { scope sc(id); return id; };
            std::optional<std::future<int>> f;
            std::string name = "never " + std::to_string(id);
            switch (r.below(5))
            {
            case 0: f = s.in(ns(d), fn); name.clear(); break;
            case 1: f = s.in(ns(d), fn1, std::string("x")); name.clear(); break;
            case 2: f = s.in(std::string(name), ns(d), fn); break;
            case 3: f = s.in(std::string(name), ns(d), fn1, std::string("x")); break;
            default: f = s.at(std::string(name), clock::time_point::max() - ns((int64_t)r.below(3)), fn); break;
            }
            rec::add(ADD_RET, id);
            if (!f)
                hx::fail("refused", hx::cat("a task due in ", d.count(), " ns was refused by a running scheduler"));
            futures.push_back(std::move(*f));
            if (!name.empty())
                names.push_back(name);
            if (r.chance(40))
                ds::sleep_for(r.below(4 * MS));
        }
        for (auto& x : soon)
            if (const std::string w = x.check(); !w.empty())
                hx::fail("wrong-result", w);
        if (other.joinable())
            other.join();
        ds::sleep_for(r.below(30 * MS));
        ds::wait_quiescent(false);
        for (int id : never)
            if (rec::get(V_EXEC + id))
                hx::fail("early", hx::cat("one-shot task ", id, " with a time point too far in the future to be reached was executed; ", timeline(t0)));
        for (auto& nm : names)
            if (!s.is_scheduled(nm))
                hx::fail("tasks-left", hx::cat("task '", nm, "', whose time has not come, is not scheduled any more"));
        if (s.tasks_size() != never.size())
            hx::fail("tasks-left", hx::cat(s.tasks_size(), " tasks scheduled, ", never.size(), " are waiting for a time that never comes"));
        s.stop();
        for (auto& f : futures)
        {
            if (f.wait_for(0s) != std::future_status::ready)
                hx::fail("future-pending", "the future of a task dropped by stop() is not ready");
            try
            {
                f.get();
                hx::fail("early", "the future of a task whose time never came delivered a value");
            }
            catch (const std::future_error&)
            {
            }
        }
    });
    for (auto& x : soon)
    {
        const int64_t ex = rec::get(V_EXEC + x.id);
        if (ex != 1)
            hx::fail("not-exactly-once", hx::cat("one-shot task ", x.id, " executed ", ex, " times next to tasks of the far future; ", timeline(t0)));
        hx::count("one_shots");
    }
    hx::count("never_due", never.size());
    hx::state(ds::trace_hash());
    if (hx::want_sample())
        hx::sample(timeline(t0));
}

void pause_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.nprocs = 8;
    cfg.start_time = r.pick<uint64_t>({1000, 100'000, 86'400'000, 20'000'000'000}) * MS + r.below(1000 * MS); // a second to months of uptime
    const uint64_t t0 = cfg.start_time;
    ds::run(cfg, [&] {
        task_scheduler s;
        s.start(8);
        // a task with an everlasting interval runs at its first due time only
        const int once = new_id();
        const bool with_once = r.chance(70);
        uint64_t delay = 0;
        if (with_once)
        {
            auto fn = [once] { scope sc(once); };
            auto fn1 = [once](int) { scope sc(once); };
            const ns I = r.chance(70) ? too_long(r) : very_long(r);
            bool ok = false;
            switch (r.below(4))
            {
            case 0: ok = s.every(ns(I), fn); break;
            case 1: ok = s.every("once", ns(I), fn); break;
            case 2: ok = s.every("once", ns(I), fn1, 3); break;
            default: delay = r.below(6 * MS); ok = s.every("once", ns(I), ns((int64_t)delay), fn1, 3); break;
            }
            if (!ok)
                hx::fail("refused", "every() with a very long interval was refused by a running scheduler");
        }
        // one whose first due time never comes
        const int never = new_id();
        const bool with_never = r.chance(50);
        if (with_never && !s.every("never", ns((int64_t)r.in(1, 5) * (int64_t)MS), too_long(r), [never](int) { scope sc(never); }, 1))
            hx::fail("refused", "every() with a very long delay was refused by a running scheduler");
        // a task paused by an everlasting interval, then resumed
        const int id = new_id();
        const uint64_t I = (uint64_t)r.in(1, 4) * MS;
        if (!s.every("p", ns((int64_t)I), [id] { scope sc(id); }))
            hx::fail("refused", "every() was refused by a running scheduler");
        ds::sleep_for(r.below(20 * MS) + EPS);
        ds::wait_quiescent(false);
        const ns huge = too_long(r);
        const int64_t ran = rec::get(V_EXEC + id);
        if (ran < 1)
            hx::fail("occurrence-missing", hx::cat("a periodic task has not run at its first due time; ", timeline(t0)));
        if (!s.update_interval("p", huge))
            hx::fail("update-refused", "update_interval() of a scheduled periodic task returned false");
        if (s.get_interval("p") != std::optional<clock::duration>(huge))
            hx::fail("interval-wrong", "get_interval() after update_interval() returns another interval");
        // Its previous due time plus the new interval is out of reach.
        ds::sleep_for(r.below(30 * MS));
        ds::wait_quiescent(false);
        if (rec::get(V_EXEC + id) != ran)
            hx::fail("early", hx::cat("a periodic task whose interval was set to ", huge.count(), " ns ran ", rec::get(V_EXEC + id) - ran, " times in the following milliseconds; ", timeline(t0)));
        if (!s.is_scheduled("p"))
            hx::fail("lost", "a periodic task with a very long interval is not scheduled any more");
        hx::count("paused");
        if (r.chance(70))
        {
            const uint64_t J = (uint64_t)r.in(1, 4) * MS;
            if (!s.update_interval("p", ns((int64_t)J)))
                hx::fail("update-refused", "update_interval() of a scheduled periodic task returned false");
            const uint64_t from = ds::now();
            const int64_t k = r.in(1, 6);
            ds::sleep_for((uint64_t)k * J + 4 * EPS);
            ds::wait_quiescent(false);
            std::vector<uint64_t> b;
            for (int i = 0; i < rec::size(); ++i)
                if (rec::at(i).kind == BEG && rec::at(i).a == id && rec::at(i).time >= from - EPS)
                    b.push_back(rec::at(i).time);
            if ((int64_t)b.size() < k || (int64_t)b.size() > k + 1)
                hx::fail("off-grid", hx::cat("a periodic task resumed with an interval of ", J, " ns ran ", b.size(), " times within ", k, " intervals; ", timeline(t0)));
            for (size_t i = 1; i < b.size(); ++i)
                if (b[i] - b[i - 1] > J + EPS || b[i] - b[i - 1] < J - EPS)
                    hx::fail("off-grid", hx::cat("occurrences of a periodic task resumed with an interval of ", J, " ns are ", b[i] - b[i - 1], " ns apart; ", timeline(t0)));
            hx::count("resumed");
        }
        else
            ds::sleep_for(delay + 4 * EPS);
        ds::wait_quiescent(false);
        if (with_once)
        {
            const int64_t want = ds::now() > t0 + delay + 10 * EPS + 20 * MS ? 1 : -1;
            const int64_t ex = rec::get(V_EXEC + once);
            if (ex > 1 || (want == 1 && ex != 1))
                hx::fail(ex > 1 ? "early" : "occurrence-missing", hx::cat("a periodic task with an interval too long to pass ran ", ex, " times; ", timeline(t0)));
            hx::count("ran_once", (uint64_t)ex);
        }
        if (with_never && rec::get(V_EXEC + never))
            hx::fail("early", hx::cat("a periodic task whose first due time is out of reach has run; ", timeline(t0)));
        s.stop();
    });
    hx::state(ds::trace_hash());
    if (hx::want_sample())
        hx::sample(timeline(t0));
}

// Intervals, delays and lateness of any length, on a clock that only moves when everybody waits: every start is known exactly.
void leap_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.clock_tick = 0;
    constexpr int64_t S = 1000 * (int64_t)MS, DAY = 86400 * S, YEAR = 365 * DAY;
    cfg.start_time = (uint64_t)r.pick<int64_t>({S, DAY, 100 * DAY, 20 * YEAR}) + r.below(1000 * MS);
    const uint64_t t0 = cfg.start_time;
    auto any_length = [&r, S = S, DAY = DAY, YEAR = YEAR] {
        switch (r.below(5))
        {
        case 0: return r.in(10 * (int64_t)EPS, 5 * (int64_t)MS);
        case 1: return r.in((int64_t)MS, 10 * S);
        case 2: return r.in(S, DAY);
        case 3: return r.in(DAY, YEAR);
        default: return r.in(YEAR, 50 * YEAR);
        }
    };
    struct task_t
    {
        int id;
        std::string name;
        int64_t I, due;
        bool enabled = true, first = true;
        std::vector<int64_t> starts;
        std::string story;
    };
    std::vector<task_t> ts;
    auto catch_up = [](task_t& t, int64_t now) {
        while (t.due <= now)
        {
            if (t.enabled)
                t.starts.push_back(now);
            t.first = false;
            const int64_t k = std::max<int64_t>(1, (int64_t)(((uint64_t)now - (uint64_t)t.due + (uint64_t)t.I - 1) / (uint64_t)t.I));
            if (k > 1)
                hx::count("due_times_skipped", (uint64_t)k - 1);
            t.due += k * t.I;
        }
    };
    ds::run(cfg, [&] {
        task_scheduler s;
        s.start(2);
        const int n = (int)r.in(1, 3), steps = (int)r.in(2, 12);
        auto add = [&] {
            task_t t;
            t.id = new_id();
            t.I = any_length();
            t.name = "leap " + std::to_string(t.id);
            int64_t delay = 0;
            switch (r.below(4))
            {
            case 0: break;
            case 1: delay = any_length(); break;
            case 2: delay = -any_length(); break;
            default: delay = r.in(0, t.I); break;
            }
            const int64_t now = (int64_t)ds::now();
            const int id = t.id;
            auto fn = [id](int) { scope sc(id); };
            const bool ok = delay == 0 && r.chance(70) ? s.every(std::string(t.name), ns(t.I), fn, 1) : s.every(std::string(t.name), ns(t.I), ns(delay), fn, 1);
            if (!ok)
                hx::fail("refused", "every() with a fresh id was refused by a running scheduler");
            t.story = hx::cat("every ", t.I, " ns, delay ", delay, " ns, at ", now - (int64_t)t0);
            t.due = now + delay;
            if (delay < 0)
                hx::count("first_due_in_the_past");
            catch_up(t, now);
            ts.push_back(t);
        };
        add();
        for (int q = 0; q < steps; ++q)
        {
            ds::wait_quiescent(false);
            const int64_t now = (int64_t)ds::now();
            task_t& t = r.pick(ts);
            int64_t min_I = INT64_MAX, min_due = INT64_MAX;
            for (auto& x : ts)
            {
                min_I = std::min(min_I, x.I);
                min_due = std::min(min_due, x.due);
            }
            switch (r.below(6))
            {
            case 0:
                if ((int)ts.size() < n)
                    add();
                break;
            case 1:
            {
                const int64_t J = any_length();
                if (t.first && t.due > now)
                    hx::count("updates_before_the_first");
                if (!s.update_interval(t.name, ns(J)))
                    hx::fail("update-refused", "update_interval() of a scheduled periodic task returned false");
                if (s.get_interval(t.name) != std::optional<clock::duration>(ns(J)))
                    hx::fail("interval-wrong", "get_interval() after update_interval() returns another interval");
                t.due -= t.I;
                if (t.due <= now)
                    t.due += ((now - t.due) / J + 1) * J;
                t.I = J;
                t.story += hx::cat("; updated to ", J, " ns at ", now - (int64_t)t0);
                hx::count("updates");
                break;
            }
            case 2:
                t.enabled = r.chance(50);
                if (!s.set_enabled(t.name, t.enabled))
                    hx::fail("enable-refused", "set_enabled() of a scheduled periodic task returned false");
                t.story += hx::cat(t.enabled ? "; enabled at " : "; disabled at ", now - (int64_t)t0);
                break;
            case 3:
            {
                // nobody runs for some time
                const int64_t late = r.chance(50) ? (min_due - now) + r.in(0, 12) * (min_I / 4) : any_length();
                if (late <= 0 || late > 10 * YEAR)
                    break;
                ds::advance((uint64_t)late);
                ds::wait_quiescent(false);
                for (auto& x : ts)
                    catch_up(x, now + late);
                hx::count("late_wake_ups");
                break;
            }
            default:
            {
                int64_t to = r.chance(50) ? min_due : now;
                to += r.in(0, 4) * (min_I / 2) + r.in(0, 99);
                if (to - now > 10 * YEAR)
                    to = now + r.in(0, min_I);
                if (to - now > 10 * YEAR)
                    break;
                // one due time after the other
                while (true)
                {
                    auto x = std::min_element(ts.begin(), ts.end(), [](auto& a, auto& b) { return a.due < b.due; });
                    if (x->due > to)
                        break;
                    catch_up(*x, x->due);
                }
                if (to > now)
                    ds::sleep_for((uint64_t)(to - now));
                ds::wait_quiescent(false);
                break;
            }
            }
        }
        ds::wait_quiescent(false);
        if (s.tasks_size() != ts.size())
            hx::fail("lost", hx::cat("tasks_size() is ", s.tasks_size(), " with ", ts.size(), " periodic tasks scheduled"));
        s.stop();
    });
    std::map<int, std::vector<int64_t>> starts;
    for (int i = 0; i < rec::size(); ++i)
        if (rec::at(i).kind == BEG)
            starts[(int)rec::at(i).a].push_back((int64_t)rec::at(i).time);
    for (auto& t : ts)
    {
        auto& v = starts[t.id];
        if (v != t.starts)
        {
            size_t i = 0;
            while (i < v.size() && i < t.starts.size() && v[i] == t.starts[i])
                ++i;
            auto show = [&](const std::vector<int64_t>& w) { return i < w.size() ? hx::cat("at ", w[i] - (int64_t)t0) : std::string("nowhere"); };
            const bool early = i < v.size() && (i >= t.starts.size() || v[i] < t.starts[i]);
            hx::fail(i >= v.size() ? "occurrence-missing" : early ? "early" : "off-grid", hx::cat("occurrence ", i + 1, " of a periodic task started ", show(v), " instead of ", show(t.starts), " (", t.story, "; times in ns since the start of the run); ", timeline(t0)));
        }
        hx::count("occurrences", v.size());
    }
    hx::state(ds::trace_hash());
    if (hx::want_sample())
        hx::sample(ts.empty() ? std::string() : ts[0].story);
}

// ------------------------------------------------------------------------------------- management, exact model
struct mtask
{
    int inst;
    std::string name; // empty: none
    uint64_t due;
    uint64_t I; // 0: one-shot
    bool enabled = true;
};

// Two different texts with the same std::hash (libstdc++'s MurmurHash64A, which can be inverted block by block). Where the
// library's hash is another one they are just two more names.
std::pair<std::string, std::string> colliding(hx::rng& r)
{
    const uint64_t mul = (0xc6a4a793ull << 32) + 0x5bd1e995ull;
    uint64_t inv = mul;
    for (int i = 0; i < 6; ++i)
        inv *= 2 - mul * inv;
    auto shift = [](uint64_t v) { return v ^ (v >> 47); };
    auto f = [&](uint64_t k) { return shift(k * mul) * mul; };
    auto unf = [&](uint64_t y) { return shift(y * inv) * inv; };
    auto letters = [&] { uint64_t v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | (uint64_t)r.in('a', 'z'); return v; };
    const uint64_t h0 = 0xc70f6907ull ^ (16 * mul), a1 = letters(), a2 = letters(), b1 = letters();
    const uint64_t ha = (h0 ^ f(a1)) * mul, hb = (h0 ^ f(b1)) * mul;
    const uint64_t b2 = unf(ha ^ f(a2) ^ hb);
    auto text = [](uint64_t x, uint64_t y) { std::string t(16, 0); memcpy(t.data(), &x, 8); memcpy(t.data() + 8, &y, 8); return t; };
    auto p = std::make_pair(text(a1, a2), text(b1, b2));
    if (std::hash<std::string>()(p.first) == std::hash<std::string>()(p.second))
        hx::count("ids_with_equal_hashes");
    return p;
}

void mgmt_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.nprocs = 8;
    const uint64_t t0 = cfg.start_time;
    std::vector<std::string> names = {"a", "b", "", "a long task name with spaces", "B"};
    if (r.chance(30))
    {
        const auto [x, y] = colliding(r);
        names = {"a", x, y, x.substr(0, 15), "a"};
    }
    const int steps = (int)r.in(10, 45);
    ds::run(cfg, [&] {
        task_scheduler s;
        std::vector<mtask> model;
        std::map<int, std::vector<uint64_t>> expect;
        std::vector<std::string> log;
        auto say = [&](const std::string& x) { log.push_back(hx::cat("@", (ds::now() - t0) / 1000.0, "us ", x)); };
        auto bad = [&](const std::string& key, const std::string& what) {
            std::string l;
            for (size_t i = log.size() > 60 ? log.size() - 60 : 0; i < log.size(); ++i)
                l += log[i] + "; ";
            hx::fail(key, what + " -- calls: " + l);
        };
        auto advance_model = [&] {
            const uint64_t now = ds::now();
            for (size_t i = 0; i < model.size();)
            {
                mtask& m = model[i];
                if (m.due > now)
                {
                    ++i;
                    continue;
                }
                if (m.enabled)
                    expect[m.inst].push_back(m.due);
                if (m.I)
                    m.due += m.I; // checked again
                else
                    model.erase(model.begin() + (long)i);
            }
        };
        // no due time close to the present, everything due has been processed
        auto settle = [&] {
            for (;;)
            {
                ds::wait_quiescent(false);
                const uint64_t now = ds::now();
                bool close = false;
                for (auto& m : model)
                {
                    uint64_t d = m.due;
                    while (m.I && d + m.I <= now + EPS)
                        d += m.I;
                    close |= d + 2 * EPS > now && d < now + 2 * EPS;
                    if (m.I)
                    {
                        d += m.I;
                        close |= d + 2 * EPS > now && d < now + 2 * EPS;
                    }
                }
                if (!close)
                    break;
                ds::sleep_for(5 * EPS);
            }
            advance_model();
        };
        auto compare_runs = [&] {
            std::map<int, std::vector<uint64_t>> got;
            for (int i = 0; i < rec::size(); ++i)
                if (rec::at(i).kind == BEG)
                    got[(int)rec::at(i).a].push_back(rec::at(i).time);
            for (int id = 1; id <= (int)rec::get(V_IDS); ++id)
            {
                auto& e = expect[id];
                auto& g = got[id];
                auto list = [&](auto& v) { std::string o; for (auto t : v) o += hx::cat((t - t0) / 1000.0, " "); return o; };
                bool same = e.size() == g.size();
                for (size_t i = 0; same && i < e.size(); ++i)
                    same = g[i] >= e[i] && g[i] <= e[i] + EPS;
                if (!same)
                    bad("wrong-occurrences", hx::cat("task instance ", id, " ran at [", list(g), "] us, expected [", list(e), "] us"));
            }
        };
        auto find = [&](const std::string& n) -> mtask* {
            for (auto& m : model)
                if (!m.name.empty() && m.name == "#" + n)
                    return &m;
            return nullptr;
        };
        s.start(8);
        for (int k = 0; k < steps; ++k)
        {
            settle();
            const std::string n = r.pick(names);
            mtask* m = find(n);
            const uint64_t now = ds::now();
            switch (r.below(14))
            {
            case 0:
            case 1: // one-shot with id
            {
                const int inst = new_id();
                const int64_t delta = r.chance(10) ? -(int64_t)r.below(MS) - 1000 : (int64_t)r.below(8 * MS) + 60000;
                const bool rel = r.chance(50);
                say(hx::cat(rel ? "in" : "at", "(", hx::quote(n), ", ", delta / 1000.0, "us) as instance ", inst));
                auto fn = [inst] { scope sc(inst); return inst; };
                auto f = rel ? s.in(std::string(n), ns(delta), fn) : s.at(std::string(n), tp_of((uint64_t)((int64_t)now + delta)), fn);
                if (f.has_value() != !m)
                    bad("schedule-result", hx::cat("scheduling id ", hx::quote(n), " was ", f ? "accepted" : "refused", " although it was ", m ? "" : "not ", "scheduled"));
                if (f)
                    model.push_back({inst, "#" + n, std::max((uint64_t)((int64_t)now + delta), now), 0});
                break;
            }
            case 2:
            case 3: // periodic with id
            {
                const int inst = new_id();
                const uint64_t I = (uint64_t)r.in(300'000, 5'000'000), delay = r.chance(50) ? r.below(6 * MS) + 60000 : 0;
                say(hx::cat("every(", hx::quote(n), ", ", I / 1000.0, "us, delay ", delay / 1000.0, "us) as instance ", inst));
                auto fn = [inst](int) { scope sc(inst); };
                const bool ok = delay ? s.every(std::string(n), ns(I), ns(delay), fn, 3) : s.every(std::string(n), ns(I), fn, 3);
                if (ok != !m)
                    bad("schedule-result", hx::cat("scheduling id ", hx::quote(n), " was ", ok ? "accepted" : "refused", " although it was ", m ? "" : "not ", "scheduled"));
                if (ok)
                    model.push_back({inst, "#" + n, now + delay, I});
                break;
            }
            case 4: // anonymous
            {
                const int inst = new_id();
                if (r.chance(50) && model.size() < 8)
                {
                    const uint64_t I = (uint64_t)r.in(1'000'000, 6'000'000);
                    say(hx::cat("every(", I / 1000.0, "us) as instance ", inst));
                    if (!s.every(ns(I), [inst] { scope sc(inst); }))
                        bad("schedule-result", "every() without id was refused");
                    model.push_back({inst, "", now, I});
                }
                else
                {
                    const uint64_t delta = r.below(8 * MS) + 60000;
                    say(hx::cat("in(", delta / 1000.0, "us) as instance ", inst));
                    if (!s.in(ns(delta), [inst] { scope sc(inst); }))
                        bad("schedule-result", "in() without id was refused");
                    model.push_back({inst, "", now + delta, 0});
                }
                break;
            }
            case 5:
            {
                say(hx::cat("remove_task(", hx::quote(n), ")"));
                if (s.remove_task(n) != !!m)
                    bad("remove-result", hx::cat("remove_task(", hx::quote(n), ") returned ", !m));
                if (m)
                    model.erase(model.begin() + (m - model.data()));
                break;
            }
            case 6:
            case 7:
            {
                const bool en = r.chance(50);
                say(hx::cat("set_enabled(", hx::quote(n), ", ", en, ")"));
                if (s.set_enabled(n, en) != !!m)
                    bad("set-enabled-result", hx::cat("set_enabled(", hx::quote(n), ") returned ", !m));
                if (m)
                    m->enabled = en;
                break;
            }
            case 8:
            {
                const uint64_t I = (uint64_t)r.in(300'000, 5'000'000);
                say(hx::cat("update_interval(", hx::quote(n), ", ", I / 1000.0, "us)"));
                const bool want = m && m->I;
                if (want)
                {
                    // stay away from ambiguous instants
                    uint64_t d = m->due - m->I;
                    while (d < now)
                        d += I;
                    if (d < now + EPS)
                        break;
                    m->due = d;
                    m->I = I;
                }
                if (s.update_interval(n, ns(I)) != want)
                    bad("update-result", hx::cat("update_interval(", hx::quote(n), ") returned ", !want));
                break;
            }
            case 9: // an interval that is not positive: refused, without side effects
            {
                if (r.chance(50))
                    break;
                const int64_t I = r.pick<int64_t>({0, 0, -1, -1000000, std::numeric_limits<int64_t>::min()});
                const int how = (int)r.below(4);
                say(hx::cat(how == 0 ? "update_interval(" : "every(", hx::quote(n), ", ", I, "ns)"));
                auto fn = [](int) { scope sc(0); };
                bool ok = false;
                switch (how)
                {
                case 0: ok = s.update_interval(n, ns(I)); break;
                case 1: ok = s.every(std::string(n), ns(I), fn, 3); break;
                case 2: ok = s.every(std::string(n), ns(I), ns((int64_t)r.below(3 * MS)), fn, 3); break;
                default: ok = s.every(ns(I), fn, 3);
                }
                if (ok)
                    bad("interval-not-positive", hx::cat("an interval of ", I, " ns was accepted"));
                hx::count("intervals_not_positive");
                break;
            }
            default:
                break;
            }
            if (r.chance(60))
                ds::sleep_for(r.below(4 * MS));
            settle();
            for (auto& q : names)
            {
                mtask* x = find(q);
                if (s.is_scheduled(q) != !!x)
                    bad("is-scheduled-wrong", hx::cat("is_scheduled(", hx::quote(q), ") is ", !x));
                if (s.is_enabled(q) != (x && x->enabled))
                    bad("is-enabled-wrong", hx::cat("is_enabled(", hx::quote(q), ") is ", !(x && x->enabled)));
                auto iv = s.get_interval(q);
                if (iv.has_value() != (x && x->I) || (iv && iv->count() != (int64_t)x->I))
                    bad("get-interval-wrong", hx::cat("get_interval(", hx::quote(q), ") is ", iv ? iv->count() : -1));
            }
            if (s.tasks_size() != model.size())
                bad("tasks-size-wrong", hx::cat("tasks_size() is ", s.tasks_size(), ", ", model.size(), " tasks are scheduled"));
            compare_runs();
            hx::count("steps");
        }
        s.stop();
        uint64_t total = 0;
        for (auto& [k, v] : expect)
            total += v.size();
        hx::count("occurrences_compared", total);
        std::string l;
        for (auto& x : log)
            l += x + "; ";
        hx::state(hx::hash_str(l));
        if (hx::want_sample())
            hx::sample(l);
    });
}

// Concurrent management: results must be explainable by some order of the calls (nothing becomes due meanwhile).
struct mop
{
    int kind; // 0 schedule one-shot, 1 schedule periodic, 2 remove, 3 set_enabled(true), 4 set_enabled(false), 5 is_scheduled, 6 is_enabled, 7 tasks_size, 8 get_interval, 9 update_interval
    int key;
    int64_t arg, res;
    int inv, ret;
};
const char* mop_name[] = {"in", "every", "remove_task", "enable", "disable", "is_scheduled", "is_enabled", "tasks_size", "get_interval", "update_interval"};
struct mstate
{
    int64_t v[3] = {-1, -1, -1}; // -1 free, otherwise interval*2 + enabled
    auto operator<=>(const mstate&) const = default;
};
bool mlin(const std::vector<mop>& h, uint64_t done, mstate st, std::set<std::pair<uint64_t, mstate>>& seen)
{
    if (done == (1ull << h.size()) - 1)
        return true;
    if (!seen.insert({done, st}).second)
        return false;
    int minret = 1 << 30;
    for (size_t i = 0; i < h.size(); ++i)
        if (!(done >> i & 1))
            minret = std::min(minret, h[i].ret);
    for (size_t i = 0; i < h.size(); ++i)
    {
        const mop& o = h[i];
        if ((done >> i & 1) || o.inv > minret)
            continue;
        mstate n = st;
        int64_t& v = n.v[o.key];
        int64_t want = 0;
        switch (o.kind)
        {
        case 0: want = v < 0; if (want) v = 1; break;
        case 1: want = v < 0; if (want) v = o.arg * 2 + 1; break;
        case 2: want = v >= 0; v = -1; break;
        case 3: want = v >= 0; if (want) v |= 1; break;
        case 4: want = v >= 0; if (want) v &= ~1ll; break;
        case 5: want = v >= 0; break;
        case 6: want = v >= 0 && (v & 1); break;
        case 7: for (auto x : st.v) want += x >= 0; break;
        case 8: want = v >= 2 ? v / 2 : 0; break;
        case 9: want = v >= 2; if (want) v = o.arg * 2 + (v & 1); break;
        }
        if (want == o.res && mlin(h, done | 1ull << i, n, seen))
            return true;
    }
    return false;
}
void mgmtc_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    const int nt = (int)r.in(2, 4), per = (int)r.in(2, 5);
    std::string names[3] = {"x", "y", "z"};
    if (r.chance(30))
        std::tie(names[0], names[1]) = colliding(r);
    const int nkeys = (int)r.in(1, 3);
    ds::run(cfg, [&] {
        task_scheduler s;
        s.start(2);
        std::vector<std::thread> th;
        for (int t = 0; t < nt; ++t)
            th.emplace_back([&, t] {
                hx::rng rr(seed * 19 + t);
                for (int i = 0; i < per; ++i)
                {
                    const int kind = (int)rr.below(10), key = (int)rr.below(nkeys);
                    const int64_t arg = rr.in(1, 1000);
                    const std::string& n = names[key];
                    int64_t res = 0;
                    const int inv = rec::add(OTHER, kind, key, arg);
                    switch (kind)
                    {
                    case 0: res = s.in(std::string(n), ns(std::chrono::hours(1)), [] { hx::fail("early", "a task ran an hour early"); }).has_value(); break;
                    case 1: res = s.every(std::string(n), ns(arg * 1000000000), ns(std::chrono::hours(2)), [] { hx::fail("early", "a task ran hours early"); }); break;
                    case 2: res = s.remove_task(n); break;
                    case 3: res = s.set_enabled(n, true); break;
                    case 4: res = s.set_enabled(n, false); break;
                    case 5: res = s.is_scheduled(n); break;
                    case 6: res = s.is_enabled(n); break;
                    case 7: res = (int64_t)s.tasks_size(); break;
                    case 8:
                    {
                        auto iv = s.get_interval(n);
                        res = iv ? std::chrono::duration_cast<std::chrono::seconds>(*iv).count() : 0;
                        break;
                    }
                    default: res = s.update_interval(n, ns(arg * 1000000000)); break;
                    }
                    rec::add(ADD_RET, inv, res);
                }
            });
        for (auto& t : th)
            t.join();
        s.stop();
    });
    std::vector<mop> h;
    std::map<int, size_t> idx;
    for (int i = 0; i < rec::size(); ++i)
    {
        const rec::ev& e = rec::at(i);
        if (e.kind == OTHER)
        {
            idx[i] = h.size();
            h.push_back({(int)e.a, (int)e.b, e.c, 0, i, 1 << 30});
        }
        else if (e.kind == ADD_RET)
        {
            h[idx[(int)e.a]].res = e.b;
            h[idx[(int)e.a]].ret = i;
        }
    }
    std::set<std::pair<uint64_t, mstate>> seen;
    std::string l;
    for (auto& o : h)
        l += hx::cat("[", o.inv, ",", o.ret, "] ", mop_name[o.kind], "(", names[o.key], ") -> ", o.res, "; ");
    if (!mlin(h, 0, {}, seen))
        hx::fail("management-not-atomic", "no order of the concurrent calls explains their results: " + l);
    hx::count("calls", h.size());
    hx::state(hx::hash_str(l));
}

// -------------------------------------------------------------------------------------------------- life cycle
struct lop
{
    int kind; // 0 start, 1 stop, 2 add
    bool res;
    int inv, ret;
};
bool lin_bool(const std::vector<lop>& h, uint64_t done, bool running, std::set<std::pair<uint64_t, bool>>& seen)
{
    if (done == (1ull << h.size()) - 1)
        return true;
    if (!seen.insert({done, running}).second)
        return false;
    int minret = 1 << 30;
    for (size_t i = 0; i < h.size(); ++i)
        if (!(done >> i & 1))
            minret = std::min(minret, h[i].ret);
    for (size_t i = 0; i < h.size(); ++i)
    {
        if ((done >> i & 1) || h[i].inv > minret)
            continue;
        bool ok, next = running;
        if (h[i].kind == 0)
            ok = h[i].res == !running, next = true;
        else if (h[i].kind == 1)
            ok = h[i].res == running, next = false;
        else
            ok = h[i].res == running;
        if (ok && lin_bool(h, done | 1ull << i, next, seen))
            return true;
    }
    return false;
}

void life_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    const int nctl = r.chance(50) ? 1 : (int)r.in(2, 3), nadd = (int)r.in(0, 3), per = (int)r.in(1, 5), nops = (int)r.in(2, 8);
    const uint64_t t0 = cfg.start_time;
    struct tsk
    {
        bool accepted = false;
        bool periodic = false;
        bool named = false;
        std::shared_ptr<std::future<int>> f;
    };
    std::vector<tsk> ts(1000);
    ds::run(cfg, [&] {
        auto s = std::make_unique<task_scheduler>();
        auto body = [](int id, uint64_t len) {
            scope sc(id);
            if (len)
                ds::sleep_for(len);
            return id;
        };
        auto name = [](int id) { return "task " + std::to_string(id); };
        // something that is done to some task, whether it is still there or not
        auto do_manage = [&](hx::rng& rr) {
            const int top = (int)rec::get(V_IDS);
            if (!top)
                return;
            const std::string which = name((int)rr.in(1, top));
            switch (rr.below(6))
            {
            case 0: s->remove_task(which); break;
            case 1: s->update_interval(which, ns((int64_t)rr.in(500'000, 3'000'000))); break;
            case 2: s->set_enabled(which, true); break;
            default: s->set_enabled(which, false); hx::count("disabled_or_tried");
            }
        };
        auto do_add = [&](hx::rng& rr) {
            const int id = new_id();
            const uint64_t len = rr.chance(30) ? rr.below(2 * MS) : 0;
            rec::add(ADD_INV, id);
            bool ok;
            const bool named = rr.chance(50);
            ts[id].named = named;
            if (rr.chance(30))
            {
                ts[id].periodic = true;
                ns iv((int64_t)rr.in(500'000, 3'000'000));
                ok = named ? s->every(name(id), std::move(iv), body, id, len) : s->every(std::move(iv), body, id, len);
            }
            else
            {
                ns delay(rr.chance(40) ? 0 : (int64_t)rr.below(5 * MS));
                auto f = named ? s->in(name(id), std::move(delay), body, id, len) : s->in(std::move(delay), body, id, len);
                ok = f.has_value();
                if (ok)
                    ts[id].f = std::make_shared<std::future<int>>(std::move(*f));
            }
            ts[id].accepted = ok;
            rec::add(ADD_RET, id, ok);
        };
        auto do_start = [&](hx::rng& rr) {
            rec::add(START_INV);
            const bool ok = s->start((unsigned)rr.in(1, 4));
            rec::add(START_RET, ok);
        };
        auto do_stop = [&](bool alone) {
            const int before = rec::add(STOP_INV);
            const bool ok = s->stop();
            rec::add(STOP_RET, ok);
            if (ok && alone)
            {
                if (s->tasks_size() != 0)
                    hx::fail("tasks-left-after-stop", hx::cat("tasks_size() is ", s->tasks_size(), " after stop(); ", timeline(t0)));
                for (int id = 1; id <= (int)rec::get(V_IDS); ++id)
                    if (s->is_scheduled(name(id)) || s->is_enabled(name(id)) || s->get_interval(name(id)) || s->set_enabled(name(id), true) || s->remove_task(name(id)))
                        hx::fail("task-left-after-stop", hx::cat("task ", id, " is known after stop(); ", timeline(t0)));
                for (int i = 0; i < before; ++i)
                    if (rec::at(i).kind == ADD_RET && rec::at(i).b && ts[rec::at(i).a].f)
                        if (ts[rec::at(i).a].f->wait_for(0s) != std::future_status::ready)
                            hx::fail("future-hangs", hx::cat("the future of task ", rec::at(i).a, ", accepted before stop(), is not ready after stop() returned; ", timeline(t0)));
            }
        };
        std::vector<std::thread> th;
        for (int c = 0; c < nctl; ++c)
            th.emplace_back([&, c] {
                hx::rng rr(seed * 23 + c);
                for (int i = 0; i < nops; ++i)
                {
                    switch (rr.below(7))
                    {
                    case 0:
                    case 1: do_start(rr); break;
                    case 6: do_manage(rr); break;
                    case 2: do_stop(nctl == 1 && nadd == 0); break;
                    case 3: ds::sleep_for(rr.below(6 * MS)); break;
                    default: do_add(rr); break;
                    }
                }
            });
        for (int c = 0; c < nadd; ++c)
            th.emplace_back([&, c] {
                hx::rng rr(seed * 29 + 50 + c);
                for (int i = 0; i < per; ++i)
                {
                    do_add(rr);
                    if (rr.chance(40))
                        do_manage(rr);
                    if (rr.chance(40))
                        ds::sleep_for(rr.below(4 * MS));
                }
            });
        for (auto& t : th)
            t.join();
        if (r.chance(40))
        {
            do_stop(true);
            const int id = new_id();
            rec::add(ADD_INV, id);
            auto f = s->in(ns(0), [] { return 1; });
            rec::add(ADD_RET, id, f.has_value());
            if (r.chance(60))
            {
                // stale work must not show up after a restart
                do_start(r);
                int again = 0;
                for (int k = 1; k <= (int)rec::get(V_IDS); ++k)
                {
                    if (s->set_enabled(name(k), true))
                        hx::fail("task-left-after-restart", hx::cat("task ", k, " is known after stop() and start(); ", timeline(t0)));
                    if (ts[k].named)
                        again = k;
                }
                ds::sleep_for(10 * MS);
                if (again && s->is_scheduled(name(again)))
                    hx::fail("task-left-after-restart", hx::cat("task ", again, " is scheduled after stop() and start(); ", timeline(t0)));
                if (again)
                {
                    // its id is free
                    int runs = 0;
                    auto g = s->in(name(again), ns(0), [&runs] { return ++runs; });
                    if (!g || g->get() != 1)
                        hx::fail("id-not-free-after-restart", hx::cat("the id of task ", again, " is refused after stop() and start(); ", timeline(t0)));
                    hx::count("ids_used_again");
                }
                do_add(r);
                ds::sleep_for(10 * MS);
            }
        }
        rec::add(STOP_INV, 1);
        s.reset();
        rec::add(STOP_RET, 2);
        const int n = (int)rec::get(V_IDS);
        for (int i = 1; i <= n; ++i)
            if (ts[i].f && ts[i].f->wait_for(0s) != std::future_status::ready)
                hx::fail("future-hangs", hx::cat("the future of task ", i, " is not ready although its scheduler was destroyed; ", timeline(t0)));
    });
    std::vector<lop> h, stops, starts;
    std::map<int, lop> open;
    struct span
    {
        int inv = -1, ret = 1 << 30;
    };
    std::map<int, span> adds;
    std::map<int, std::vector<int>> points; // begin and end events per task
    std::map<int, std::vector<int>> begins;
    for (int i = 0; i < rec::size(); ++i)
    {
        const rec::ev& e = rec::at(i);
        switch (e.kind)
        {
        case START_INV:
        case STOP_INV:
        case ADD_INV:
            open[e.tid] = {e.kind == START_INV ? 0 : e.kind == STOP_INV ? 1 : 2, false, i, 0};
            if (e.kind == ADD_INV)
                adds[(int)e.a].inv = i;
            break;
        case BEG:
            begins[(int)e.a].push_back(i);
            points[(int)e.a].push_back(i);
            break;
        case END: points[(int)e.a].push_back(i); break;
        default:
        {
            lop o = open[e.tid];
            o.res = e.kind == ADD_RET ? e.b != 0 : e.a != 0;
            o.ret = i;
            if (e.kind == ADD_RET)
                adds[(int)e.a].ret = i;
            if (o.kind == 1 && o.res)
                stops.push_back(o);
            if (o.kind == 0 && o.res)
                starts.push_back(o);
            if (!(e.kind == STOP_RET && e.a == 2))
                h.push_back(o);
        }
        }
    }
    if (h.size() <= 40)
    {
        std::set<std::pair<uint64_t, bool>> seen;
        if (!lin_bool(h, 0, false, seen))
            hx::fail("start-stop-results", "no order of the start/stop/schedule calls explains their results: " + timeline(t0));
        hx::count("start_stop_histories");
    }
    const int n = (int)rec::get(V_IDS);
    for (int i = 1; i <= n; ++i)
    {
        const int64_t ex = rec::get(V_EXEC + i);
        if (ex && !ts[i].accepted)
            hx::fail("refused-task-ran", hx::cat("task ", i, " ran although it was refused; ", timeline(t0)));
        if (ts[i].accepted && !ts[i].periodic)
        {
            if (ex > 1)
                hx::fail("executed-twice", hx::cat("one-shot task ", i, " executed ", ex, " times; ", timeline(t0)));
            if (ts[i].f)
            {
                bool val = false;
                try
                {
                    val = ts[i].f->get() == i;
                }
                catch (const std::future_error& e)
                {
                    if (e.code() != std::future_errc::broken_promise)
                        hx::fail("wrong-future-error", e.what());
                }
                if (val != (ex == 1))
                    hx::fail("future-lies", hx::cat("task ", i, " executed ", ex, " times but its future ", val ? "has a value" : "is broken", "; ", timeline(t0)));
                hx::count(val ? "one_shots_run" : "one_shots_dropped");
            }
        }
        for (int b : begins[i])
            for (auto& s : stops)
                if (adds[i].ret < s.inv && b > s.ret)
                    hx::fail("ran-after-stop", hx::cat("task ", i, ", scheduled before stop() (events ", s.inv, "..", s.ret, "), ran after it at event ", b, "; ", timeline(t0)));
        for (int tau : points[i])
            for (auto& s : stops)
            {
                if (s.ret >= tau)
                    continue;
                bool restarted = false;
                for (auto& a : starts)
                    restarted |= a.inv < tau && a.ret > s.inv;
                if (!restarted)
                    hx::fail("executing-while-stopped", hx::cat("task ", i, " was executing at event ", tau, " although stop() had returned at event ", s.ret, "; ", timeline(t0)));
            }
    }
    hx::count("stops", stops.size());
    hx::count("starts", starts.size());
    hx::count("context_switches", ds::switches());
    hx::state(ds::trace_hash());
    if (hx::want_sample() && n > 2)
        hx::sample(timeline(t0));
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
        {"oneshot", oneshot_iter},
        {"periodic", periodic_iter},
        {"forever", forever_iter},
        {"pause", pause_iter},
        {"leap", leap_iter},
        {"mgmt", mgmt_iter},
        {"mgmtc", mgmtc_iter},
        {"life", life_iter},
    });
}
