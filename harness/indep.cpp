// C41: instances of a component are independent of each other. A random but deterministic script of operations is run against
// an instance that is alone in the world and against two instances at the same time, each driven by its own thread: what can be
// observed of an instance (results, values, which of its callables ran when) must be the same. Virtual time makes "when" exact:
// the k-th operation of a script comes at k ns past a microsecond and everything it causes takes whole microseconds.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/argparse/argument_parser.hpp>
#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/datetime/date.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
#include <teiacare/sdk/datetime/time.hpp>
#include <teiacare/sdk/datetime/timedelta.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/geometry/line.hpp>
#include <teiacare/sdk/geometry/point.hpp>
#include <teiacare/sdk/geometry/range.hpp>
#include <teiacare/sdk/geometry/rectangle.hpp>
#include <teiacare/sdk/geometry/size.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/stopwatch.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>
#include <teiacare/sdk/uuid_generator.hpp>

#include <algorithm>
#include <chrono>
#include <functional>
#include <future>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <thread>
#include <utility>
#include <vector>

namespace
{
using ns = std::chrono::nanoseconds;
using namespace tc::sdk;
constexpr uint64_t US = 1000, MS = 1000 * US;
constexpr int EV = 1;

struct script
{
    hx::rng r;
    int me; // which instance
    uint64_t t0;
    std::vector<std::string> log;
    int op = 0;
    script(uint64_t seed, int instance) : r(seed), me(instance), t0(0) {}
    template <class... A>
    void note(const A&... a)
    {
        log.push_back(hx::cat(op, "@", ds::now() - t0, ": ", a...));
    }
    // time of the next operation
    void next(uint64_t most)
    {
        ++op;
        const uint64_t now = ds::now() - t0, at = (now / US + 1 + r.below(most / US + 1)) * US + (uint64_t)op;
        ds::sleep_for(at - now);
    }
};
// something of instance `me` runs
void ran(int me, int64_t what, int64_t arg = 0)
{
    rec::add(EV, me, what, arg);
}

void pool_script(script& s)
{
    hx::rng& r = s.r;
    auto p = std::make_unique<thread_pool>();
    std::vector<std::pair<int, std::future<int>>> fs;
    if (r.chance(60))
        s.note("start ", p->start((unsigned)r.in(1, 4)));
    for (int k = 0, n = (int)r.in(4, 14), id = 0; k < n; ++k)
    {
        s.next(20 * US);
        switch (r.below(8))
        {
        case 0: s.note("start ", p->start((unsigned)r.in(1, 4))); break;
        case 1:
            if (r.chance(30))
                s.note("stop ", p->stop());
            break;
        case 2: s.note("running ", p->is_running(), " threads ", p->threads_count()); break;
        case 3:
            if (r.chance(20))
            {
                p = std::make_unique<thread_pool>();
                s.note("replaced");
            }
            break;
        default: {
            const int i = ++id, me = s.me;
            const uint64_t d = r.chance(50) ? 0 : r.below(50) * US;
            fs.emplace_back(i, p->run([i, me, d] {
                ran(me, i, 1);
                if (d)
                    ds::sleep_for(d);
                ran(me, i, 2);
                if (i % 5 == 0)
                    throw i;
                return i * 3;
            }));
        }
        }
    }
    s.next(3 * MS);
    for (auto& [i, f] : fs)
        if (f.wait_for(ns(0)) == std::future_status::ready)
        {
            try
            {
                s.note("future ", i, " ", f.get());
            }
            catch (int e)
            {
                s.note("future ", i, " throws ", e);
            }
            catch (const std::future_error&)
            {
                s.note("future ", i, " broken");
            }
        }
        else
            s.note("future ", i, " waits");
    s.note("stop ", p->stop());
}

void queue_script(script& s)
{
    hx::rng& r = s.r;
    blocking_queue<std::string> q((size_t)r.in(1, 4));
    s.note("capacity ", q.capacity());
    for (int k = 0, n = (int)r.in(4, 30), id = 0; k < n; ++k)
    {
        if (r.chance(30))
            s.next(3 * US);
        switch (r.below(6))
        {
        case 0: s.note("try_push ", q.try_push(hx::cat("item ", ++id))); break;
        case 1: {
            const auto v = q.try_pop();
            s.note("try_pop ", v ? *v : "-");
            break;
        }
        case 2:
            if (q.size() < q.capacity())
                q.push(hx::cat("item ", ++id));
            s.note("size ", q.size());
            break;
        case 3:
            if (q.size())
                s.note("pop ", q.pop());
            break;
        case 4:
            if (q.size() == 0)
            {
                // blocks until another thread of this script pushes
                std::thread t([&q, id = ++id] {
                    ds::sleep_for(5 * US);
                    q.push(hx::cat("item ", id));
                });
                s.note("blocking pop ", q.pop());
                t.join();
            }
            break;
        default:
            if (q.size() == q.capacity())
            {
                std::string got;
                std::thread t([&q, &got] {
                    ds::sleep_for(7 * US);
                    got = q.pop();
                });
                q.push(hx::cat("item ", ++id));
                t.join();
                s.note("blocking push ", got);
            }
        }
    }
    while (auto v = q.try_pop())
        s.note("left ", *v);
}

void scheduler_script(script& s)
{
    hx::rng& r = s.r;
    auto t = std::make_unique<task_scheduler>();
    s.note("start ", t->start(4));
    auto name = [&] { return std::string(1, (char)('a' + r.below(4))); };
    std::vector<std::future<int>> fs;
    for (int k = 0, n = (int)r.in(4, 16), id = 0; k < n; ++k)
    {
        s.next(2 * MS);
        const std::string x = name();
        switch (r.below(10))
        {
        case 0:
        case 1: {
            const uint64_t d = r.below(3000) * US;
            auto f = t->in(std::string(x), ns(d), [me = s.me, i = ++id] { ran(me, i); return i; });
            s.note("in ", x, " ", (bool)f);
            if (f)
                fs.push_back(std::move(*f));
            break;
        }
        case 2: s.note("at ", (bool)t->at(std::string(x), clock::time_point(ns(ds::now() / US * US + r.below(3000) * US)), [me = s.me, i = ++id] { ran(me, i); })); break;
        case 3:
        case 4: s.note("every ", x, " ", t->every(std::string(x), ns(r.in(300, 3000) * US), ns(r.below(1000) * US), [me = s.me, i = ++id] { ran(me, i); })); break;
        case 5: s.note("remove ", x, " ", t->remove_task(x)); break;
        case 6: s.note("set_enabled ", x, " ", t->set_enabled(x, r.chance(50))); break;
        case 7: {
            const auto i = t->get_interval(x);
            s.note("scheduled ", t->is_scheduled(x), " enabled ", t->is_enabled(x), " interval ", i ? (int64_t)i->count() : -1, " size ", t->tasks_size());
            break;
        }
        case 8: s.note("update ", x, " ", t->update_interval(x, ns(r.in(300, 3000) * US))); break;
        default:
            if (r.chance(30))
            {
                s.note("stop ", t->stop());
                s.next(2 * MS);
                if (r.chance(30))
                    t = std::make_unique<task_scheduler>();
                s.note("start ", t->start(4));
            }
        }
    }
    s.next(4 * MS);
    for (auto& f : fs)
        if (f.wait_for(ns(0)) == std::future_status::ready)
        {
            try
            {
                s.note("future ", f.get());
            }
            catch (const std::future_error&)
            {
                s.note("future broken");
            }
        }
        else
            s.note("future waits");
    s.note("size ", t->tasks_size(), " stop ", t->stop());
}

void dispatcher_script(script& s)
{
    hx::rng& r = s.r;
    event_dispatcher d;
    std::vector<unsigned long> ids;
    if (r.chance(70))
        s.note("start ", d.start((unsigned)r.in(1, 3)));
    auto name = [&] { return std::string(1, (char)('a' + r.below(3))); };
    for (int k = 0, n = (int)r.in(4, 24), id = 0; k < n; ++k)
    {
        s.next(20 * US);
        const std::string x = name();
        switch (r.below(12))
        {
        case 0:
        case 1: ids.push_back(d.add_handler<int>(x, [me = s.me, i = ++id](int v) { ran(me, i, v); })); break;
        case 2: ids.push_back(d.add_handler<std::string>(x, [me = s.me, i = ++id](std::string v) { ran(me, i, (int64_t)v.size()); })); break;
        case 3:
            if (!ids.empty())
                s.note("remove_handler ", d.remove_handler(ids[r.below(ids.size())]));
            break;
        case 4:
            if (r.chance(40))
                s.note("remove_event ", d.remove_event(x));
            break;
        case 5:
            if (r.chance(40))
                s.note("stop ", d.stop());
            else
                s.note("start ", d.start((unsigned)r.in(1, 3)));
            break;
        case 6: s.note("emit string ", x, d.emit(x, std::string((size_t)k, 'x'))); break;
        default: s.note("emit ", x, d.emit(x, k));
        }
        ds::wait_quiescent(false);
    }
    s.next(20 * US);
    s.note("stop ", d.stop());
}

struct observed : observable<std::string>
{
    using observable<std::string>::observable;
    using observable<std::string>::set;
};
void observable_script(script& s)
{
    hx::rng& r = s.r;
    // the second one follows the first one
    observed o2(std::string("initial"), [&s](std::string v) { s.note("second callback ", v); });
    const bool chained = r.chance(60);
    observed o(std::string("initial"), [&](std::string v) {
        s.note("callback ", v);
        if (chained)
            o2.set(v);
    });
    for (int k = 0, n = (int)r.in(4, 24); k < n; ++k)
    {
        if (r.chance(30))
            s.next(3 * US);
        switch (r.below(4))
        {
        case 0: o.callback_enabled(r.chance(60)); break;
        case 1: s.note("value ", o.value(), " enabled ", o.callback_enabled(), " second ", o2.value(), " enabled ", o2.callback_enabled()); break;
        default: o.set(hx::cat("value ", r.below(4)));
        }
    }
}

void timer_script(script& s)
{
    hx::rng& r = s.r;
    auto t = std::make_unique<high_precision_timer>();
    if (r.chance(60))
        t->set_callback([me = s.me] { ran(me, -1); });
    for (int k = 0, n = (int)r.in(3, 10); k < n; ++k)
    {
        s.next(5 * MS);
        switch (r.below(6))
        {
        case 0:
        case 1: {
            const uint64_t d = r.chance(50) ? 0 : r.below(3000) * US;
            t->set_callback([me = s.me, k, d] {
                ran(me, k, 1);
                if (d)
                    ds::sleep_for(d);
                ran(me, k, 2);
            });
            break;
        }
        case 2:
        case 3: s.note("start ", t->start(ns(r.in(200, 3000) * US))); break;
        case 4:
            t->stop();
            s.note("stopped");
            break;
        default: s.note("invoked ", t->invoked_callback_count(), " missed ", t->missed_callback_count());
        }
    }
    s.next(5 * MS);
    t->stop();
    s.note("invoked ", t->invoked_callback_count(), " missed ", t->missed_callback_count());
}

void limiter_script(script& s)
{
    hx::rng& r = s.r;
    rate_limiter l((size_t)r.in(1, 5000));
    stopwatch w;
    for (int k = 0, n = (int)r.in(3, 20); k < n; ++k)
    {
        if (r.chance(40))
            s.next(5 * MS);
        if (r.chance(10))
            w.reset();
        l.sync();
        s.note("synced, elapsed ", w.elapsed().count());
    }
}

void parser_script(script& s)
{
    hx::rng& r = s.r;
    argument_parser p(hx::cat("program", r.below(3)), "1.0");
    int number = -1, def = (int)r.below(100);
    std::string word = "-", file = "-";
    bool flag = false;
    double x = -1;
    const bool opt = r.chance(70), pos = r.chance(50), fl = r.chance(70), real = r.chance(50);
    if (opt)
        p.add_option("number", 'n', number, def, "a number");
    ds::point();
    if (real)
        p.add_option("real", 'r', x, 0.5, "a number");
    if (r.chance(50))
        p.add_option("word", 'w', word, std::string("default"), "a word");
    ds::point();
    if (fl)
        p.add_flag("flag", 'f', flag, "a flag");
    if (pos)
        p.add_positional("file", file, "a file");
    for (int k = 0, n = (int)r.in(1, 3); k < n; ++k)
    {
        s.next(3 * US);
        std::vector<std::string> args{"program"};
        if (opt && r.chance(60))
            args.push_back(hx::cat("--number=", r.below(1000)));
        if (fl && r.chance(50))
            args.push_back("-f");
        if (real && r.chance(50))
        {
            args.push_back("--real");
            args.push_back("2.25");
        }
        if (pos)
            args.push_back(hx::cat("file", k));
        ds::point();
        std::vector<char*> argv;
        for (auto& a : args)
            argv.push_back(a.data());
        argv.push_back(nullptr);
        const auto res = p.parse((int)args.size(), argv.data());
        ds::point();
        s.note("parse ", (int)res, " number ", number, " real ", x, " word ", word, " flag ", flag, " file ", file);
    }
}

template <class F> std::string told(F&& f) // what a call says, be it by throwing
{
    try
    {
        return f();
    }
    catch (const std::exception& e)
    {
        return hx::cat("threw ", e.what());
    }
}
// values that everybody reads; new ones for every run, so that whatever a first reading may do happens while others read
struct common_values
{
    const datetime when{sys_time_point(ns(1700000000123456789))};
    const date day{std::chrono::year_month_day(std::chrono::year(2024), std::chrono::month(2), std::chrono::day(29))};
    const tc::sdk::time time{ns(45296000000007)};
    const timedelta delta{ns(-5400000000000)};
    const uuid id = uuid_generator::instance().from_string("00112233-4455-6677-8899-aabbccddeeff");
    const rectangle<int> box{1, 2, 30, 40};
    const line<double> diagonal{point<double>(0, 0), point<double>(9, 9)};
    const range<double> span{-1, 3};
    const tc::sdk::size<int> dimensions{3, 4};
};
std::unique_ptr<const common_values> common;
void values_script(script& s)
{
    hx::rng& r = s.r;
    namespace ch = std::chrono;
    for (int k = 0, n = (int)r.in(4, 14); k < n; ++k)
    {
        s.next(2 * US);
        const auto instant = sys_time_point(ns(r.in(-4000000000000000000, 4000000000000000000)));
        const datetime when(instant);
        const timedelta delta(ns(r.in(-4000000000000000000, 4000000000000000000)));
        std::string got;
        switch (r.below(11))
        {
        case 0:
            got = when.to_string<ch::nanoseconds>() + " " + when.to_string("%Y/%m/%d %H:%M:%S") + " " + when.date().to_string() + " " + when.time().to_string<ch::microseconds>();
            break;
        case 1:
            got = delta.to_string<ch::nanoseconds>() + " " + delta.to_string();
            break;
        case 2:
            got = told([&] { return datetime::from_string<ch::nanoseconds>(r.chance(80) ? when.to_string<ch::nanoseconds>() : std::string("2024-13-01T00:00:00")).to_string<ch::nanoseconds>(); });
            break;
        case 3:
            got = told([&] { return date::from_string(r.chance(80) ? when.date().to_string() : std::string("no date")).to_string(); }) + " " + told([&] { return tc::sdk::time::from_string<ch::seconds>(r.chance(80) ? "12:34:56" : "25:00:00").to_string<ch::seconds>(); });
            break;
        case 4:
        {
            std::ostringstream o;
            o << when << ' ' << when.date() << ' ' << when.time() << ' ' << delta << ' ';
            ::operator<<(o, ch::year((int)r.in(-3000, 3000)));
            got = o.str();
            break;
        }
        case 5:
        {
            std::string text = "00112233-4455-6677-8899-aabbccddeeff";
            for (int i = 0; i < 8; ++i)
                text[r.below(8)] = "0123456789abcdef"[r.below(16)];
            if (r.chance(20))
                text[r.below(36)] = 'x';
            const auto& g = uuid_generator::instance();
            got = told([&] { return g.from_string(text).to_string(); }) + (g.is_valid(text) ? " valid" : " invalid");
            break;
        }
        case 6:
        {
            const rectangle<int> a((int)r.in(0, 9), (int)r.in(0, 9), (int)r.in(1, 9), (int)r.in(1, 9)), b((int)r.in(0, 9), (int)r.in(0, 9), (int)r.in(1, 9), (int)r.in(1, 9));
            const line<double> l(point<double>((double)r.in(0, 9), 1.5), point<double>(3.5, (double)r.in(0, 9))), m(point<double>(0, 0), point<double>(9, 9));
            std::ostringstream o;
            o << a << ' ' << a.get_intersection(b) << ' ' << a.get_union(b) << ' ' << a.intersects(b) << ' ' << l << ' ' << a.size() << ' ' << a.center();
            if (const auto x = l.get_intersection(m))
                o << ' ' << *x;
            got = o.str();
            break;
        }
        case 7:
        {
            const range<double> a((double)r.in(-9, 0), (double)r.in(1, 9)), b((double)r.in(-9, 0), (double)r.in(1, 9));
            got = a.to_string() + a.get_intersection(b).to_string() + a.get_union(b).to_string() + std::to_string(a.map(0.25)) + std::to_string(a.clamp(3));
            break;
        }
        case 8:
        case 9:
        {
            const auto& c = *common;
            for (int i = 0, m = (int)r.in(1, 4); i < m; ++i)
                switch (r.below(7))
                {
                case 0: got += c.when.to_string() + c.when.date().to_string() + c.when.time().to_string() + (c.when < when ? "<" : ">="); break;
                case 1: got += c.day.to_string() + (c.day == when.date() ? "==" : "!=") + std::to_string((c.day - when.date()).total_days().count()); break;
                case 2: got += c.time.to_string() + std::to_string(c.time.hours().count()) + (c.time == when.time() ? "==" : "!="); break;
                case 3: got += c.delta.to_string() + std::to_string(c.delta.total_minutes().count()) + std::to_string(c.delta.minutes().count()); break;
                case 4: got += c.id.to_string() + (c.id == uuid() ? "==" : "!=") + (uuid() < c.id ? "<" : ">="); break;
                case 5: got += c.box.to_string() + std::to_string(c.box.area()) + (c.box.contains(point<int>(5, 5)) ? "in" : "out") + c.box.get_union(rectangle<int>(0, 0, 5, 5)).to_string() + c.diagonal.to_string() + (c.diagonal.intersects(line<double>(point<double>(0, 9), point<double>(9, 0))) ? "x" : "-"); break;
                default: got += c.span.to_string() + std::to_string(c.span.map(0.5)) + c.dimensions.to_string(); break;
                }
            hx::count("common_values_read");
            break;
        }
        default:
            got = told([&] { return (when + delta).to_string<ch::seconds>() + " " + (when.date() - date(ch::year_month_day(ch::year(2000), ch::month(2), ch::day(29)))).to_string(); });
        }
        s.note("value ", got);
        hx::count("values_written_and_read");
    }
}

using script_t = void (*)(script&);
// what can be observed of each instance
std::vector<std::vector<std::string>> observe(const ds::config& cfg, const std::vector<std::pair<uint64_t, script_t>>& scripts)
{
    rec::reset();
    common = std::make_unique<const common_values>();
    std::vector<std::unique_ptr<script>> all;
    for (size_t i = 0; i < scripts.size(); ++i)
        all.push_back(std::make_unique<script>(scripts[i].first, (int)i));
    ds::run(cfg, [&] {
        for (auto& s : all)
            s->t0 = ds::now();
        std::vector<std::thread> th;
        for (size_t i = 0; i < scripts.size(); ++i)
            th.emplace_back([&, i] { scripts[i].second(*all[i]); });
        for (auto& t : th)
            t.join();
    });
    std::vector<std::vector<std::string>> out;
    for (size_t i = 0; i < scripts.size(); ++i)
    {
        std::vector<std::string> evs;
        for (int e = 0; e < rec::size(); ++e)
            if (rec::at(e).kind == EV && rec::at(e).a == (int)i)
                evs.push_back(hx::cat("ran ", 1'000'000'000'000'000 + (rec::at(e).time - all[i]->t0), " ", rec::at(e).b, " ", rec::at(e).c));
        hx::count("callables_run", evs.size());
        hx::count("results_compared", all[i]->log.size());
        std::sort(evs.begin(), evs.end());
        out.push_back(all[i]->log);
        out.back().insert(out.back().end(), evs.begin(), evs.end());
    }
    return out;
}

void compare(uint64_t seed, const char* what, script_t f, script_t g)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.clock_tick = 0;
    cfg.nprocs = 8;
    cfg.max_steps = 2000000;
    const uint64_t a = r.u64(), b = r.chance(10) ? a : r.u64();
    const auto alone_a = observe(cfg, {{a, f}}), alone_b = observe(cfg, {{b, g}}), both = observe(cfg, {{a, f}, {b, g}});
    for (int i = 0; i < 2; ++i)
    {
        const auto& one = i ? alone_b[0] : alone_a[0];
        const auto& two = both[(size_t)i];
        if (one == two)
            continue;
        size_t k = 0;
        while (k < one.size() && k < two.size() && one[k] == two[k])
            ++k;
        std::string before;
        for (size_t j = k > 6 ? k - 6 : 0; j < k; ++j)
            before += one[j] + "; ";
        hx::fail(hx::cat("depends-on-another-instance:", what), hx::cat("observation ", k + 1, " of the ", i ? "second" : "first", " instance: alone \"", k < one.size() ? one[k] : std::string("nothing more"), "\", beside another instance \"", k < two.size() ? two[k] : std::string("nothing more"), "\"; before that: ", before));
    }
    uint64_t h = 0;
    for (auto& x : both)
        for (auto& l : x)
            h = hx::hash64(h, std::hash<std::string>()(l));
    hx::state(h);
    hx::count("pairs");
    if (hx::want_sample())
        hx::sample(hx::cat(what, ": ", both[0].size(), " + ", both[1].size(), " observations, e.g. ", both[0].empty() ? "" : both[0].back()));
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
        {"pool", [](uint64_t s) { compare(s, "thread_pool", pool_script, pool_script); }},
        {"queue", [](uint64_t s) { compare(s, "blocking_queue", queue_script, queue_script); }},
        {"scheduler", [](uint64_t s) { compare(s, "task_scheduler", scheduler_script, scheduler_script); }},
        {"dispatcher", [](uint64_t s) { compare(s, "event_dispatcher", dispatcher_script, dispatcher_script); }},
        {"observable", [](uint64_t s) { compare(s, "observable", observable_script, observable_script); }},
        {"timer", [](uint64_t s) { compare(s, "high_precision_timer", timer_script, timer_script); }},
        {"limiter", [](uint64_t s) { compare(s, "rate_limiter", limiter_script, limiter_script); }},
        {"parser", [](uint64_t s) { compare(s, "argument_parser", parser_script, parser_script); }},
        {"values", [](uint64_t s) { compare(s, "values", values_script, values_script); }},
        // components of different kinds
        {"mixed", [](uint64_t s) {
             const script_t all[] = {pool_script, queue_script, scheduler_script, dispatcher_script, observable_script, timer_script, limiter_script, values_script};
             hx::rng r(s + 77);
             const auto f = all[r.below(8)], g = all[r.below(8)];
             compare(s, "mixed", f, g);
         }},
    });
}
