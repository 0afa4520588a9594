// C44: what a component occupies depends on what it holds, not on what it has done. A random cycle of calls that ends in the
// state it began in is repeated some hundred times; memory (operator new), threads and files in use after every cycle are
// compared: the last cycles may need no more than the first ones, but for a constant.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/argparse/argument_parser.hpp>
#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/datetime/date.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/service_locator.hpp>
#include <teiacare/sdk/signal_handler.hpp>
#include <teiacare/sdk/singleton.hpp>
#include <teiacare/sdk/stopwatch.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>
#include <teiacare/sdk/uuid_generator.hpp>

#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <functional>
#include <future>
#include <iostream>
#include <malloc.h>
#include <memory>
#include <new>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace
{
std::atomic<int64_t> blocks{0}, bytes{0};
void* allocate(std::size_t n, std::size_t align)
{
    void* p = align ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    blocks.fetch_add(1, std::memory_order_relaxed);
    bytes.fetch_add((int64_t)malloc_usable_size(p), std::memory_order_relaxed);
    return p;
}
void release(void* p)
{
    if (!p)
        return;
    blocks.fetch_sub(1, std::memory_order_relaxed);
    bytes.fetch_sub((int64_t)malloc_usable_size(p), std::memory_order_relaxed);
    free(p);
}
} // namespace
void* operator new(std::size_t n) { return allocate(n, 0); }
void* operator new[](std::size_t n) { return allocate(n, 0); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return allocate(n, (std::size_t)a); }
void* operator new[](std::size_t n, std::align_val_t a) { return allocate(n, (std::size_t)a); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, std::size_t) noexcept { release(p); }
void operator delete[](void* p, std::size_t) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { release(p); }

namespace
{
using ns = std::chrono::nanoseconds;
using namespace tc::sdk;
constexpr uint64_t US = 1000, MS = 1000 * US;
const std::string PADDING = " some text that does not fit into a small string";

// ------------------------------------------------------------------------------------------------ measuring
struct use
{
    int64_t blocks, bytes, threads;
};
constexpr int MAXC = 3000, EDGE = 8;
use uses[MAXC];
int files()
{
    int n = 0;
    if (DIR* d = opendir("/proc/self/fd"))
    {
        while (readdir(d))
            ++n;
        closedir(d);
    }
    return n;
}
int threads_left; // how many more threads this run may start

// a name that no cycle before has used, always of the same length
std::string fresh(const char* kind, int64_t number)
{
    char b[24];
    snprintf(b, sizeof b, "%012ld", (long)number);
    return std::string(kind) + b + PADDING;
}

// repeats the cycle: cycle(r, c) is to make the same calls every time (r starts anew), but for names
template <typename F>
void repeat(const char* what, uint64_t seed, int cycles, F&& cycle)
{
    const int warm = 2 * EDGE;
    int n = 0, at_first = threads_left, f0 = 0;
    cycles = std::min(cycles, MAXC);
    for (; n < cycles; ++n)
    {
        {
            hx::rng r(seed);
            cycle(r, n);
        }
        ds::wait_quiescent(false);
        uses[n] = {blocks.load(), bytes.load(), ds::alive_count()};
        if (n == warm)
            f0 = files();
        if (n == 0)
            at_first -= threads_left; // this many per cycle
        if (at_first > 0 && threads_left < 2 * at_first + 30)
        {
            ++n;
            break;
        }
    }
    if (n < warm + 4 * EDGE)
    {
        hx::count("too_few_cycles");
        return;
    }
    use most{0, 0, 0}, least{INT64_MAX, INT64_MAX, INT64_MAX};
    for (int i = warm; i < warm + EDGE; ++i)
        most = {std::max(most.blocks, uses[i].blocks), std::max(most.bytes, uses[i].bytes), std::max(most.threads, uses[i].threads)};
    for (int i = n - EDGE; i < n; ++i)
        least = {std::min(least.blocks, uses[i].blocks), std::min(least.bytes, uses[i].bytes), std::min(least.threads, uses[i].threads)};
    const std::string where = hx::cat(" (", what, ", cycles ", warm, " and ", n, " of the same calls: ", most.blocks, " and ", least.blocks, " blocks, ", most.bytes, " and ", least.bytes, " bytes)");
    if (least.threads > most.threads)
        hx::fail(hx::cat("threads-grow:", what), hx::cat("the number of threads grew from ", most.threads, " to ", least.threads, where));
    if (files() > f0)
        hx::fail(hx::cat("files-grow:", what), hx::cat("the number of open files grew from ", f0, " to ", files(), where));
    if (least.blocks > most.blocks + 16 || least.bytes > most.bytes + 1536)
        hx::fail(hx::cat("memory-grows:", what), hx::cat("the memory in use grew although the state is the same", where));
    hx::count("repetitions_compared");
    hx::count("cycles", (uint64_t)n);
    hx::maxi("max_cycles", (uint64_t)n);
    if (hx::want_sample())
        hx::sample(hx::cat("same state, same memory", where));
}

ds::config config_of(uint64_t seed, hx::rng& r)
{
    ds::config cfg = ds::random_config(seed);
    cfg.clock_tick = (uint64_t)r.pick({0, 0, 1, 100});
    cfg.wall_permille = 0;
    cfg.eintr_permille = 0;
    cfg.max_steps = 30'000'000;
    if (cfg.policy == ds::POL_PCT || cfg.policy == ds::POL_STARVE)
        cfg.policy = r.chance(50) ? ds::POL_RANDOM : ds::POL_STICKY;
    cfg.nprocs = 4;
    threads_left = 900;
    return cfg;
}
int cycles_of(hx::rng& r) { return r.chance(20) ? (int)r.in(300, 900) : (int)r.in(60, 200); }
struct boom
{
    std::string text = PADDING;
};

// ------------------------------------------------------------------------------------------------ the components
bool started(thread_pool& p, unsigned n)
{
    const bool ok = p.start(n);
    if (ok)
        threads_left -= (int)p.threads_count();
    return ok;
}
void pool_iter(uint64_t seed)
{
    hx::rng r(seed);
    const ds::config cfg = config_of(seed, r);
    const unsigned n = (unsigned)r.in(1, 3);
    const int ops = (int)r.in(1, 5), cycles = cycles_of(r);
    const bool keeps_running = r.chance(40), one = r.chance(80);
    ds::run(cfg, [&] {
        thread_pool common;
        if (keeps_running || !one)
            started(common, n);
        repeat("thread_pool", seed, cycles, [&](hx::rng& r, int) {
            std::unique_ptr<thread_pool> own = one ? nullptr : std::make_unique<thread_pool>();
            thread_pool& p = own && !keeps_running ? *own : common;
            if (!p.is_running())
                started(p, n);
            std::vector<std::future<size_t>> fs;
            for (int o = 0; o < ops; ++o)
            {
                const int k = (int)r.in(1, 6), kind = (int)r.below(7);
                for (int i = 0; i < k; ++i)
                    switch (kind)
                    {
                    case 0: p.run([text = PADDING + "x"] { return text.size(); }); break;
                    case 1: fs.push_back(p.run([](const std::string& t, int) { return t.size(); }, PADDING, i)); break;
                    case 2: fs.push_back(p.run([]() -> size_t { throw boom(); })); break;
                    case 3: p.run([&p] { p.run([t = PADDING] { (void)t; }); }); break;
                    case 4: started(p, 1), p.is_running(), p.threads_count(); break;
                    case 5:
                        if (p.is_running())
                            fs.push_back(p.run([t = PADDING] { ds::point(); return t.size(); }));
                        break;
                    default: ds::point();
                    }
                if (kind == 6 && !keeps_running && o < 3)
                {
                    p.run([t = PADDING] { ds::sleep_for(5 * MS); });
                    p.run([t = PADDING] { (void)t; });
                    if (r.chance(50))
                        ds::wait_quiescent(false);
                    p.stop();
                    p.stop();
                    if (r.chance(50))
                        started(p, n);
                }
                if (r.chance(50))
                    ds::wait_quiescent(true);
                if (r.chance(50))
                    fs.clear();
            }
            fs.clear();
            ds::wait_quiescent(true);
            if (!keeps_running)
                p.stop();
        });
        common.stop();
    });
    hx::state(ds::trace_hash());
}

void scheduler_iter(uint64_t seed)
{
    hx::rng r(seed);
    const ds::config cfg = config_of(seed, r);
    const unsigned n = (unsigned)r.in(1, 2);
    const int ops = (int)r.in(1, 6), cycles = cycles_of(r);
    const bool restarts = r.chance(30), anew = r.chance(20);
    const int standing = (int)r.in(0, 2);
    ds::run(cfg, [&] {
        std::optional<task_scheduler> place(std::in_place);
        task_scheduler& s = *place;
        auto start = [&] {
            if (!s.start(n))
                return;
            threads_left -= (int)n + 1;
            for (int i = 0; i < standing; ++i)
                s.every(hx::cat("standing ", i), ns(300 * US + 100 * US * (uint64_t)i), [t = PADDING] { (void)t; });
        };
        start();
        int64_t number = 0;
        repeat("task_scheduler", seed, cycles, [&](hx::rng& r, int) {
            if (anew)
            {
                place.emplace();
                start();
            }
            std::vector<std::string> names;
            std::vector<std::optional<std::future<void>>> fs;
            auto name = [&] {
                names.push_back(r.chance(70) ? fresh("task ", ++number) : hx::cat("again", r.below(4)));
                return names.back();
            };
            for (int o = 0; o < ops; ++o)
            {
                const auto f = [t = PADDING, boom_ = r.chance(20)] {
                    if (boom_)
                        throw boom();
                };
                const auto d = ns((int64_t)r.below(r.chance(50) ? 500 * US : 3600'000 * MS));
                switch (r.below(10))
                {
                case 0: fs.push_back(s.in(ns((int64_t)r.below(500 * US)), f)); break;
                case 1: fs.push_back(s.in(name(), ns(d), f)); break;
                case 2: s.at(name(), clock::now() + d, f); break;
                case 3: s.every(name(), ns((int64_t)r.in(100 * US, 1000 * US)), f); break;
                case 4: s.every(name(), ns((int64_t)r.in(1, 5) * 1000 * (int64_t)MS), ns(d), f); break;
                case 5:
                    if (!names.empty())
                        s.set_enabled(r.pick(names), r.chance(50));
                    break;
                case 6:
                    if (!names.empty())
                        s.update_interval(r.pick(names), ns((int64_t)r.in(100 * US, 1000 * US)));
                    break;
                case 7:
                    if (!names.empty())
                        s.remove_task(r.pick(names));
                    break;
                case 8:
                    s.is_scheduled(fresh("task ", ++number)), s.remove_task(fresh("task ", ++number)), s.get_interval("nobody"), s.tasks_size();
                    break;
                default: ds::sleep_for(r.below(3 * MS));
                }
                if (r.chance(30))
                    fs.clear();
            }
            ds::sleep_for(r.below(5 * MS));
            if (restarts)
            {
                s.stop();
                start();
            }
            for (auto& t : names)
                s.remove_task(t);
            ds::sleep_for(500 * US + 1); // what has no name is over by now
            ds::wait_quiescent(false);
            fs.clear();
        });
        s.stop();
    });
    hx::state(ds::trace_hash());
}

void dispatcher_iter(uint64_t seed)
{
    hx::rng r(seed);
    const ds::config cfg = config_of(seed, r);
    const unsigned n = (unsigned)r.in(1, 2);
    const int ops = (int)r.in(1, 8), cycles = cycles_of(r), standing = (int)r.in(0, 3);
    const bool restarts = r.chance(30), removes_events = r.chance(50), anew = r.chance(20);
    ds::run(cfg, [&] {
        std::optional<event_dispatcher> place(std::in_place);
        event_dispatcher& d = *place;
        auto start = [&] {
            if (!d.start(n))
                return;
            threads_left -= (int)n;
            for (int i = 0; i < standing; ++i)
                d.add_handler<std::string>("common", [t = PADDING](std::string) { (void)t; });
        };
        start();
        int64_t number = 0;
        repeat("event_dispatcher", seed, cycles, [&](hx::rng& r, int) {
            if (anew)
            {
                place.emplace();
                start();
            }
            std::vector<unsigned long> ids;
            std::vector<std::string> names{"common", "other"};
            for (int o = 0; o < ops; ++o)
            {
                if (r.chance(30))
                    names.push_back(fresh("event ", ++number));
                const std::string& e = r.pick(names);
                const bool throws = r.chance(20);
                switch (r.below(6))
                {
                case 0: ids.push_back(d.add_handler<std::string>(e, [throws, t = PADDING](std::string) {
                    if (throws)
                        throw boom();
                })); break;
                case 1: ids.push_back(d.add_handler<int, std::string>(e, [t = PADDING](int, std::string) { (void)t; })); break;
                case 2: ids.push_back(d.add_handler<>(e, [t = PADDING] { (void)t; })); break;
                case 3: d.emit(e, PADDING), d.emit(e), d.emit(fresh("event ", ++number), 7); break;
                case 4: d.emit(e, (int)o, PADDING); break;
                default:
                    if (!ids.empty())
                        d.remove_handler(r.pick(ids));
                    d.remove_handler(123456789);
                    d.remove_event(fresh("event ", ++number));
                }
                if (r.chance(30))
                    ds::wait_quiescent(true);
            }
            if (restarts)
            {
                d.stop();
                start();
            }
            else
            {
                if (removes_events)
                    for (auto& e : names)
                        if (e != "common")
                            d.remove_event(e);
                for (auto id : ids)
                    d.remove_handler(id);
            }
            ds::wait_quiescent(true);
        });
        d.stop();
    });
    hx::state(ds::trace_hash());
}

void timer_iter(uint64_t seed)
{
    hx::rng r(seed);
    const ds::config cfg = config_of(seed, r);
    const int ops = (int)r.in(1, 6), cycles = cycles_of(r);
    const bool anew = r.chance(20), keeps_running = !anew && r.chance(50);
    ds::run(cfg, [&] {
        std::optional<high_precision_timer> place(std::in_place);
        high_precision_timer& t = *place;
        t.set_callback([] {});
        const auto start = [&] {
            if (t.start(ns(100 * US)))
                --threads_left;
        };
        if (keeps_running)
            start();
        repeat("high_precision_timer", seed, cycles, [&](hx::rng& r, int) {
            if (anew)
                place.emplace();
            int starts = 0;
            for (int o = 0; o < ops; ++o)
                switch (r.below(4))
                {
                case 0: t.set_callback([text = PADDING, len = r.below(300 * US)] { ds::sleep_for(len); }); break;
                case 1: t.set_callback([](const std::string& a, int) { (void)a; }, PADDING, o); break;
                case 2:
                    if (!keeps_running && starts++ < 2)
                    {
                        start();
                        if (r.chance(30))
                            start();
                    }
                    break;
                default: ds::sleep_for(r.below(MS));
                }
            t.set_callback([text = PADDING] { (void)text; });
            ds::sleep_for(800 * US); // the callback before is over
            if (!keeps_running)
                t.stop();
            else
                ds::wait_quiescent(false);
        });
        t.stop();
    });
    hx::state(ds::trace_hash());
}

void queue_iter(uint64_t seed)
{
    hx::rng r(seed);
    const ds::config cfg = config_of(seed, r);
    const size_t cap = (size_t)r.in(1, 40), base = r.chance(50) ? 0 : r.below(cap + 1);
    const int ops = (int)r.in(1, 40), cycles = cycles_of(r);
    const bool threads = r.chance(20), anew = r.chance(20);
    ds::run(cfg, [&] {
        std::optional<blocking_queue<std::string>> place(std::in_place, cap);
        blocking_queue<std::string>& q = *place;
        repeat("blocking_queue", seed, cycles, [&](hx::rng& r, int) {
            if (anew)
                place.emplace(cap);
            while (q.size() < base)
                q.push(PADDING);
            for (int o = 0; o < ops; ++o)
                switch (r.below(3))
                {
                case 0: q.try_push(PADDING + "!"); break;
                case 1: q.try_pop(); break;
                default:
                    if (q.size() < cap)
                        q.push(PADDING);
                    else
                        q.pop();
                }
            if (threads)
            {
                --threads_left;
                std::thread other([&] {
                    for (size_t i = 0; i < cap + 3; ++i)
                        q.push(PADDING);
                });
                for (size_t i = 0; i < cap + 3; ++i)
                    q.pop();
                other.join();
            }
            while (q.size() > base)
                q.pop();
            while (q.size() < base)
                q.push(PADDING);
        });
    });
    hx::state(ds::trace_hash());
}

void observable_iter(uint64_t seed)
{
    hx::rng r(seed);
    const ds::config cfg = config_of(seed, r);
    const int ops = (int)r.in(1, 20), cycles = cycles_of(r);
    const bool anew = r.chance(20);
    ds::run(cfg, [&] {
        int calls = 0;
        const std::function<void(std::string)> callback = [&calls](const std::string& s) {
            if (++calls % 7 == 0 && s.size() > 5)
                throw boom();
        };
        std::optional<observable<std::string>> place(std::in_place, PADDING, callback);
        observable<std::string>& o = *place;
        repeat("observable", seed, cycles, [&](hx::rng& r, int c) {
            if (anew)
                place.emplace(PADDING, callback);
            for (int i = 0; i < ops; ++i)
                try
                {
                    switch (r.below(4))
                    {
                    case 0: o = fresh("value ", c * 100 + i); break;
                    case 1: o = PADDING; break;
                    case 2: o.callback_enabled(r.chance(70)); break;
                    default: (void)o.value().size(); (void)o.callback_enabled();
                    }
                }
                catch (const boom&)
                {
                }
            o.callback_enabled(false);
            o = PADDING;
            o.callback_enabled(true);
        });
    });
    hx::state(hx::hash64(seed, (uint64_t)ops));
}

template <int K>
struct itf
{
    virtual ~itf() = default;
    virtual int id() const = 0;
};
template <int K>
struct impl : itf<K>
{
    std::string text;
    explicit impl(std::string t) : text(std::move(t))
    {
        if (text == "throw")
            throw boom();
    }
    int id() const override { return K; }
};
template <int K>
void service(hx::rng& r)
{
    auto& s = service_locator::instance();
    switch (r.below(6))
    {
    case 0: s.register_service<itf<K>, impl<K>>(PADDING); break;
    case 1: s.register_instance<itf<K>>(std::make_shared<impl<K>>(PADDING)); break;
    case 2: s.unregister<itf<K>>(); break;
    case 3: (void)s.is_registered<itf<K>>(); break;
    case 4:
        try
        {
            s.register_service<itf<K>, impl<K>>(std::string("throw"));
        }
        catch (const boom&)
        {
        }
        break;
    default: (void)s.get<itf<K>>();
    }
}
template <int... K>
void services(hx::rng& r, int ops, std::integer_sequence<int, K...>)
{
    using f = void (*)(hx::rng&);
    static const f all[] = {service<K>...};
    for (int i = 0; i < ops; ++i)
        all[r.below(sizeof...(K))](r);
    (service_locator::instance().unregister<itf<K>>(), ...);
}
struct single
{
    std::string text = PADDING;
};

// everything without threads of its own
void plain_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = config_of(seed, r);
    cfg.clock_tick = 1;
    const int ops = (int)r.in(1, 30), cycles = cycles_of(r), kind = (int)r.below(6);
    static const char* names[] = {"service_locator", "uuid_generator", "rate_limiter", "datetime", "argument_parser", "signal_handler"};
    std::ostringstream sink, sink2;
    auto* out = std::cout.rdbuf(sink.rdbuf());
    auto* err = std::cerr.rdbuf(sink2.rdbuf());
    ds::run(cfg, [&] {
        rate_limiter common(1000);
        stopwatch watch;
        auto& g = uuid_generator::instance();
        if (kind == 5)
            install_signal_handlers([](const char*, int) {});
        repeat(names[kind], seed, cycles, [&](hx::rng& r, int c) {
            for (int o = 0; o < ops; ++o)
                switch (kind)
                {
                case 0:
                    services(r, 10, std::make_integer_sequence<int, 12>());
                    (void)singleton<single>::instance();
                    break;
                case 1:
                {
                    const auto u = g.create();
                    const auto v = g.from_string(u.to_string());
                    if (!g.is_valid(v.to_string()) || g.is_valid("not a uuid, and not a short text either"))
                        hx::count("odd");
                    try
                    {
                        (void)g.from_string("not a uuid, and not a short text either");
                    }
                    catch (const std::runtime_error&)
                    {
                    }
                    break;
                }
                case 2:
                {
                    common.sync();
                    rate_limiter own((size_t)r.in(1, 1000));
                    own.sync();
                    if (r.chance(20))
                        ds::sleep_for(r.below(100 * MS));
                    watch.reset();
                    (void)watch.elapsed();
                    break;
                }
                case 3:
                {
                    const auto t = datetime(sys_time_point{ns(std::chrono::hours(r.below(100000)))});
                    const auto text = t.to_string();
                    try
                    {
                        (void)datetime::from_string(text);
                        (void)datetime::from_string(r.chance(50) ? "2024-13-41T99:99:99" : PADDING);
                    }
                    catch (const std::runtime_error&)
                    {
                    }
                    break;
                }
                case 4:
                {
                    argument_parser p("name" + PADDING, "1.0");
                    int x = 0;
                    std::string file;
                    std::vector<std::string> list;
                    bool flag = false;
                    p.add_option("number", 'n', x, 3, "a number" + PADDING);
                    p.add_option("list", 'l', list, {}, "a list" + PADDING);
                    p.add_flag("flag", 'f', flag, "a flag");
                    p.add_positional("file", file, "a file");
                    std::vector<std::string> a{"program"};
                    for (int k = (int)r.below(5); k > 0; --k)
                        a.push_back(r.pick<std::string>({"--number=7", "-n=x", "--list=a,b,c,d" + PADDING, "-f", fresh("file ", c), "--wrong", "-h", "--version"}));
                    std::vector<char*> argv;
                    for (auto& s : a)
                        argv.push_back(s.data());
                    argv.push_back(nullptr);
                    (void)p.parse((int)a.size(), argv.data());
                    break;
                }
                default:
                    if (r.chance(30))
                        install_signal_handlers([t = PADDING](const char*, int) { (void)t; });
                    if (r.chance(50))
                        quit("quitting", o);
                    else
                        raise(r.chance(50) ? SIGINT : SIGTERM);
                    wait_for_quit();
                }
            sink.str("");
            sink2.str("");
            if (kind == 5)
                install_signal_handlers([t = PADDING](const char*, int) { (void)t; });
        });
        if (kind == 5)
            install_signal_handlers();
    });
    std::cout.rdbuf(out);
    std::cerr.rdbuf(err);
    hx::count(names[kind]);
    hx::state(hx::hash64(seed, (uint64_t)kind));
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
        {"pool", pool_iter},
        {"scheduler", scheduler_iter},
        {"dispatcher", dispatcher_iter},
        {"timer", timer_iter},
        {"queue", queue_iter},
        {"observable", observable_iter},
        {"plain", plain_iter},
    });
}
