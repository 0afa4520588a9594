// C18: every component's whole public interface from several threads, judged by the sanitizers (ThreadSanitizer on
// controlled schedules and on real threads, AddressSanitizer) and by the deadlock detector of the controlled scheduler.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>
#include <teiacare/sdk/uuid_generator.hpp>

#include <chrono>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace
{
using namespace std::chrono_literals;
using ns = std::chrono::nanoseconds;

constexpr int V_OPS = 1;
void use(uint64_t x) { asm volatile("" : : "r"(x)); }

struct note
{
    note(int what) { rec::inc(V_OPS); }
};

ds::config config(uint64_t seed)
{
    ds::config c = ds::random_config(seed);
    return c;
}
#ifdef VF_NATIVE
constexpr int SCALE = 6;
constexpr bool native = true;
#else
constexpr int SCALE = 1;
constexpr bool native = false;
#endif

template <typename F>
void threads(int n, uint64_t seed, F&& body)
{
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i)
        th.emplace_back([&body, i, seed] {
            hx::rng r(seed * 1009 + (uint64_t)i);
            body(i, r);
        });
    for (auto& t : th)
        t.join();
}
void finish(const char* comp)
{
    hx::count("calls", (uint64_t)rec::get(V_OPS));
    hx::count((std::string(comp) + "_calls").c_str(), (uint64_t)rec::get(V_OPS));
    hx::count("context_switches", ds::switches());
    hx::state(hx::hash64(ds::trace_hash(), hx::hash_str(comp)));
}

struct item
{
    std::unique_ptr<int> p;
    std::vector<int> v;
    item() : p(std::make_unique<int>(0)) {}
    explicit item(int i) : p(std::make_unique<int>(i)), v(3, i) {}
    item(const item& o) : p(o.p ? std::make_unique<int>(*o.p) : nullptr), v(o.v) {}
    item(item&&) = default;
    item& operator=(item&&) = default;
    item& operator=(const item& o)
    {
        p = o.p ? std::make_unique<int>(*o.p) : nullptr;
        v = o.v;
        return *this;
    }
};

void bq_iter(uint64_t seed)
{
    hx::rng r(seed);
    const int n = (int)r.in(2, 5), ops = (int)r.in(3, 14) * SCALE;
    ds::run(config(seed), [&] {
        tc::sdk::blocking_queue<item> q((size_t)r.in(0, 6));
        threads(n, seed, [&](int, hx::rng& rr) {
            for (int i = 0; i < ops; ++i)
            {
                note x(1);
                switch (rr.below(6))
                {
                case 0:
                case 1:
                {
                    item it((int)rr.below(1000));
                    use(rr.chance(50) ? q.try_push(it) : q.try_push(std::move(it)));
                    break;
                }
                case 2:
                case 3:
                {
                    auto o = q.try_pop();
                    if (o && o->p)
                        use((uint64_t)*o->p + o->v.size());
                    break;
                }
                case 4: use(q.size()); break;
                default: use(q.capacity());
                }
            }
        });
    });
    finish("blocking_queue");
}

void tp_iter(uint64_t seed)
{
    hx::rng r(seed);
    const int n = (int)r.in(2, 4), ops = (int)r.in(2, 8) * SCALE;
    ds::run(config(seed), [&] {
        tc::sdk::thread_pool pool;
        if (r.chance(50))
            pool.start((unsigned)r.in(1, 4));
        threads(n, seed, [&](int, hx::rng& rr) {
            std::vector<std::future<uint64_t>> fs;
            for (int i = 0; i < ops; ++i)
            {
                note x(1);
                switch (rr.below(9))
                {
                case 0:
                case 1:
                case 2:
                {
                    std::string s = "argument of a task " + std::to_string(rr.below(100));
                    fs.push_back(pool.run([&pool](const std::string& t) {
                        rec::inc(V_OPS);
                        return (uint64_t)t.size() + pool.threads_count() + (pool.is_running() ? 1 : 0);
                    }, s));
                    break;
                }
                case 3: pool.run([&pool] { rec::inc(V_OPS); pool.run([] { rec::inc(V_OPS); }); }); break;
                case 4: use(pool.start((unsigned)rr.in(0, 4))); break;
                case 5: use(pool.stop()); break;
                case 6: use(pool.threads_count()); break;
                case 7: use(pool.is_running()); break;
                default:
                    for (auto& f : fs)
                        if (f.valid() && f.wait_for(0s) == std::future_status::ready)
                            try
                            {
                                use(f.get());
                            }
                            catch (const std::future_error&)
                            {
                            }
                }
            }
        });
    });
    finish("thread_pool");
}

void ts_iter(uint64_t seed)
{
    hx::rng r(seed);
    const int n = (int)r.in(2, 4), ops = (int)r.in(2, 9) * SCALE;
    const char* ids[] = {"first", "second", "third task id, rather long"};
    ds::run(config(seed), [&] {
        tc::sdk::task_scheduler s;
        if (r.chance(70))
            s.start((unsigned)r.in(1, 3));
        threads(n, seed, [&](int, hx::rng& rr) {
            std::vector<std::future<uint64_t>> fs;
            auto keep = [&](auto&& o) {
                if (o)
                    fs.push_back(std::move(*o));
            };
            for (int i = 0; i < ops; ++i)
            {
                note x(1);
                const std::string id = ids[rr.below(3)];
                const ns t((int64_t)rr.below(2000000));
                auto body = [&s, id](const std::string& a) -> uint64_t {
                    rec::inc(V_OPS);
                    uint64_t z = s.tasks_size() + a.size();
                    z += s.is_scheduled(id) + s.is_enabled(id);
                    return z;
                };
                std::string arg = "argument " + std::to_string(i);
                switch (rr.below(14))
                {
                case 0: keep(s.in(std::string(id), ns(t), body, arg)); break;
                case 1: keep(s.at(std::string(id), tc::sdk::clock::now() + t, body, arg)); break;
                case 2: keep(s.in(ns(t), body, arg)); break;
                case 3: use(s.every(std::string(id), ns((int64_t)rr.in(300000, 2000000)), body, arg)); break;
                case 4: use(s.every(std::string(id), ns((int64_t)rr.in(300000, 2000000)), ns(t), body, arg)); break;
                case 5: use(s.set_enabled(id, rr.chance(50))); break;
                case 6: use(s.is_enabled(id)); break;
                case 7: use(s.remove_task(id)); break;
                case 8: use(s.update_interval(id, ns((int64_t)rr.in(300000, 3000000)))); break;
                case 9: use(s.get_interval(id).has_value()); break;
                case 10: use(s.tasks_size() + s.is_scheduled(id)); break;
                case 11: use(s.start((unsigned)rr.in(1, 3))); break;
                case 12: use(s.stop()); break;
                default: ds::sleep_for(rr.below(1500000));
                }
            }
            for (auto& f : fs)
                if (f.wait_for(0s) == std::future_status::ready)
                    try
                    {
                        use(f.get());
                    }
                    catch (const std::future_error&)
                    {
                    }
        });
    });
    finish("task_scheduler");
}

void ed_iter(uint64_t seed)
{
    hx::rng r(seed);
    const int n = (int)r.in(2, 4), ops = (int)r.in(2, 9) * SCALE;
    ds::run(config(seed), [&] {
        tc::sdk::event_dispatcher d;
        if (r.chance(70))
            d.start((unsigned)r.in(1, 3));
        threads(n, seed, [&](int, hx::rng& rr) {
            for (int i = 0; i < ops; ++i)
            {
                note x(1);
                const std::string name = rr.chance(50) ? "event" : "another event with a long name";
                switch (rr.below(9))
                {
                case 0:
                    use(d.add_handler<std::string, int>(name, [](std::string s, int k) { rec::inc(V_OPS); use(s.size() + (uint64_t)k); }));
                    break;
                case 1:
                    use(d.add_handler<>(name, [&d, name] { rec::inc(V_OPS); use(d.emit(name, std::string("from a handler"), 3)); }));
                    break;
                case 2:
                    use(d.add_handler<std::string>(name, [&d](const std::string& s) { rec::inc(V_OPS); use(d.remove_handler(s.size())); }));
                    break;
                case 3: use(d.emit(name, std::string("text that lives on the heap"), i)); break;
                case 4: use(d.emit(name)); break;
                case 5: use(d.emit(name, std::string((size_t)rr.below(6), 'x'))); break;
                case 6: use(rr.chance(50) ? d.remove_handler(rr.below(12)) : d.remove_event(name)); break;
                case 7: use(d.start((unsigned)rr.in(1, 3))); break;
                default:
                    if (rr.chance(30))
                        use(d.stop());
                }
            }
        });
    });
    finish("event_dispatcher");
}

template <typename T>
void ob_body(uint64_t seed, std::vector<T> vals)
{
    hx::rng r(seed);
    const int n = (int)r.in(2, 4), ops = (int)r.in(3, 12) * SCALE;
    ds::run(config(seed), [&] {
        uint64_t plain = 0; // callbacks never overlap: no lock needed
        tc::sdk::observable<T> o(vals[0], [&plain](T) { ++plain; rec::inc(V_OPS); });
        threads(n, seed, [&](int, hx::rng& rr) {
            for (int i = 0; i < ops; ++i)
            {
                note x(1);
                T v = vals[rr.below(vals.size())];
                switch (rr.below(6))
                {
                case 0: o = v; break;
                case 1: o = std::move(v); break;
                case 2: use(o.value() == v); break;
                case 3: use(static_cast<T>(o) == v); break;
                case 4: use(o.callback_enabled()); break;
                default: o.callback_enabled(rr.chance(60));
                }
            }
        });
        use(plain);
    });
    finish("observable");
}
void ob_iter(uint64_t seed)
{
    if (seed & 1)
        ob_body<std::string>(seed, {"a", "a value that lives on the heap, first", "a value that lives on the heap, second"});
    else
        ob_body<std::vector<int>>(seed, {{1}, {1, 2, 3}, {}, {4, 4, 4, 4}});
}

void uuid_iter(uint64_t seed)
{
    hx::rng r(seed);
    const int n = (int)r.in(2, 5), ops = (int)r.in(2, 12) * SCALE;
    ds::run(config(seed), [&] {
        std::vector<std::vector<tc::sdk::uuid>> got((size_t)n);
        threads(n, seed, [&](int i, hx::rng& rr) {
            auto& g = tc::sdk::uuid_generator::instance();
            for (int k = 0; k < ops; ++k)
            {
                note x(1);
                if (rr.chance(70))
                    got[(size_t)i].push_back(g.create());
                else
                {
                    const std::string s = "0f14d0ab-9605-4a62-a9e4-5ed26688389b";
                    use(g.is_valid(s));
                    use(g.from_string(s).to_string().size());
                }
            }
        });
        std::set<tc::sdk::uuid> all;
        size_t total = 0;
        for (auto& v : got)
        {
            total += v.size();
            all.insert(v.begin(), v.end());
        }
        if (all.size() != total)
            hx::fail("duplicate-uuid", "two concurrent create() calls returned the same uuid");
    });
    finish("uuid_generator");
}

void ht_iter(uint64_t seed)
{
    hx::rng r(seed);
    const int n = (int)r.in(1, 3), ops = (int)r.in(2, 8) * SCALE;
    ds::run(config(seed), [&] {
        tc::sdk::high_precision_timer t;
        uint64_t plain = 0;
        auto set = [&](hx::rng& rr) {
            t.set_callback([&plain](const std::string& a) { rec::inc(V_OPS); plain += a.size(); }, std::string("argument ") + std::string(rr.below(40), 'x'));
        };
        set(r);
        std::vector<std::thread> th;
        for (int i = 0; i < n; ++i)
            th.emplace_back([&, i] {
                hx::rng rr(seed * 1013 + (uint64_t)i);
                for (int k = 0; k < ops; ++k)
                {
                    note x(1);
                    switch (rr.below(4))
                    {
                    case 0: set(rr); break;
                    case 1: use(t.invoked_callback_count()); break;
                    case 2: use(t.missed_callback_count()); break;
                    default: ds::sleep_for(rr.below(1000000));
                    }
                }
            });
        for (int k = 0; k < ops; ++k)
        {
            note x(1);
            switch (r.below(5))
            {
            case 0:
            case 1: use(t.start(ns(r.in(100000, 1000000)))); break;
            case 2: t.stop(); break;
            case 3: set(r); break;
            default: ds::sleep_for(r.below(1500000));
            }
        }
        for (auto& x : th)
            x.join();
        if (r.chance(50))
            t.stop();
        else if (r.chance(50))
            t.start(ns(500000));
    });
    finish("high_precision_timer");
}

void all_iter(uint64_t seed)
{
    switch (seed % 7)
    {
    case 0: bq_iter(seed); break;
    case 1: tp_iter(seed); break;
    case 2: ts_iter(seed); break;
    case 3: ed_iter(seed); break;
    case 4: ob_iter(seed); break;
    case 5: uuid_iter(seed); break;
    default: ht_iter(seed);
    }
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
        {"all", all_iter},
        {"bq", bq_iter},
        {"tp", tp_iter},
        {"ts", ts_iter},
        {"ed", ed_iter},
        {"ob", ob_iter},
        {"uuid", uuid_iter},
        {"ht", ht_iter},
    });
}
