// service_locator: C34 (locator); stopwatch: C35 (stopwatch); task: C36 (task).
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/clock.hpp>
#include <teiacare/sdk/service_locator.hpp>
#include <teiacare/sdk/stopwatch.hpp>
#include <teiacare/sdk/task.hpp>

#include <chrono>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <utility>
#include <vector>

namespace ch = std::chrono;
namespace tcs = tc::sdk;

// ------------------------------------------------------------------------------------------------------------ clocks
namespace
{
bool fake_clock = false;
int64_t mono_now = 0, real_now = 0; // ns
}
extern "C" int clock_gettime(clockid_t id, timespec* ts) noexcept
{
    if (fake_clock && (id == CLOCK_MONOTONIC || id == CLOCK_REALTIME))
    {
        const int64_t n = id == CLOCK_MONOTONIC ? mono_now : real_now;
        ts->tv_sec = n / 1000000000;
        ts->tv_nsec = n % 1000000000;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

#if !defined(ONLY) || ONLY == 34
#include "svc_anon.hpp"
unit_ops second_unit();
#endif

namespace
{
// ------------------------------------------------------------------------------------------------------------ C34
#if !defined(ONLY) || ONLY == 34
struct ledger
{
    std::map<int, int> alive; // serial -> live objects (0 or 1)
    std::map<int, int> built, destroyed;
    int last = 0; // most recent serial built
};
ledger book;
int next_serial = 1;
bool throw_next = false;

struct tracked
{
    uint64_t canary = 0xC0FFEE0DDF00Dull;
    int serial;
    tracked() : serial(next_serial++)
    {
        ++book.alive[serial];
        ++book.built[serial];
        book.last = serial;
    }
    explicit tracked(int throwing) : serial(next_serial++)
    {
        if (throwing)
            throw std::runtime_error("constructor");
        ++book.alive[serial];
        ++book.built[serial];
        book.last = serial;
    }
    tracked(const tracked&) = delete;
    ~tracked()
    {
        if (canary != 0xC0FFEE0DDF00Dull)
            hx::fail("destroyed-garbage", hx::cat("serial ", serial));
        canary = 0;
        if (--book.alive[serial] < 0)
            hx::fail("destroyed-twice", hx::cat("serial ", serial));
        ++book.destroyed[serial];
    }
};
struct alpha
{
    virtual ~alpha() = default;
    virtual int id() const = 0;
    virtual std::string args() const = 0;
};
struct beta
{
    virtual ~beta() = default;
    virtual int beta_id() const = 0;
    virtual std::string beta_args() const = 0;
};
struct gamma // no virtual destructor: the locator must destroy the service itself
{
    virtual int gamma_id() = 0;
    virtual std::string gamma_args() = 0;

protected:
    ~gamma() = default;
};
struct delta_i : alpha // an interface that is itself derived
{
    virtual int delta_id() const = 0;
};

struct plain_service : alpha, tracked
{
    int a;
    std::string b;
    plain_service(int a, std::string b) : a(a), b(std::move(b)) {}
    int id() const override { return serial; }
    std::string args() const override { return hx::cat(a, "/", b); }
};
struct second_base : tracked, alpha, beta // beta is not the first base
{
    std::unique_ptr<int> p; // move-only argument
    std::vector<std::string> v;
    second_base(std::unique_ptr<int> p, std::vector<std::string> v) : p(std::move(p)), v(std::move(v)) {}
    int id() const override { return serial; }
    int beta_id() const override { return serial; }
    std::string args() const override
    {
        std::string s = hx::cat(p ? *p : -1);
        for (auto& x : v)
            s += "," + x;
        return s;
    }
    std::string beta_args() const override { return args(); }
};
struct virtual_base : virtual alpha
{
    int filler[7] = {};
};
struct diamond : virtual_base, virtual beta, tracked, gamma
{
    double d;
    explicit diamond(double d) : d(d) {}
    int id() const override { return serial; }
    int beta_id() const override { return serial; }
    int gamma_id() override { return serial; }
    std::string args() const override { return hx::cat(d); }
    std::string beta_args() const override { return args(); }
    std::string gamma_args() override { return args(); }
};
struct nothing_much : tracked, gamma, delta_i
{
    nothing_much() = default;
    int gamma_id() override { return serial; }
    std::string gamma_args() override { return "-"; }
    int id() const override { return serial; }
    std::string args() const override { return "-"; }
    int delta_id() const override { return serial; }
};
struct thrower : alpha, tracked
{
    explicit thrower(int t) : tracked(t) {}
    int id() const override { return serial; }
    std::string args() const override { return "thrower"; }
};
struct concrete : tracked // registered under its own type
{
    int value;
    explicit concrete(int v) : value(v) {}
};

struct holding // a shared_ptr the caller keeps
{
    std::shared_ptr<void> p;
    int serial;
    std::function<std::pair<int, std::string>()> call; // through the interface
    std::string args;
};
struct slot // what is registered under one type
{
    bool present = false;
    int serial = 0; // 0: a null instance
    std::string args;
};
enum
{
    ALPHA,
    BETA,
    GAMMA,
    DELTA,
    CONCRETE,
    NTYPES
};
const char* const type_name[] = {"alpha", "beta", "gamma", "delta", "concrete"};

struct world
{
    tcs::service_locator& l = tcs::service_locator::instance();
    slot slots[NTYPES];
    std::vector<holding> held;
    std::string log;

    [[noreturn]] void bad(const char* key, const std::string& more) { hx::fail(key, hx::cat("after", log, ": ", more)); }

    template <typename I>
    static std::pair<int, std::string> call(I& i)
    {
        if constexpr (std::is_same_v<I, alpha> || std::is_same_v<I, delta_i>)
            return {i.id(), i.args()};
        else if constexpr (std::is_same_v<I, beta>)
            return {i.beta_id(), i.beta_args()};
        else if constexpr (std::is_same_v<I, gamma>)
            return {i.gamma_id(), i.gamma_args()};
        else
            return {i.canary == 0xC0FFEE0DDF00Dull ? i.serial : -1, std::to_string(i.value)};
    }
    template <typename I, typename S, typename... A>
    void reg(int t, const std::string& args, A... a)
    {
        const int before = next_serial;
        const bool r = l.register_service<I, S>(std::move(a)...);
        if (r == slots[t].present)
            bad("register_service-result", hx::cat(type_name[t], ": ", r));
        if (r)
        {
            if (book.last < before || !book.alive[book.last])
                bad("register_service-constructs", type_name[t]);
            slots[t] = {true, book.last, args};
        }
        else
            hx::count("registered_again");
        hx::count("registrations");
    }
    template <typename I>
    void give(int t, std::shared_ptr<I> p, const std::string& args, int serial)
    {
        const bool r = l.register_instance<I>(std::move(p));
        if (r == slots[t].present)
            bad("register_instance-result", hx::cat(type_name[t], ": ", r));
        if (r)
            slots[t] = {true, serial, args};
        else
            hx::count("registered_again");
        hx::count("instances");
    }
    template <typename I>
    void get(int t, bool keep)
    {
        std::shared_ptr<I> p = std::as_const(l).get<I>();
        const slot& s = slots[t];
        if ((p != nullptr) != (s.present && s.serial))
            bad("get-null", hx::cat(type_name[t], p ? " gave an object" : " gave null"));
        if (!p)
        {
            hx::count("null_gets");
            return;
        }
        const auto [id, args] = call(*p);
        if (id != s.serial || args != s.args)
            bad("get-object", hx::cat(type_name[t], ": object ", id, " ", args, " expected ", s.serial, " ", s.args));
        hx::count("calls_through_interface");
        if (keep)
        {
            I* raw = p.get();
            held.push_back({std::move(p), s.serial, [raw] { return call(*raw); }, s.args});
        }
    }
    template <typename I>
    void unreg(int t)
    {
        const bool r = l.unregister<I>();
        if (r != slots[t].present)
            bad("unregister-result", hx::cat(type_name[t], ": ", r));
        slots[t] = {};
        hx::count(r ? "unregistered" : "unregistered_nothing");
    }
    void verify()
    {
        std::set<int> want;
        for (int t = 0; t < NTYPES; ++t)
            if (slots[t].present && slots[t].serial)
                want.insert(slots[t].serial);
        for (auto& h : held)
            want.insert(h.serial);
        for (auto& [serial, n] : book.alive)
            if (n != (want.count(serial) ? 1 : 0))
                bad(n ? "leaked" : "destroyed-early", hx::cat("object ", serial, " has ", n, " live instances"));
        for (auto& [serial, n] : book.destroyed)
            if (n > 1)
                bad("destroyed-twice", hx::cat("object ", serial));
        const bool is[] = {l.is_registered<alpha>(), l.is_registered<beta>(), l.is_registered<gamma>(), l.is_registered<delta_i>(), l.is_registered<concrete>()};
        for (int t = 0; t < NTYPES; ++t)
            if (is[t] != slots[t].present)
                bad("is_registered", hx::cat(type_name[t], ": ", is[t]));
        for (auto& h : held)
        {
            const auto [id, args] = h.call();
            if (id != h.serial || args != h.args)
                bad("held-object", hx::cat("object ", h.serial, " answers ", id, " ", args));
        }
        hx::count("verifications");
    }
};

// types of the same name in two translation units are different types
void same_names(hx::rng& r)
{
    const unit_ops u[2] = {UNIT_OPS, second_unit()};
    int value[2][2] = {{-1, -1}, {-1, -1}};
    std::string log;
    auto bad = [&](const char* key, const std::string& what) { hx::fail(key, what + " -- types of the same name in two translation units, calls:" + log); };
    for (int i = 0, n = (int)r.in(3, 12); i <= n; ++i)
    {
        const int a = (int)r.below(2), b = (int)r.below(2), v = (int)r.below(1000);
        int& m = value[a][b];
        const char* name = b ? "codec" : "plugin";
        if (i == n) // leave nothing behind
        {
            for (int x = 0; x < 2; ++x)
                for (int y = 0; y < 2; ++y)
                    if (u[x].unreg(y) != (value[x][y] >= 0))
                        bad("unregister-result", hx::cat("unregistering unit ", x));
            break;
        }
        switch (r.below(4))
        {
        case 0:
            log += hx::cat(" unit", a, ".register(", name, v, ")");
            if (u[a].reg(b, v) != (m < 0))
                bad("register-result", hx::cat("registering ", name, " of unit ", a, " returned ", m >= 0));
            if (m < 0)
                m = v;
            hx::count("same_named_types");
            break;
        case 1:
            log += hx::cat(" unit", a, ".unregister(", name, ")");
            if (u[a].unreg(b) != (m >= 0))
                bad("unregister-result", hx::cat("unregistering ", name, " of unit ", a));
            m = -1;
            break;
        case 2:
            if (u[a].is(b) != (m >= 0))
                bad("is-registered", hx::cat(name, " of unit ", a));
            break;
        default:
            if (const int g = u[a].get(b); g != m)
                bad("wrong-object", hx::cat("get of ", name, " of unit ", a, " gives ", g, ", expected ", m));
        }
    }
}
void locator(uint64_t seed)
{
    hx::rng r(seed);
    if (r.chance(20))
        same_names(r);
    book = ledger{};
    world w;
    const int n = (int)r.in(5, 40);
    uint64_t h = 0;
    for (int i = 0; i < n; ++i)
    {
        const int op = (int)r.below(20);
        const int a = (int)r.in(-1000, 1000);
        const std::string s((size_t)r.below(30), (char)('a' + r.below(26)));
        h = hx::hash64(h, (uint64_t)op);
        w.log += hx::cat(" ", op);
        switch (op)
        {
        case 0: w.reg<alpha, plain_service>(ALPHA, hx::cat(a, "/", s), a, s); break;
        case 1:
        case 2: {
            std::vector<std::string> v(r.below(4), s);
            std::string args = std::to_string(a);
            for (auto& x : v)
                args += "," + x;
            if (op == 1)
                w.reg<alpha, second_base>(ALPHA, args, std::make_unique<int>(a), v);
            else
                w.reg<beta, second_base>(BETA, args, std::make_unique<int>(a), v);
            break;
        }
        case 3: w.reg<alpha, diamond>(ALPHA, hx::cat((double)a), (double)a); break;
        case 4: w.reg<beta, diamond>(BETA, hx::cat((double)a), (double)a); break;
        case 5: w.reg<gamma, diamond>(GAMMA, hx::cat((double)a), (double)a); break;
        case 6: w.reg<gamma, nothing_much>(GAMMA, "-"); break;
        case 7: w.reg<delta_i, nothing_much>(DELTA, "-"); break;
        case 8: { // a constructor that throws registers nothing
            bool thrown = false;
            try
            {
                (void)w.l.register_service<alpha, thrower>(1);
            }
            catch (const std::runtime_error&)
            {
                thrown = true;
            }
            if (!thrown && !w.slots[ALPHA].present)
                w.bad("constructor-exception", "swallowed");
            hx::count("throwing_constructors");
            break;
        }
        case 9: {
            auto p = std::make_shared<plain_service>(a, s);
            const int serial = p->serial;
            w.give<alpha>(ALPHA, p, hx::cat(a, "/", s), serial);
            break;
        }
        case 10: { // one object under several types
            auto p = std::make_shared<diamond>((double)a);
            const int serial = p->serial;
            w.give<alpha>(ALPHA, p, hx::cat((double)a), serial);
            w.give<beta>(BETA, p, hx::cat((double)a), serial);
            w.give<gamma>(GAMMA, p, hx::cat((double)a), serial);
            break;
        }
        case 11: {
            auto p = std::make_shared<concrete>(a);
            const int serial = p->serial;
            w.give<concrete>(CONCRETE, p, std::to_string(a), serial);
            break;
        }
        case 12:
            if (r.chance(30))
                w.give<concrete>(CONCRETE, nullptr, "", 0);
            break;
        case 13:
        case 14:
            switch (r.below(NTYPES))
            {
            case ALPHA: w.unreg<alpha>(ALPHA); break;
            case BETA: w.unreg<beta>(BETA); break;
            case GAMMA: w.unreg<gamma>(GAMMA); break;
            case DELTA: w.unreg<delta_i>(DELTA); break;
            default: w.unreg<concrete>(CONCRETE);
            }
            break;
        case 15:
            if (!w.held.empty())
                w.held.erase(w.held.begin() + (long)r.below(w.held.size()));
            break;
        default: {
            const bool keep = r.chance(40);
            w.get<alpha>(ALPHA, keep);
            w.get<beta>(BETA, keep);
            w.get<gamma>(GAMMA, keep);
            w.get<delta_i>(DELTA, keep);
            w.get<concrete>(CONCRETE, keep);
        }
        }
        w.verify();
    }
    if (hx::want_sample())
        hx::sample(hx::cat(n, " operations:", w.log));
    hx::state(h);
    w.unreg<alpha>(ALPHA);
    w.unreg<beta>(BETA);
    w.unreg<gamma>(GAMMA);
    w.unreg<delta_i>(DELTA);
    w.unreg<concrete>(CONCRETE);
    w.verify();
    w.held.clear();
    w.verify();
}

#endif
#if !defined(ONLY) || ONLY == 34
// Very many types: MANY interfaces and MANY own types, registered, asked for and unregistered in random orders.
constexpr int MANY = 100;
template <int N>
struct numbered_if
{
    virtual ~numbered_if() = default;
    virtual int id() const = 0;
};
template <int N>
struct numbered : numbered_if<N>
{
    int v;
    explicit numbered(int v) : v(v) {}
    int id() const override { return N * 1000 + v; }
};
template <int N>
struct numbered_own
{
    int v;
};
struct many_ops
{
    bool (*reg)(int v);
    bool (*unreg)();
    bool (*is)();
    int (*get)(); // -1: null
};
template <int N>
many_ops ops_of()
{
    if constexpr (N < MANY)
        return {[](int v) { return tcs::service_locator::instance().register_service<numbered_if<N>, numbered<N>>(v); },
                [] { return tcs::service_locator::instance().unregister<numbered_if<N>>(); },
                [] { return tcs::service_locator::instance().is_registered<numbered_if<N>>(); },
                [] { auto p = tcs::service_locator::instance().get<numbered_if<N>>(); return p ? p->id() - N * 1000 : -1; }};
    else
        return {[](int v) { return tcs::service_locator::instance().register_instance(std::make_shared<numbered_own<N>>(numbered_own<N>{v})); },
                [] { return tcs::service_locator::instance().unregister<numbered_own<N>>(); },
                [] { return tcs::service_locator::instance().is_registered<numbered_own<N>>(); },
                [] { auto p = tcs::service_locator::instance().get<numbered_own<N>>(); return p ? p->v : -1; }};
}
template <int... N>
std::vector<many_ops> all_ops(std::integer_sequence<int, N...>) { return {ops_of<N>()...}; }

void many_mode(uint64_t seed)
{
    static const std::vector<many_ops> ops = all_ops(std::make_integer_sequence<int, 2 * MANY>{});
    hx::rng r(seed);
    std::vector<int> value(ops.size(), -1);
    auto verify = [&](const char* when) {
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if (ops[i].is() != (value[i] >= 0))
                hx::fail("many-registered", hx::cat("type ", i, " of ", ops.size(), " is ", value[i] >= 0 ? "not " : "", "registered ", when));
            if (const int g = ops[i].get(); g != value[i])
                hx::fail("many-get", hx::cat("type ", i, " of ", ops.size(), ": get gives ", g, " instead of ", value[i], " ", when));
        }
        hx::count("types_compared", ops.size());
    };
    verify("before anything was registered");
    const int n = (int)r.in(100, 1500);
    for (int k = 0; k < n; ++k)
    {
        const size_t i = r.below(ops.size());
        if (r.chance(k < n / 2 ? 80 : 40))
        {
            const int v = (int)r.below(1000);
            if (ops[i].reg(v) != (value[i] < 0))
                hx::fail("many-register", hx::cat("registering type ", i, " returned ", value[i] >= 0));
            if (value[i] < 0)
                value[i] = v;
        }
        else
        {
            if (ops[i].unreg() != (value[i] >= 0))
                hx::fail("many-unregister", hx::cat("unregistering type ", i, " returned ", value[i] < 0));
            value[i] = -1;
        }
        if (ops[i].get() != value[i])
            hx::fail("many-get", hx::cat("type ", i, " right after the call"));
    }
    verify("after random calls");
    size_t most = 0;
    for (int v : value)
        most += v >= 0;
    hx::maxi("max_registered", most);
    for (size_t i = 0; i < ops.size(); ++i)
        if (ops[i].unreg() != (value[i] >= 0))
            hx::fail("many-unregister", hx::cat("unregistering type ", i, " returned ", value[i] < 0));
        else
            value[i] = -1;
    verify("after everything was unregistered");
    hx::state(hx::hash64(seed, most));
}
#endif
// ------------------------------------------------------------------------------------------------------------ C35
#if !defined(ONLY) || ONLY == 35
void stopwatch(uint64_t seed)
{
    hx::rng r(seed);
    mono_now = r.chance(20) ? 0 : (int64_t)(r.u64() >> r.in(2, 40));
    real_now = (int64_t)(r.u64() >> 2);
    fake_clock = true;
    const int64_t t0 = mono_now;
    std::vector<std::unique_ptr<tcs::stopwatch>> w;
    std::vector<int64_t> from, last;
    std::string log = hx::cat("clock ", t0);
    auto make = [&] {
        w.push_back(std::make_unique<tcs::stopwatch>());
        from.push_back(mono_now);
        last.push_back(0);
    };
    make();
    const char* bad = nullptr;
    int64_t got = 0, want = 0;
    for (int i = 0, n = (int)r.in(5, 60); i < n && !bad; ++i)
    {
        const size_t k = r.below(w.size());
        const int64_t e = mono_now - from[k];
        auto expect = [&](const char* key, int64_t g, int64_t x) {
            if (g != x && !bad)
                bad = key, got = g, want = x;
        };
        switch (r.below(9))
        {
        case 0:
        case 1:
        case 2: {
            int64_t by = r.pick({(int64_t)0, (int64_t)1, (int64_t)999, (int64_t)1000, (int64_t)999999, (int64_t)1000000, (int64_t)1000000000, (int64_t)59999999999, (int64_t)3600000000000, (int64_t)(r.u64() >> r.in(8, 60))});
            if (by > (int64_t)4000000000000000000 - mono_now)
                by = 1;
            mono_now += by;
            log += hx::cat(" +", by);
            hx::count("advances");
            break;
        }
        case 3: real_now = (int64_t)(r.u64() >> 2); break; // the wall clock is nobody's business
        case 4:
            w[k]->reset();
            from[k] = mono_now;
            last[k] = 0;
            log += hx::cat(" reset", k);
            hx::count("resets");
            expect("elapsed-after-reset", w[k]->elapsed().count(), 0);
            break;
        case 5:
            if (w.size() < 4)
                make();
            break;
        case 6: expect("start_time", w[k]->start_time().time_since_epoch().count(), from[k]); break;
        default:
            expect("elapsed", w[k]->elapsed().count(), e);
            expect("elapsed<nanoseconds>", w[k]->elapsed<ch::nanoseconds>().count(), e);
            expect("elapsed<microseconds>", w[k]->elapsed<ch::microseconds>().count(), e / 1000);
            expect("elapsed<milliseconds>", w[k]->elapsed<ch::milliseconds>().count(), e / 1000000);
            expect("elapsed<seconds>", w[k]->elapsed<ch::seconds>().count(), e / 1000000000);
            expect("elapsed<minutes>", w[k]->elapsed<ch::minutes>().count(), e / 60000000000);
            expect("elapsed<hours>", w[k]->elapsed<ch::hours>().count(), e / 3600000000000);
            if (e < last[k] && !bad)
                bad = "backwards", got = e, want = last[k];
            last[k] = e;
            hx::count("reads", 7);
        }
    }
    fake_clock = false;
    if (bad)
        hx::fail(bad, hx::cat(log, ": ", got, " expected ", want));
    hx::state(hx::hash_str(log));
    if (hx::want_sample())
        hx::sample(log);
}

#endif
// ------------------------------------------------------------------------------------------------------------ C36
#if !defined(ONLY) || ONLY == 36
struct life // of one callable and all its copies
{
    int serial = 0;
    int alive = 0;    // objects
    int calls = 0;    // total
    std::vector<int> call_states; // the state seen by each call
};
std::vector<std::unique_ptr<life>> lives;
std::set<const void*> addresses; // of live tracked callables

struct callable_base
{
    life* l;
    std::unique_ptr<int> heap; // invalid after a move or a destruction
    int throwing;
    callable_base(life* l, int state, int throwing) : l(l), heap(new int(state)), throwing(throwing) { born(); }
    callable_base(const callable_base& o) : l(o.l), heap(o.heap ? new int(*o.heap) : nullptr), throwing(o.throwing)
    {
        check(&o);
        born();
    }
    callable_base(callable_base&& o) noexcept : l(o.l), heap(std::move(o.heap)), throwing(o.throwing)
    {
        check(&o);
        born();
    }
    ~callable_base()
    {
        check(this);
        addresses.erase(this);
        --l->alive;
    }
    void born()
    {
        if (!addresses.insert(this).second)
            hx::fail("constructed-over-a-live-callable", "");
        ++l->alive;
    }
    static void check(const void* p)
    {
        if (!addresses.count(p))
            hx::fail("use-of-a-dead-callable", "");
    }
    void called(bool advance)
    {
        check(this);
        if (!heap)
            hx::fail("call-of-a-moved-from-callable", "");
        ++l->calls;
        l->call_states.push_back(*heap);
        if (advance)
            ++*heap;
        if (throwing)
            throw throwing;
    }
};
struct mutable_functor : callable_base // its state advances with every call
{
    using callable_base::callable_base;
    void operator()() { called(true); }
};
struct const_functor : callable_base
{
    using callable_base::callable_base;
    void operator()() const { const_cast<const_functor*>(this)->called(false); }
};
struct returning_functor : callable_base
{
    using callable_base::callable_base;
    std::string operator()() const
    {
        const_cast<returning_functor*>(this)->called(false);
        return std::string(100, 'x');
    }
};
struct big_functor : callable_base
{
    using callable_base::callable_base;
    char payload[512] = {};
    void operator()() { called(true); }
};
template <size_t N>
struct sized_functor : callable_base // from barely more than the base to a page
{
    using callable_base::callable_base;
    unsigned char payload[N];
    sized_functor(life* l, int state, int throwing) : callable_base(l, state, throwing)
    {
        for (size_t i = 0; i < N; ++i)
            payload[i] = (unsigned char)(i * 7 + 1);
    }
    void operator()()
    {
        for (size_t i = 0; i < N; ++i)
            if (payload[i] != (unsigned char)(i * 7 + 1))
                hx::fail("payload", hx::cat("byte ", i, " of a callable of ", sizeof(*this), " bytes has changed"));
        called(true);
    }
};
template <size_t A>
struct alignas(A) aligned_functor : callable_base
{
    using callable_base::callable_base;
    void operator()()
    {
        if (reinterpret_cast<uintptr_t>(this) % A)
            hx::fail("alignment", hx::cat("a callable that must be aligned to ", A, " bytes is called at ", (void*)this));
        called(true);
    }
};
struct throwing_move_functor : callable_base // its move constructor is not noexcept
{
    using callable_base::callable_base;
    throwing_move_functor(const throwing_move_functor&) = default;
    throwing_move_functor(throwing_move_functor&& o) noexcept(false) : callable_base(std::move(o)) {}
    void operator()() { called(true); }
};
int global_calls = 0;
int global_throws = 0;
void global_function()
{
    ++global_calls;
    if (global_throws)
        throw global_throws;
}

struct expected_task
{
    std::unique_ptr<tcs::task> t;
    life* l = nullptr;     // null: the global function
    int state = 0;         // the state its next call sees
    bool advancing = false;
    int throwing = 0;
    int copies = 1;        // tracked objects the task owns
};

void task_mode(uint64_t seed)
{
    hx::rng r(seed);
    lives.clear();
    if (!addresses.empty())
        hx::fail("leaked-callables", hx::cat(addresses.size(), " live callables"));
    std::vector<expected_task> tasks;
    std::vector<std::function<void()>> drop; // originals still alive
    std::string log;
    struct original
    {
        std::shared_ptr<callable_base> keep;
        life* l;
        int state;
        bool moved_from;
    };
    std::vector<original> originals;
    auto bad = [&](const char* key, const std::string& more) { hx::fail(key, hx::cat("after", log, ": ", more)); };
    auto new_life = [&] {
        lives.push_back(std::make_unique<life>());
        lives.back()->serial = (int)lives.size();
        return lives.back().get();
    };
    auto verify = [&] {
        std::map<life*, int> want;
        for (auto& t : tasks)
            if (t.l)
                want[t.l] += t.copies;
        for (auto& o : originals)
            want[o.l] += 1;
        for (auto& l : lives)
            if (l->alive != want[l.get()])
                bad(l->alive > want[l.get()] ? "callable-not-destroyed" : "callable-destroyed-early", hx::cat("callable ", l->serial, " has ", l->alive, " live objects, expected ", want[l.get()]));
        for (auto& o : originals)
            if (!o.moved_from && (!o.keep->heap || *o.keep->heap != o.state))
                bad("original-changed", hx::cat("callable ", o.l->serial));
        hx::count("verifications");
    };
    auto invoke = [&](expected_task& t, bool by_operator, bool other_thread) {
        const int before = t.l ? t.l->calls : global_calls;
        int caught = 0;
        std::string what;
        auto call = [&] {
            const tcs::task& c = *t.t;
            try
            {
                if (by_operator)
                    c();
                else
                    c.invoke();
            }
            catch (int e)
            {
                caught = e;
            }
            catch (...)
            {
                what = "a foreign exception";
            }
        };
        if (other_thread)
            std::thread(call).join();
        else
            call();
        if (!what.empty())
            bad("exception", what);
        const int after = t.l ? t.l->calls : global_calls;
        if (after - before != 1)
            bad("calls", hx::cat(after - before, " calls of callable ", t.l ? t.l->serial : 0));
        if (caught != t.throwing)
            bad("exception", hx::cat("caught ", caught, " expected ", t.throwing));
        if (t.l)
        {
            if (t.l->call_states.back() != t.state)
                bad("state", hx::cat("callable ", t.l->serial, " was called with state ", t.l->call_states.back(), " expected ", t.state));
            if (t.advancing)
                ++t.state;
        }
        hx::count(t.throwing ? "throwing_calls" : "calls");
        log += hx::cat(" call", t.l ? t.l->serial : 0);
    };
    auto add = [&]<typename F>(F*, bool advancing) {
        const int throwing = r.chance(20) ? (int)r.in(1, 1000) : 0, state = (int)r.in(0, 1000);
        life* l = new_life();
        expected_task e;
        e.l = l;
        e.state = state;
        e.advancing = advancing;
        e.throwing = throwing;
        const int how = (int)r.below(6);
        log += hx::cat(" make", l->serial, "/", how);
        switch (how)
        {
        case 0: e.t = std::make_unique<tcs::task>(F(l, state, throwing)); break; // a temporary
        case 1:
        case 2: { // moved
            auto o = std::make_shared<F>(l, state, throwing);
            e.t = std::make_unique<tcs::task>(std::move(*o));
            if (how == 1)
                originals.push_back({o, l, state, true});
            break;
        }
        case 3: { // copied from a named object
            auto o = std::make_shared<F>(l, state, throwing);
            e.t = std::make_unique<tcs::task>(*o);
            if (r.chance(50))
                originals.push_back({o, l, state, false});
            hx::count("from_named");
            break;
        }
        case 4: { // copied from a const object
            auto o = std::make_shared<const F>(l, state, throwing);
            e.t = std::make_unique<tcs::task>(*o);
            if (r.chance(50))
                originals.push_back({std::const_pointer_cast<F>(o), l, state, false});
            hx::count("from_const");
            break;
        }
        default: { // inside a lambda
            auto f = [g = F(l, state, throwing)]() mutable { g(); };
            if (r.chance(50))
                e.t = std::make_unique<tcs::task>(std::move(f));
            else
                e.t = std::make_unique<tcs::task>(f);
            hx::count("in_lambdas");
        }
        }
        tasks.push_back(std::move(e));
    };
    const int n = (int)r.in(4, 30);
    for (int i = 0; i < n; ++i)
    {
        switch (r.below(16))
        {
        case 14:
            switch (r.below(10))
            {
            case 0: add((sized_functor<1>*)nullptr, true); break;
            case 1: add((sized_functor<8>*)nullptr, true); break;
            case 2: add((sized_functor<16>*)nullptr, true); break;
            case 3: add((sized_functor<24>*)nullptr, true); break;
            case 4: add((sized_functor<40>*)nullptr, true); break;
            case 5: add((sized_functor<104>*)nullptr, true); break;
            case 6: add((sized_functor<5000>*)nullptr, true); break;
            case 7: add((aligned_functor<32>*)nullptr, true); break;
            case 8: add((aligned_functor<64>*)nullptr, true); break;
            default: add((aligned_functor<4096>*)nullptr, true);
            }
            hx::count("sized_and_aligned");
            break;
        case 15: add((throwing_move_functor*)nullptr, true); break;
        case 0: add((mutable_functor*)nullptr, true); break;
        case 1: add((const_functor*)nullptr, false); break;
        case 2: add((returning_functor*)nullptr, false); break;
        case 3: add((big_functor*)nullptr, true); break;
        case 4: { // functions
            expected_task e;
            if (r.chance(50))
                e.t = std::make_unique<tcs::task>(global_function);
            else
            {
                void (*f)() = global_function;
                if (r.chance(50))
                    e.t = std::make_unique<tcs::task>(f);
                else
                    e.t = std::make_unique<tcs::task>(&global_function);
                f = nullptr;
            }
            global_throws = 0;
            tasks.push_back(std::move(e));
            log += " function";
            hx::count("functions");
            break;
        }
        case 5: { // std::function, named and const
            life* l = new_life();
            expected_task e;
            e.l = l;
            e.state = (int)r.in(0, 1000);
            e.advancing = true;
            std::function<void()> f = mutable_functor(l, e.state, 0);
            log += hx::cat(" function-object", l->serial);
            if (r.chance(30))
                e.t = std::make_unique<tcs::task>(f);
            else if (r.chance(50))
                e.t = std::make_unique<tcs::task>(std::as_const(f));
            else
                e.t = std::make_unique<tcs::task>(std::move(f));
            tasks.push_back(std::move(e));
            break;
        }
        case 6: { // move-only callable
            life* l = new_life();
            expected_task e;
            e.l = l;
            e.state = (int)r.in(0, 1000);
            e.advancing = true;
            log += hx::cat(" move-only", l->serial);
            e.t = std::make_unique<tcs::task>([p = std::make_unique<mutable_functor>(l, e.state, 0)] { (*p)(); });
            tasks.push_back(std::move(e));
            hx::count("move_only");
            break;
        }
        case 7: // move a task; the husk goes
            if (!tasks.empty())
            {
                auto& t = r.pick(tasks);
                auto moved = std::make_unique<tcs::task>(std::move(*t.t));
                if (r.chance(50))
                {
                    auto husk = std::move(t.t);
                    t.t = std::move(moved);
                    verify();
                    husk.reset();
                }
                else
                    t.t = std::move(moved);
                log += hx::cat(" move", t.l ? t.l->serial : 0);
                hx::count("moves");
            }
            break;
        case 8: // destroy a task
            if (!tasks.empty())
            {
                const size_t k = r.below(tasks.size());
                log += hx::cat(" destroy", tasks[k].l ? tasks[k].l->serial : 0);
                tasks.erase(tasks.begin() + (long)k);
                hx::count("destroyed");
            }
            break;
        case 9: // the original changes or goes
            if (!originals.empty())
            {
                const size_t k = r.below(originals.size());
                if (!originals[k].moved_from && r.chance(50))
                {
                    originals[k].state += 100000;
                    *originals[k].keep->heap = originals[k].state;
                    log += hx::cat(" change", originals[k].l->serial);
                }
                else
                {
                    log += hx::cat(" drop", originals[k].l->serial);
                    originals.erase(originals.begin() + (long)k);
                }
            }
            break;
        default:
            if (!tasks.empty())
                invoke(r.pick(tasks), r.chance(50), r.chance(2));
        }
        verify();
    }
    for (auto& t : tasks)
        for (int i = 0; i < 2; ++i)
            invoke(t, i, false);
    hx::state(hx::hash_str(log));
    if (hx::want_sample())
        hx::sample(log);
    originals.clear();
    verify();
    tasks.clear();
    verify();
}
#endif
} // namespace

int main(int argc, char** argv)
{
    std::vector<hx::mode> m;
#if !defined(ONLY) || ONLY == 34
    m.push_back({"locator", locator});
    m.push_back({"many", many_mode});
#endif
#if !defined(ONLY) || ONLY == 35
    m.push_back({"stopwatch", stopwatch});
#endif
#if !defined(ONLY) || ONLY == 36
    m.push_back({"task", task_mode});
#endif
    return hx::main_(argc, argv, m);
}
