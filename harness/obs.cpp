// observable: C13. Concurrent histories linearised against a (value, enabled) register with ordered notifications.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/observable.hpp>

#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace
{
enum ek { SET_INV = 1, SET_RET, GET_INV, GET_RET, EN_INV, EN_RET, ENG_INV, ENG_RET, CB_BEG, CB_END, CB_THROW };

// values: group g = v / 10 decides equality for the last type, v itself otherwise
struct keyed
{
    int64_t v = 0;
    std::string pad;
    bool operator==(const keyed& o) const { return v / 10 == o.v / 10; }
};
template <typename T> T make(int64_t v);
template <> int make<int>(int64_t v) { return (int)v; }
template <> std::string make<std::string>(int64_t v) { return "value number " + std::to_string(v) + " is long enough to live on the heap"; }
template <> keyed make<keyed>(int64_t v) { return {v, "padding that lives on the heap, number " + std::to_string(v)}; }
template <> double make<double>(int64_t v)
{
    switch (v)
    {
    case 0: return 0.0;
    case 1: return -0.0; // equal to 0.0
    case 2: return std::numeric_limits<double>::quiet_NaN(); // not even equal to itself
    default: return (double)v * 0.25;
    }
}
template <> std::shared_ptr<int> make<std::shared_ptr<int>>(int64_t v)
{
    static std::vector<std::shared_ptr<int>> all = [] {
        std::vector<std::shared_ptr<int>> o;
        for (int i = 0; i < 100; ++i)
            o.push_back(std::make_shared<int>(i));
        return o;
    }();
    return all[(size_t)v];
}
int64_t back(int v) { return v; }
int64_t back(const std::string& s)
{
    const int64_t v = s.size() > 13 ? std::strtoll(s.c_str() + 13, nullptr, 10) : -1;
    return v >= 0 && s == make<std::string>(v) ? v : -1;
}
int64_t back(double d) { return d != d ? 2 : d == 0 ? std::signbit(d) : (int64_t)(d * 4); }
int64_t back(const keyed& k) { return k.pad == make<keyed>(k.v).pad ? k.v : -1; }
int64_t back(const std::shared_ptr<int>& p) { return p ? *p : -1; }

struct boom
{
    int64_t serial;
};

struct op
{
    int kind; // 0 set, 1 get, 2 enable, 3 enabled?
    int64_t v = 0;
    int64_t threw = 0, thrown = 0; // serial number of the exception that its caller caught, and that its callback threw
    int inv = 0, ret = 1 << 30, tid = 0;
    std::vector<int64_t> cb; // values of callbacks run inside this call
    int cb_at = -1;
};

struct lin
{
    const std::vector<op>& h;
    char eq_mode; // '=' the very value, 'g' group, 'd' floating point
    std::set<std::tuple<uint64_t, int64_t, bool>> seen;
    bool eq(int64_t a, int64_t b) const { return eq_mode == 'g' ? a / 10 == b / 10 : eq_mode == 'd' ? (a == b && a != 2) || (a < 2 && b < 2) : a == b; }
    bool go(uint64_t done, int64_t val, bool en)
    {
        if (done == (1ull << h.size()) - 1)
            return true;
        if (!seen.insert({done, val, en}).second)
            return false;
        int minret = 1 << 30, mincb = 1 << 30;
        for (size_t i = 0; i < h.size(); ++i)
            if (!(done >> i & 1))
            {
                minret = std::min(minret, h[i].ret);
                if (h[i].cb_at >= 0)
                    mincb = std::min(mincb, h[i].cb_at);
            }
        for (size_t i = 0; i < h.size(); ++i)
        {
            const op& o = h[i];
            if ((done >> i & 1) || o.inv > minret)
                continue;
            int64_t nv = val;
            bool ne = en, ok = true;
            switch (o.kind)
            {
            case 0:
                if (eq(o.v, val))
                    ok = o.cb.empty();
                else
                {
                    nv = o.v;
                    ok = en ? o.cb.size() == 1 && o.cb[0] == o.v && o.cb_at == mincb : o.cb.empty();
                }
                break;
            case 1: ok = o.v == val; break;
            case 2: ne = o.v != 0; break;
            default: ok = (o.v != 0) == en;
            }
            if (ok && go(done | 1ull << i, nv, ne))
                return true;
        }
        return false;
    }
};

template <typename T>
void iter_t(uint64_t seed, char eq_mode)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    const int nth = (int)r.in(1, 4), nops = (int)r.in(2, nth > 2 ? 6 : 10), range = r.pick({2, 3, 5, 30, 99});
    const int64_t init = (int64_t)r.below((uint64_t)range);
    const bool throwing = r.chance(15);
    const int mix = (int)r.below(4);
    ds::run(cfg, [&] {
        auto cb = [&](T v) {
            rec::add(CB_BEG, back(v));
            if (rec::inc(1) != 1)
                hx::fail("callbacks-overlap", "two callbacks of one observable were running at the same time");
            ds::point();
            if (rec::get(2) & 1)
                ds::sleep_for(1000);
            rec::inc(2);
            rec::inc(1, -1);
            const int64_t serial = rec::inc(3);
            const bool throws = throwing && rec::get(2) % 3 == 0;
            if (throws)
                rec::add(CB_THROW, serial);
            rec::add(CB_END, back(v));
            if (throws && serial % 2)
                throw std::runtime_error("exception number " + std::to_string(serial));
            if (throws)
                throw boom{serial};
        };
        T iv = make<T>(init);
        const std::function<void(T)> f = cb;
        std::unique_ptr<tc::sdk::observable<T>> o = r.chance(50) ? std::make_unique<tc::sdk::observable<T>>(iv, f) : std::make_unique<tc::sdk::observable<T>>(make<T>(init), f);
        tc::sdk::observable<T>& ob = *o;
        if (rec::size())
            hx::fail("callback-at-construction", "the constructor invoked the callback");
        std::vector<std::thread> th;
        for (int t = 0; t < nth; ++t)
            th.emplace_back([&, t] {
                hx::rng rr(seed * 23 + t);
                for (int i = 0; i < nops; ++i)
                {
                    const int64_t v = (int64_t)rr.below((uint64_t)range);
                    const unsigned k = (unsigned)rr.below(10);
                    if (k < (mix == 3 ? 4u : 6u))
                    {
                        T x = make<T>(v);
                        rec::add(SET_INV, v);
                        int64_t threw = 0;
                        try
                        {
                            if (rr.chance(50))
                                ob = x;
                            else
                                ob = std::move(x);
                        }
                        catch (const boom& b)
                        {
                            threw = b.serial;
                        }
                        catch (const std::runtime_error& e)
                        {
                            threw = std::strtoll(e.what() + 17, nullptr, 10);
                        }
                        catch (...)
                        {
                            threw = -1;
                        }
                        rec::add(SET_RET, v, threw);
                    }
                    else if (k < 8)
                    {
                        rec::add(GET_INV);
                        T got = rr.chance(50) ? ob.value() : static_cast<T>(ob);
                        rec::add(GET_RET, back(got));
                    }
                    else if (mix < 2 || rr.chance(50))
                    {
                        rec::add(ENG_INV);
                        const bool e = ob.callback_enabled();
                        rec::add(ENG_RET, e);
                    }
                    else
                    {
                        const bool e = rr.chance(60);
                        rec::add(EN_INV, e);
                        ob.callback_enabled(e);
                        rec::add(EN_RET, e);
                    }
                    if (rr.chance(10))
                        ds::sleep_for(rr.below(3000));
                }
            });
        for (auto& t : th)
            t.join();
        rec::add(GET_INV);
        T fin = ob.value();
        rec::add(GET_RET, back(fin));
    });
    static const char* en[] = {"", "set", "set-ret", "get", "get-ret", "enable", "enable-ret", "enabled?", "enabled?-ret", "callback", "callback-end", "throws"};
    std::map<int, op> open;
    std::vector<op> h;
    std::string tl;
    for (int i = 0; i < rec::size(); ++i)
    {
        const rec::ev& e = rec::at(i);
        tl += hx::cat(" ", i, ":T", e.tid, " ", en[e.kind], "(", e.a, ")");
        switch (e.kind)
        {
        case SET_INV: open[e.tid] = {0, e.a, 0, 0, i, 0, e.tid}; break;
        case GET_INV: open[e.tid] = {1, 0, 0, 0, i, 0, e.tid}; break;
        case EN_INV: open[e.tid] = {2, e.a, 0, 0, i, 0, e.tid}; break;
        case ENG_INV: open[e.tid] = {3, 0, 0, 0, i, 0, e.tid}; break;
        case CB_BEG:
            if (open.count(e.tid) && open[e.tid].kind == 0)
            {
                open[e.tid].cb.push_back(e.a);
                open[e.tid].cb_at = i;
            }
            else
                hx::fail("stray-callback", "a callback ran outside any assignment:" + tl);
            hx::count("callbacks");
            break;
        case CB_THROW:
            if (open.count(e.tid))
                open[e.tid].thrown = e.a;
            break;
        case CB_END:
            if (!open.count(e.tid))
                hx::fail("stray-callback", "a callback was still running after its assignment had returned:" + tl);
            break;
        default:
        {
            op o = open[e.tid];
            open.erase(e.tid);
            o.ret = i;
            if (e.kind == GET_RET || e.kind == ENG_RET)
                o.v = e.a;
            if (e.kind == SET_RET)
            {
                o.threw = e.b;
                if (o.threw != o.thrown)
                    hx::fail("exception", hx::cat("an assignment's callback threw exception number ", o.thrown, ", its caller caught number ", o.threw, " (0: none, -1: something else):", tl));
                if (o.threw)
                    hx::count("callback_throws");
            }
            if (o.kind == 0 && o.cb.empty())
                hx::count("silent_assignments");
            h.push_back(o);
        }
        }
    }
    int overlaps = 0;
    for (size_t i = 0; i < h.size(); ++i)
        for (size_t j = i + 1; j < h.size(); ++j)
            overlaps += h[j].inv < h[i].ret && h[i].inv < h[j].ret;
    lin L{h, eq_mode, {}};
    if (!L.go(0, init, true))
        hx::fail("not-linearizable", hx::cat("initial value ", init, eq_mode == 'g' ? " (values of one decade compare equal)" : eq_mode == 'd' ? " (0 and 1 compare equal, 2 is not equal to anything)" : "", "; no order of the calls explains results and callbacks:", tl));
    hx::count("overlapping_pairs", (uint64_t)overlaps);
    hx::count("calls", h.size());
    if (overlaps)
    {
        uint64_t sh = seed % 7;
        for (int i = 0; i < rec::size(); ++i)
            sh = hx::hash64(sh, (uint64_t)rec::at(i).kind * 1000 + (uint64_t)rec::at(i).tid * 100 + (uint64_t)rec::at(i).a);
        hx::state(sh);
        if (hx::want_sample())
            hx::sample(tl);
    }
}

void iter(uint64_t seed)
{
    switch (seed % 5)
    {
    case 0: iter_t<int>(seed, '='); break;
    case 1: iter_t<std::string>(seed, '='); break;
    case 2: iter_t<keyed>(seed, 'g'); break;
    case 3: iter_t<double>(seed, 'd'); break;
    default: iter_t<std::shared_ptr<int>>(seed, '=');
    }
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {{"obs", iter}});
}
