// event_dispatcher: C11 (exactly-once matching delivery), C12 (ids and removals).
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/event_dispatcher.hpp>

#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <typeinfo>
#include <vector>

namespace
{
enum ek { DELIV = 1, BADVAL, ADD_INV, ADD_RET, EMIT_INV, EMIT_RET, RMH_INV, RMH_RET, RME_INV, RME_RET, STOP_INV, STOP_RET };
constexpr int V_HID = 1, V_EID = 2;

struct payload
{
    std::shared_ptr<int> p;
    std::string s;
    bool operator==(const payload& o) const { return s == o.s && (!p == !o.p) && (!p || *p == *o.p); }
};

template <typename T> T value_of(int64_t eid, int pos);
template <> int value_of<int>(int64_t e, int p) { return (int)(e * 7 + p); }
template <> long value_of<long>(int64_t e, int p) { return (long)(e * 1000003 + p); }
template <> unsigned value_of<unsigned>(int64_t e, int p) { return (unsigned)(e * 11 + p); }
template <> float value_of<float>(int64_t e, int p) { return (float)e + 0.25f * (float)p; }
template <> double value_of<double>(int64_t e, int p) { return (double)e * 0.5 + p; }
template <> bool value_of<bool>(int64_t e, int p) { return (e + p) & 1; }
template <> std::string value_of<std::string>(int64_t e, int p) { return "event " + std::to_string(e) + std::string(20, 'a' + (char)p); }
template <> std::vector<int> value_of<std::vector<int>>(int64_t e, int p) { return {(int)e, p, 3}; }
template <> payload value_of<payload>(int64_t e, int p) { return {std::make_shared<int>((int)e), std::to_string(p)}; }

void spoil(int& x) { x = -1; }
void spoil(long& x) { x = -1; }
void spoil(unsigned& x) { x = 77; }
void spoil(float& x) { x = -3; }
void spoil(double& x) { x = -3; }
void spoil(bool& x) { x = !x; }
void spoil(std::string& x) { x.assign("spoiled by a handler that owned it for itself"); }
void spoil(std::vector<int>& x) { x.clear(); }
void spoil(payload& x) { x.s = "spoiled"; x.p.reset(); }

// What a handler does after recording its delivery.
struct behaviour
{
    int hid;
    bool throws = false;
    uint64_t busy = 0;
    std::function<void()> extra;
};

// The emission number travels as the identity of the values: the handler finds the emission whose values it got.
template <typename... A>
int64_t identify(const A&... a)
{
    const int n = (int)rec::get(V_EID);
    for (int e = 1; e <= n; ++e)
    {
        int pos = 0;
        if (((a == value_of<std::decay_t<A>>(e, pos++)) && ...))
            return e;
    }
    return -1;
}

struct boom
{
};

template <typename... A>
void deliver(const behaviour& b, const A&... a)
{
    int64_t e;
    if constexpr (sizeof...(A) == 0)
        e = 0; // no values to tell emissions apart
    else
        e = identify(a...);
    rec::add(e < 0 ? BADVAL : DELIV, b.hid, e, (int64_t)ds::self_id());
    if (b.busy)
        ds::sleep_for(b.busy);
    if (b.extra)
        b.extra();
}

struct list_base
{
    virtual ~list_base() = default;
    virtual unsigned long add(tc::sdk::event_dispatcher& d, const std::string& name, behaviour b, int form) const = 0;
    virtual bool emit(tc::sdk::event_dispatcher& d, const std::string& name, int64_t eid, unsigned form) const = 0;
    virtual int arity() const = 0;
};

template <typename... A>
struct list : list_base
{
    unsigned long add(tc::sdk::event_dispatcher& d, const std::string& name, behaviour b, int form) const override
    {
        auto finish = [](const behaviour& bb) {
            if (bb.throws)
                throw boom{};
        };
        switch (form % 4)
        {
        case 1:
            return d.add_handler<const A&...>(name, [b, finish](const A&... a) {
                deliver(b, a...);
                finish(b);
            });
        case 2:
            return d.add_handler<A&...>(name, [b, finish](A&... a) {
                deliver(b, a...);
                (spoil(a), ...);
                finish(b);
            });
        case 3:
            return d.add_handler<A&&...>(name, [b, finish](A&&... a) {
                deliver(b, a...);
                ((void)A(std::move(a)), ...);
                finish(b);
            });
        default:
            return d.add_handler<A...>(name, [b, finish](A... a) {
                deliver(b, a...);
                (spoil(a), ...);
                finish(b);
            });
        }
    }
    // However the values are passed, the event has got copies of its own when emit returns.
    bool emit(tc::sdk::event_dispatcher& d, const std::string& name, int64_t eid, unsigned form) const override
    {
        int pos = 0;
        std::tuple<A...> vals{value_of<A>(eid, pos++)...};
        return std::apply([&](auto&... v) {
            bool r = false;
            switch (form % 6)
            {
            case 1: r = d.template emit<A...>(name, v...); break;
            case 2: r = d.template emit<const A&...>(name, v...); break;
            case 3: r = d.template emit<A&...>(name, v...); break;
            case 4: r = d.template emit<A&&...>(name, std::move(v)...); break;
            case 5: r = d.emit(name, std::move(v)...); break;
            default: r = d.emit(name, v...);
            }
            (spoil(v), ...);
            return r;
        }, vals);
    }
    int arity() const override { return sizeof...(A); }
};

const std::vector<std::unique_ptr<list_base>>& lists()
{
    static const std::vector<std::unique_ptr<list_base>> v = [] {
        std::vector<std::unique_ptr<list_base>> o;
        o.push_back(std::make_unique<list<>>());
        o.push_back(std::make_unique<list<int>>());
        o.push_back(std::make_unique<list<int, float>>());
        o.push_back(std::make_unique<list<float, int>>());
        o.push_back(std::make_unique<list<std::string>>());
        o.push_back(std::make_unique<list<std::string, int>>());
        o.push_back(std::make_unique<list<int, std::string>>());
        o.push_back(std::make_unique<list<int, int>>());
        o.push_back(std::make_unique<list<long>>());
        o.push_back(std::make_unique<list<unsigned>>());
        o.push_back(std::make_unique<list<payload, std::vector<int>>>());
        o.push_back(std::make_unique<list<int, double, std::string>>());
        o.push_back(std::make_unique<list<std::string, int, double>>());
        o.push_back(std::make_unique<list<float>>());
        return o;
    }();
    return v;
}

const std::vector<std::string>& names()
{
    static const std::vector<std::string> v = [] {
        std::vector<std::string> o{"a", "ab", "abc", "", "b", "ev", "ev1", "ev12", "EV", std::string("a\0b", 3), std::string("a\0c", 3),
                                   "a long event name that does not fit a small buffer", "a long event name that does not fit a small buffer!"};
        // names that end like a type would be written
        for (const char* base : {"a", "ev"})
        {
            o.push_back(base + std::to_string(typeid(int).hash_code()));
            o.push_back(base + std::to_string(typeid(std::string).hash_code()));
            o.push_back(std::string(base) + typeid(int).name());
        }
        for (int i = 0; i < 100; ++i) // for those that use many
            o.push_back(hx::cat("one of many ", i));
        return o;
    }();
    return v;
}
const size_t odd_names = names().size() - 100;

std::string key_text(int name, int lst) { return hx::cat(hx::quote(names()[name]), "/list", lst); }

// ------------------------------------------------------------------------------------------------ sequential model
struct mh
{
    unsigned long id;
    int hid, name, lst;
};
struct md
{
    std::unique_ptr<tc::sdk::event_dispatcher> d;
    std::vector<mh> hs;
    unsigned long last_id = 0;
    unsigned threads = 0; // 0: stopped
    std::vector<std::vector<std::pair<int, int>>> pending; // (hid, eid) groups emitted and not yet delivered
};

void seq_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    const bool many = r.chance(2); // events and handlers at the same time
    const int nops = many ? (int)r.in(150, 500) : (int)r.in(10, 60);
    // a small working set of names and lists makes collisions frequent
    std::vector<int> ns, ls;
    if (many)
        for (int i = (int)r.in(20, 100); i > 0; --i)
            ns.push_back((int)odd_names + i - 1);
    for (int i = (int)r.in(1, 5); i > 0; --i)
        ns.push_back((int)r.below(odd_names));
    for (int i = (int)r.in(1, 6); i > 0; --i)
        ls.push_back((int)r.below(lists().size()));
    if (r.chance(30))
        ls.push_back(2), ls.push_back(3);
    uint64_t sh = 0;
    std::string log;
    ds::run(cfg, [&] {
        std::vector<md> D;
        auto create = [&] {
            md m;
            m.d = std::make_unique<tc::sdk::event_dispatcher>();
            if (r.chance(80))
            {
                m.threads = (unsigned)r.in(1, 3);
                if (!m.d->start(m.threads))
                    hx::fail("start-result", "start() of a new dispatcher returned false");
            }
            D.push_back(std::move(m));
            log += hx::cat(" new#", D.size() - 1, "(threads ", D.back().threads, ")");
        };
        create();
        int mark = 0; // events before this one have been judged
        auto judge = [&] {
            ds::wait_quiescent(true);
            // collect deliveries since mark
            std::vector<std::pair<int, int>> got;
            for (int i = mark; i < rec::size(); ++i)
            {
                const rec::ev& e = rec::at(i);
                if (e.kind == BADVAL)
                    hx::fail("wrong-values", hx::cat("handler h", e.a, " got values that no emission passed;", log));
                if (e.kind == DELIV)
                    got.push_back({(int)e.a, (int)e.b});
            }
            mark = rec::size();
            // expected: per running dispatcher
            std::multiset<std::pair<int, int>> want;
            for (md& m : D)
            {
                if (!m.threads)
                    continue;
                std::vector<std::pair<int, int>> order;
                for (auto& g : m.pending)
                    for (auto& p : g)
                        order.push_back(p);
                m.pending.clear();
                if (m.threads == 1)
                {
                    std::set<int> mine;
                    for (auto& p : order)
                        mine.insert(p.first);
                    std::vector<std::pair<int, int>> sub;
                    for (auto& p : got)
                        if (mine.count(p.first))
                            sub.push_back(p);
                    auto show = [](const std::vector<std::pair<int, int>>& v) {
                        std::string s;
                        for (auto& p : v)
                            s += hx::cat(" h", p.first, "<-e", p.second);
                        return s;
                    };
                    if (sub.size() == order.size() && sub != order)
                        hx::fail("delivery-order", hx::cat("delivered", show(sub), " but emission/registration order is", show(order), ";", log));
                    hx::count("ordered_deliveries", order.size());
                }
                want.insert(order.begin(), order.end());
            }
            std::multiset<std::pair<int, int>> g(got.begin(), got.end());
            if (g != want)
            {
                std::string s;
                for (auto& p : want)
                    if (g.count(p) < want.count(p))
                        s += hx::cat(" missing h", p.first, "<-e", p.second);
                for (auto& p : g)
                    if (g.count(p) > want.count(p))
                        s += hx::cat(" unexpected h", p.first, "<-e", p.second);
                hx::fail("deliveries", s + ";" + log);
            }
            hx::count("deliveries", got.size());
        };
        int hid = 0, eid = 0;
        for (int o = 0; o < nops; ++o)
        {
            if (D.empty() || (D.size() < 3 && r.chance(4)))
                create();
            const size_t di = r.below(D.size());
            md& m = D[di];
            const int name = r.pick(ns), lst = r.pick(ls);
            const unsigned k = (unsigned)r.below(100);
            sh = hx::hash64(sh, k * 64 + (unsigned)name * 16 + (unsigned)lst);
            if (m.hs.size() > 32)
                hx::count("with_many_handlers");
            if (many && k >= 94 && r.chance(90))
                continue; // seldom starts anew
            if (k < 35)
            {
                ++hid;
                behaviour b{hid};
                b.throws = r.chance(15);
                b.busy = r.chance(20) ? r.below(1000000) : 0;
                const int form = (int)r.below(4);
                log += hx::cat(" add#", di, "(", key_text(name, lst), ",form ", form, ")=h", hid);
                const unsigned long id = lists()[lst]->add(*m.d, names()[name], b, form);
                if (id != m.last_id + 1)
                    hx::fail("handler-id", hx::cat("add_handler returned id ", id, " after id ", m.last_id, ";", log));
                m.last_id = id;
                m.hs.push_back({id, hid, name, lst});
                hx::count("handlers");
            }
            else if (k < 75)
            {
                ++eid;
                rec::set(V_EID, eid);
                log += hx::cat(" emit#", di, "(", key_text(name, lst), ")=e", eid);
                std::vector<std::pair<int, int>> g;
                for (auto& h : m.hs)
                    if (h.name == name && h.lst == lst)
                        g.push_back({h.hid, lists()[lst]->arity() ? eid : 0});
                const bool res = lists()[lst]->emit(*m.d, names()[name], eid, (unsigned)(seed + (uint64_t)eid * 5));
                if (res != !g.empty())
                    hx::fail("emit-result", hx::cat("emit returned ", res, " with ", g.size(), " matching handlers;", log));
                m.pending.push_back(std::move(g));
                hx::count("emissions");
                if (res)
                    hx::count("matched_emissions");
            }
            else if (k < 83)
            {
                // mostly existing ids, sometimes removed, never issued or foreign ones
                const unsigned long id = m.hs.empty() || r.chance(25) ? (unsigned long)r.below(m.last_id + 4) : m.hs[r.below(m.hs.size())].id;
                log += hx::cat(" remove_handler#", di, "(", id, ")");
                auto it = std::find_if(m.hs.begin(), m.hs.end(), [&](auto& h) { return h.id == id; });
                const bool want = it != m.hs.end();
                const bool got = m.d->remove_handler(id);
                if (got != want)
                    hx::fail("remove-result", hx::cat("remove_handler(", id, ") returned ", got, ";", log));
                if (want)
                    m.hs.erase(it), hx::count("handlers_removed");
            }
            else if (k < 89)
            {
                log += hx::cat(" remove_event#", di, "(", hx::quote(names()[name]), ")");
                const size_t n = std::erase_if(m.hs, [&](auto& h) { return h.name == name || names()[h.name] == names()[name]; });
                const bool got = m.d->remove_event(names()[name]);
                if (got != (n > 0))
                    hx::fail("remove-result", hx::cat("remove_event returned ", got, " with ", n, " handlers of that event;", log));
                if (n)
                    hx::count("events_removed");
            }
            else if (k < 94)
            {
                const unsigned t = (unsigned)r.in(1, 3);
                log += hx::cat(" start#", di, "(", t, ")");
                const bool got = m.d->start(t);
                if (got != (m.threads == 0))
                    hx::fail("start-result", hx::cat("start returned ", got, ";", log));
                if (got)
                    m.threads = t;
            }
            else if (k < 97)
            {
                judge(); // what stop() drops is decided when nothing is in flight
                log += hx::cat(" stop#", di);
                const bool got = m.d->stop();
                if (got != (m.threads != 0))
                    hx::fail("stop-result", hx::cat("stop returned ", got, ";", log));
                if (got)
                    m.pending.clear();
                m.threads = 0;
                m.hs.clear();
                hx::count("stops");
            }
            else if (D.size() > 1 || r.chance(30))
            {
                judge();
                log += hx::cat(" destroy#", di);
                D.erase(D.begin() + (long)di);
                judge();
                hx::count("dispatchers_destroyed");
                continue;
            }
            if (r.chance(50))
                judge();
        }
        judge();
    });
    hx::state(sh);
    if (hx::want_sample() && log.size() > 200)
        hx::sample(log);
}

// ------------------------------------------------------------------------------------------------ concurrent histories
struct op
{
    int kind; // 0 add, 1 emit, 2 remove_handler, 3 remove_event
    int key = 0, name = 0;
    int64_t id = 0; // handler id
    bool res = false;
    int inv = 0, ret = 1 << 30;
    std::set<int64_t> got; // ids delivered to
    int eid = 0;
};
struct lin
{
    const std::vector<op>& h;
    std::set<std::pair<uint64_t, std::set<int64_t>>> seen; // (done, registered ids)
    std::map<int64_t, const op*> by_id;
    uint64_t nodes = 0;
    explicit lin(const std::vector<op>& hh) : h(hh)
    {
        for (auto& o : h)
            if (o.kind == 0)
                by_id[o.id] = &o;
    }
    bool go(uint64_t done, std::set<int64_t> reg, int64_t last)
    {
        if (done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1))
            return true;
        if (++nodes > 300000)
            return true; // undecided: counted by the caller
        if (!seen.insert({done, reg}).second)
            return false;
        int minret = 1 << 30;
        for (size_t i = 0; i < h.size(); ++i)
            if (!(done >> i & 1))
                minret = std::min(minret, h[i].ret);
        for (size_t i = 0; i < h.size(); ++i)
        {
            const op& o = h[i];
            if ((done >> i & 1) || o.inv > minret)
                continue;
            std::set<int64_t> n = reg;
            int64_t l = last;
            bool ok = true;
            if (o.kind == 0)
                ok = o.id == last + 1, l = o.id, n.insert(o.id);
            else if (o.kind == 1)
            {
                std::set<int64_t> m;
                for (int64_t id : reg)
                    if (by_id[id]->key == o.key)
                        m.insert(id);
                ok = m == o.got && o.res == !m.empty();
            }
            else if (o.kind == 2)
                ok = (n.erase(o.id) > 0) == o.res;
            else
                ok = (std::erase_if(n, [&](int64_t id) { return by_id[id]->name == o.name; }) > 0) == o.res;
            if (ok && go(done | 1ull << i, std::move(n), l))
                return true;
        }
        return false;
    }
};

void conc_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    const int nth = (int)r.in(2, 4), nops = (int)r.in(2, 6);
    const unsigned nd = (unsigned)r.in(1, 3);
    const bool stop_mid = r.chance(20), nested = r.chance(40);
    std::vector<int> ns{(int)r.below(odd_names)}, ls;
    if (r.chance(60))
        ns.push_back((int)r.below(odd_names));
    // lists with values only: emissions are told apart by them
    for (int i = (int)r.in(1, 3); i > 0; --i)
        ls.push_back((int)r.in(1, (int)lists().size() - 1));
    constexpr int MAXH = 256;
    std::vector<int64_t> ids(MAXH, 0);
    ds::run(cfg, [&] {
        tc::sdk::event_dispatcher d;
        d.start(nd);
        auto do_emit = [&](int name, int lst) {
            const int e = (int)rec::inc(V_EID);
            rec::add(EMIT_INV, e, name, lst);
            const bool res = lists()[lst]->emit(d, names()[name], e, (unsigned)(seed + (uint64_t)e * 5));
            rec::add(EMIT_RET, e, res);
        };
        auto do_add = [&](int name, int lst, hx::rng& rr, bool may_nest) {
            const int h = (int)rec::inc(V_HID);
            behaviour b{h};
            b.throws = rr.chance(10);
            b.busy = rr.chance(30) ? rr.below(500000) : 0;
            if (may_nest && rr.chance(30))
            {
                const int n2 = ns[rr.below(ns.size())], l2 = ls[rr.below(ls.size())];
                if (n2 != name || l2 != lst) // not the event it handles: would go on for ever
                {
                    auto left = std::make_shared<int>(0);
                    b.extra = [&, n2, l2, h] {
                        if (rec::inc(3000 + h) <= 2 && (int)rec::get(V_EID) < 40)
                            do_emit(n2, l2);
                    };
                }
            }
            rec::add(ADD_INV, h, name, lst);
            const unsigned long id = lists()[lst]->add(d, names()[name], b, (int)rr.below(4));
            ids[h] = (int64_t)id;
            rec::add(ADD_RET, h, (int64_t)id);
        };
        auto body = [&](uint64_t s, bool first) {
            hx::rng rr(s);
            for (int i = 0; i < nops; ++i)
            {
                const int name = ns[rr.below(ns.size())], lst = ls[rr.below(ls.size())];
                switch (first && i == 0 ? 0 : rr.below(9))
                {
                case 0:
                case 1:
                case 2: do_add(name, lst, rr, nested); break;
                case 3:
                case 4:
                case 5: do_emit(name, lst); break;
                case 6:
                {
                    const int64_t id = rr.in(1, std::max<int64_t>(1, rec::get(V_HID)));
                    rec::add(RMH_INV, id);
                    const bool res = d.remove_handler((unsigned long)id);
                    rec::add(RMH_RET, id, res);
                    break;
                }
                case 7:
                {
                    rec::add(RME_INV, name);
                    const bool res = d.remove_event(names()[name]);
                    rec::add(RME_RET, name, res);
                    break;
                }
                default: ds::sleep_for(rr.below(300000));
                }
            }
        };
        std::vector<std::thread> th;
        for (int i = 0; i < nth; ++i)
            th.emplace_back([&, i] {
                rec::set(3500 + ds::self_id(), 1);
                body(seed * 31 + i, i == 0);
            });
        rec::set(3500 + ds::self_id(), 1);
        if (stop_mid)
        {
            ds::sleep_for(r.below(600000));
            rec::add(STOP_INV);
            const bool res = d.stop();
            rec::add(STOP_RET, res);
            if (!res)
                hx::fail("stop-result", "stop() of a running dispatcher returned false");
        }
        for (auto& t : th)
            t.join();
        ds::wait_quiescent(true);
    });
    std::vector<op> h;
    std::map<int, op> open;
    std::map<int, std::vector<std::pair<int64_t, int>>> deliv; // eid -> (id, event)
    std::map<int, std::pair<int, int>> ehw;                      // eid -> inv, ret
    std::map<int, std::pair<int, int>> ekey, hkey;
    int stop_inv = 1 << 30, stop_ret = 1 << 30;
    std::string tl;
    static const char* en[] = {"", "deliver", "BADVAL", "add", "add-ret", "emit", "emit-ret", "remove_handler", "remove_handler-ret", "remove_event", "remove_event-ret", "stop", "stop-ret"};
    std::set<int> dthreads;
    for (int i = 0; i < rec::size(); ++i)
    {
        const rec::ev& e = rec::at(i);
        if (tl.size() < 5000)
            tl += hx::cat(" ", i, ":T", e.tid, " ", en[e.kind], "(", e.a, ",", e.b, ",", e.c, ")");
        switch (e.kind)
        {
        case ADD_INV:
            open[e.tid] = op{0, (int)(e.b * 100 + e.c), (int)e.b, 0, false, i};
            hkey[(int)e.a] = {(int)e.b, (int)e.c};
            break;
        case EMIT_INV:
        {
            op o{1, (int)(e.b * 100 + e.c), (int)e.b, 0, false, i};
            o.eid = (int)e.a;
            open[e.tid] = o;
            ekey[(int)e.a] = {(int)e.b, (int)e.c};
            break;
        }
        case RMH_INV: open[e.tid] = op{2, 0, 0, e.a, false, i}; break;
        case RME_INV: open[e.tid] = op{3, 0, (int)e.a, 0, false, i}; break;
        case ADD_RET:
        case EMIT_RET:
        case RMH_RET:
        case RME_RET:
        {
            op o = open[e.tid];
            o.ret = i;
            if (o.kind == 0)
                o.id = e.b;
            else
                o.res = e.b != 0;
            if (o.kind == 1)
                ehw[o.eid] = {o.inv, o.ret};
            h.push_back(o);
            break;
        }
        case STOP_INV: stop_inv = i; break;
        case STOP_RET: stop_ret = i; break;
        case DELIV:
            deliv[(int)e.b].push_back({e.a, i});
            if (rec::get(3500 + e.tid))
                hx::fail("delivered-by-caller", "a handler ran on the thread of a caller:" + tl);
            dthreads.insert(e.tid);
            if (i > stop_ret)
                hx::fail("delivered-after-stop", "a handler ran after stop() had returned:" + tl);
            break;
        case BADVAL: hx::fail("wrong-values", hx::cat("handler h", e.a, " got values that no emission passed;", tl)); break;
        default: break;
        }
    }
    std::set<int64_t> uid;
    for (auto& o : h)
        if (o.kind == 0 && !uid.insert(o.id).second)
            hx::fail("handler-id", hx::cat("id ", o.id, " was given to two handlers:", tl));
    if (dthreads.size() > nd)
        hx::fail("delivery-threads", hx::cat(dthreads.size(), " threads delivered on a dispatcher of ", nd, ":", tl));
    std::map<int, int> pos; // event number of the first delivery
    for (auto& [e, v] : deliv)
    {
        std::set<int64_t> once;
        for (auto& [hh, ev] : v)
        {
            if (hkey[(int)hh] != ekey[e])
                hx::fail("wrong-handler", hx::cat("handler h", hh, " got emission e", e, " of another event:", tl));
            if (!once.insert(hh).second)
                hx::fail("delivered-twice", hx::cat("handler h", hh, " got emission e", e, " twice:", tl));
            if (ev < ehw[e].first)
                hx::fail("delivered-early", tl);
        }
        hx::count("deliveries", v.size());
    }
    if (nd == 1)
    {
        for (auto& [e, v] : deliv)
        {
            for (size_t i = 1; i < v.size(); ++i)
                if (ids[v[i].first] < ids[v[i - 1].first])
                    hx::fail("delivery-order", hx::cat("emission e", e, " was not delivered in registration order:", tl));
            for (auto& [e2, v2] : deliv)
                if (ehw[e].second < ehw[e2].first)
                {
                    hx::count("ordered_emissions");
                    if (v.back().second > v2.front().second)
                        hx::fail("delivery-order", hx::cat("emission e", e2, " was delivered before the earlier e", e, ":", tl));
                }
        }
    }
    if (!stop_mid)
    {
        for (auto& o : h)
            if (o.kind == 1)
                for (auto& [hh, ev] : deliv[o.eid])
                    o.got.insert(ids[hh]);
        if (h.size() <= 60)
        {
            lin L(h);
            if (!L.go(0, {}, 0))
                hx::fail("not-linearizable", "no order of these calls explains ids, results and deliveries:" + tl);
            if (L.nodes > 300000)
                hx::count("undecided");
            else
                hx::count("histories");
            hx::count("calls", h.size());
        }
    }
    else
    {
        hx::count("stopped_runs");
        for (auto& o : h)
            if (o.kind == 1 && !deliv[o.eid].empty() && !o.res)
                hx::fail("emit-result", "emit returned false but was delivered:" + tl);
    }
    uint64_t sh = 0;
    for (auto& o : h)
        sh = hx::hash64(sh, (uint64_t)o.kind * 1000 + (uint64_t)o.inv * 7 + (uint64_t)o.ret);
    hx::state(sh);
    if (hx::want_sample())
        hx::sample(tl);
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
        {"seq", seq_iter},
        {"conc", conc_iter},
    });
}
