// blocking_queue: C01 (linearizable bounded FIFO), C02 (no stranded caller), C03 (exceptions from item copies).
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/blocking_queue.hpp>

#include <algorithm>
#include <limits>
#include <memory>
#include <numeric>
#include <map>
#include <set>
#include <thread>
#include <unordered_set>
#include <utility>

namespace
{
enum op_t { PUSH_L, PUSH_R, TPUSH_L, TPUSH_R, POP, TPOP, SIZE, CAP, NOPS };
const char* op_name[] = {"push(const&)", "push(&&)", "try_push(const&)", "try_push(&&)", "pop", "try_pop", "size", "capacity"};
enum ek { INV = 1, RES = 2, MON = 3 };
// RES: a=op b=value pushed or popped, c=result (1 ok, 0 refused/empty, -1 threw, or the size), d=op number
constexpr int V_FAULT = 100;   // + tid: countdown of copies until one throws
constexpr int V_COPIES = 600;  // number of copies made
constexpr int V_THROWN = 601;
constexpr int V_BLK = 1000;    // + tid: 0 idle, 1 inside push, 2 inside pop
constexpr int V_NEXT = 602;    // op numbers

struct fault
{
};

// Copyable item with a recognisable payload; copying may throw, moving does not.
struct item
{
    int64_t v = -1;
    std::string text;
    explicit item(int64_t x) : v(x), text("item-" + std::to_string(x) + "-with-a-heap-allocated-payload") {}
    static void maybe_throw()
    {
        rec::inc(V_COPIES);
        const int t = V_FAULT + ds::self_id();
        if (rec::get(t) > 0 && rec::inc(t, -1) == 0)
        {
            rec::inc(V_THROWN);
            throw fault{};
        }
    }
    item(const item& o) : v((maybe_throw(), o.v)), text(o.text) {}
    item(item&& o) noexcept : v(o.v), text(std::move(o.text)) { o.v = -2; }
    item& operator=(const item& o)
    {
        maybe_throw();
        v = o.v;
        text = o.text;
        return *this;
    }
    item& operator=(item&& o) noexcept
    {
        v = o.v;
        text = std::move(o.text);
        o.v = -2;
        return *this;
    }
    bool ok() const { return text == "item-" + std::to_string(v) + "-with-a-heap-allocated-payload"; }
};

template <typename T> T make(int64_t v);
template <> int64_t make<int64_t>(int64_t v) { return v; }
template <> item make<item>(int64_t v) { return item(v); }
template <> std::string make<std::string>(int64_t v) { return "value " + std::to_string(v) + " in a string that needs the heap"; }
template <> std::shared_ptr<int64_t> make<std::shared_ptr<int64_t>>(int64_t v) { return std::make_shared<int64_t>(v); }
int64_t value(int64_t v) { return v; }
int64_t value(const item& i) { return i.ok() ? i.v : -3; }
int64_t value(const std::string& s) { return s.rfind("value ", 0) == 0 && s.find(" in a string that needs the heap") != std::string::npos ? std::stoll(s.substr(6)) : -3; }
int64_t value(const std::shared_ptr<int64_t>& p) { return p ? *p : -3; }

struct plan
{
    size_t requested, cap;
    bool faults;
    std::vector<std::vector<std::pair<op_t, int>>> threads; // op, fault countdown (0: none)
};

plan make_plan(hx::rng& r, int max_threads, int max_ops, int total, bool faults)
{
    plan p;
    p.requested = r.pick({size_t{0}, size_t{1}, size_t{1}, size_t{2}, size_t{2}, size_t{3}, size_t{4}});
    if (r.chance(5))
        p.requested = std::numeric_limits<size_t>::max();
    p.cap = std::max<size_t>(1, p.requested);
    p.faults = faults;
    const int nt = (int)r.in(2, max_threads);
    // op mix of this run: weights
    int w[NOPS];
    for (int& x : w)
        x = r.chance(60) ? (int)r.in(1, 6) : 0;
    if (r.chance(50)) // a blocking producers/consumers run
    {
        w[TPUSH_L] = w[TPUSH_R] = w[TPOP] = 0;
        w[PUSH_L] = w[PUSH_R] = 2;
        w[POP] = 4;
    }
    w[SIZE] = std::min(w[SIZE], 2);
    w[CAP] = std::min(w[CAP], 1);
    int sum = std::accumulate(w, w + NOPS, 0);
    if (!sum)
        w[PUSH_L] = sum = 1;
    int left = total;
    for (int t = 0; t < nt; ++t)
    {
        std::vector<std::pair<op_t, int>> v;
        const bool role = r.chance(30); // single-role thread
        const int role_kind = (int)r.below(2);
        const int n = (int)r.in(1, max_ops);
        for (int i = 0; i < n && left > 0; ++i, --left)
        {
            int x = (int)r.below(sum), k = 0;
            while (x >= w[k])
                x -= w[k++];
            if (role && k < SIZE)
                k = role_kind ? (k % 2 ? PUSH_R : PUSH_L) : POP;
            v.push_back({(op_t)k, faults && r.chance(35) ? (int)r.in(1, 3) : 0});
        }
        p.threads.push_back(v);
    }
    return p;
}

template <typename T>
struct driver
{
    tc::sdk::blocking_queue<T>& q;
    const plan& p;

    void one(op_t op, int64_t v, int fault_in)
    {
        const int tid = ds::self_id();
        const int64_t num = rec::inc(V_NEXT);
        std::unique_ptr<T> src;
        if (op <= TPUSH_R)
            src = std::make_unique<T>(make<T>(v));
        rec::set(V_FAULT + tid, fault_in);
        rec::set(V_BLK + tid, op <= PUSH_R ? 1 : op == POP ? 2 : 0);
        rec::add(INV, op, v, 0, num);
        int64_t res = 1;
        try
        {
            switch (op)
            {
            case PUSH_L: q.push(static_cast<const T&>(*src)); break;
            case PUSH_R: q.push(std::move(*src)); break;
            case TPUSH_L: res = q.try_push(static_cast<const T&>(*src)); break;
            case TPUSH_R: res = q.try_push(std::move(*src)); break;
            case POP:
            {
                T x = q.pop();
                rec::set(V_FAULT + tid, 0);
                v = value(x);
                break;
            }
            case TPOP:
            {
                std::optional<T> x = q.try_pop();
                rec::set(V_FAULT + tid, 0);
                res = x.has_value();
                v = x ? value(*x) : 0;
                break;
            }
            case SIZE: res = (int64_t)q.size(); break;
            case CAP: res = q.capacity() == p.cap; break;
            default: break;
            }
        }
        catch (const fault&)
        {
            res = -1;
        }
        rec::add(RES, op, v, res, num);
        rec::set(V_BLK + tid, 0);
        rec::set(V_FAULT + tid, 0);
    }
};

struct hop
{
    op_t op;
    int64_t v;
    int64_t res;
    int inv, ret; // event numbers
    int tid;
};

std::vector<hop> history()
{
    std::vector<hop> h;
    std::vector<int> idx(rec::get(V_NEXT) + 1, -1);
    for (int i = 0; i < rec::size(); ++i)
    {
        const rec::ev& e = rec::at(i);
        if (e.kind == INV)
        {
            idx[e.d] = (int)h.size();
            h.push_back({(op_t)e.a, e.b, -99, i, 1 << 30, e.tid});
        }
        else if (e.kind == RES)
        {
            hop& o = h[idx[e.d]];
            o.v = e.b;
            o.res = e.c;
            o.ret = i;
        }
    }
    return h;
}

std::string show(const std::vector<hop>& h, const plan& p)
{
    std::ostringstream s;
    s << "capacity " << p.requested << ": ";
    for (auto& o : h)
    {
        s << "[" << o.inv << "," << (o.ret == 1 << 30 ? std::string("?") : std::to_string(o.ret)) << "] T" << o.tid << " " << op_name[o.op];
        if (o.op <= TPUSH_R)
            s << " item " << o.v;
        if (o.res == -1 && o.op != SIZE)
            s << " THREW";
        else if (o.op == SIZE)
            s << " -> " << o.res;
        else if (o.op == TPUSH_L || o.op == TPUSH_R)
            s << (o.res ? " -> true" : " -> false");
        else if (o.op == POP || o.op == TPOP)
            s << " -> " << (o.res == 0 ? std::string("nothing") : std::to_string(o.v));
        s << "; ";
    }
    return s.str();
}

// Wing & Gong search with memoisation. Every operation in h is complete.
struct linear
{
    const std::vector<hop>& h;
    size_t cap;
    std::set<std::pair<uint64_t, std::vector<int64_t>>> seen;
    uint64_t nodes = 0;
    bool gave_up = false;

    bool go(uint64_t done, std::vector<int64_t>& q)
    {
        if (done == (1ull << h.size()) - 1)
            return true;
        if (++nodes > 300000)
        {
            gave_up = true;
            return true;
        }
        if (!seen.insert({done, q}).second)
            return false;
        int minret = 1 << 30;
        for (size_t i = 0; i < h.size(); ++i)
            if (!(done >> i & 1))
                minret = std::min(minret, h[i].ret);
        for (size_t i = 0; i < h.size(); ++i)
        {
            if ((done >> i & 1) || h[i].inv > minret)
                continue;
            const hop& o = h[i];
            std::vector<int64_t> q2 = q;
            bool ok = false;
            if (o.res == -1 && o.op != SIZE)
                ok = true; // threw: no effect
            else
                switch (o.op)
                {
                case PUSH_L:
                case PUSH_R:
                    ok = q.size() < cap;
                    q2.push_back(o.v);
                    break;
                case TPUSH_L:
                case TPUSH_R:
                    ok = o.res ? q.size() < cap : q.size() == cap;
                    if (o.res)
                        q2.push_back(o.v);
                    break;
                case POP:
                    ok = !q.empty() && q.front() == o.v;
                    if (ok)
                        q2.erase(q2.begin());
                    break;
                case TPOP:
                    if (o.res)
                    {
                        ok = !q.empty() && q.front() == o.v;
                        if (ok)
                            q2.erase(q2.begin());
                    }
                    else
                        ok = q.empty();
                    break;
                case SIZE: ok = (size_t)o.res == q.size(); break;
                case CAP: ok = o.res == 1; break;
                default: break;
                }
            if (ok && go(done | (1ull << i), q2))
                return true;
        }
        return false;
    }
};

template <typename T>
void run_plan(const plan& p, uint64_t seed, bool judge_blocked)
{
    auto q = std::make_unique<tc::sdk::blocking_queue<T>>(p.requested);
    driver<T> d{*q, p};
    ds::config cfg = ds::random_config(seed);
    ds::run(cfg, [&] {
        std::vector<std::thread> th;
        for (size_t t = 0; t < p.threads.size(); ++t)
            th.emplace_back([&, t] {
                int i = 0;
                for (auto& [op, f] : p.threads[t])
                    d.one(op, (int64_t)(t + 1) * 1000 + i++, f);
            });
        int64_t extra = 900000;
        for (int round = 0;; ++round)
        {
            ds::wait_quiescent(true);
            if (ds::alive_count() == 0)
                break;
            int in_push = 0, in_pop = 0;
            for (int t = 1; t <= (int)p.threads.size(); ++t)
            {
                in_push += rec::get(V_BLK + t) == 1;
                in_pop += rec::get(V_BLK + t) == 2;
            }
            const size_t size = q->size();
            if (in_push)
                hx::count("quiescent_with_blocked_push");
            if (in_pop)
                hx::count("quiescent_with_blocked_pop");
            if (judge_blocked)
            {
                const std::string st = hx::cat("size ", size, " capacity ", p.cap, ", callers blocked in push: ", in_push, ", in pop: ", in_pop, "; so far: ", show(history(), p));
                if (in_push && size < p.cap)
                    hx::fail("stranded-push", "every caller is blocked although a blocked push() has room: " + st);
                if (in_pop && size > 0)
                    hx::fail("stranded-pop", "every caller is blocked although a blocked pop() has an item to take: " + st);
                if (!in_push && !in_pop)
                    hx::fail("stuck-nonblocking", "a call that must not block is blocked: " + st);
            }
            if (round > 400)
                hx::abandon("cannot release blocked callers");
            if (in_pop)
                d.one(round % 2 ? TPUSH_L : TPUSH_R, extra++, 0);
            else
                d.one(TPOP, 0, 0);
        }
        for (auto& t : th)
            t.join();
        // drain, so that the remaining content is part of the history
        for (int i = 0; i < 2000; ++i)
        {
            const int before = rec::size();
            d.one(TPOP, 0, 0);
            if (rec::at(before + 1).c == 0)
                break;
        }
    });
}

template <typename T>
void lin_iter(uint64_t seed, bool faults)
{
    hx::rng r(seed);
    plan p = make_plan(r, 4, 5, 13, faults);
    run_plan<T>(p, seed, false);
    std::vector<hop> h = history();
    if (h.size() > 60)
        hx::abandon("history too long");
    linear l{h, p.cap, {}};
    std::vector<int64_t> q;
    const bool ok = l.go(0, q);
    if (l.gave_up)
        hx::count("checker_gave_up");
    if (!ok)
        hx::fail(faults ? "not-exception-safe" : "not-linearizable", "no order of the calls explains the results of a bounded FIFO: " + show(h, p));
    hx::count("operations", h.size());
    hx::count("checker_nodes", l.nodes);
    if (faults)
        hx::count("injected_throws", (uint64_t)rec::get(V_THROWN));
    int overlaps = 0;
    for (size_t i = 0; i < h.size(); ++i)
        for (size_t j = i + 1; j < h.size(); ++j)
            if (h[j].inv < h[i].ret && h[i].inv < h[j].ret)
                ++overlaps;
    hx::count("overlapping_pairs", overlaps);
    if (faults ? rec::get(V_THROWN) > 0 : overlaps > 0)
    {
        uint64_t hh = p.cap;
        for (auto& o : h)
            hh = hx::hash64(hh, (uint64_t)o.op * 1000003 + o.v * 31 + o.res * 7 + o.inv * 100 + (uint64_t)o.ret * 10007);
        hx::state(hh);
        if (hx::want_sample())
            hx::sample(show(h, p));
    }
}

// Long runs: conservation, FIFO between non-overlapping operations, bounds.
template <typename T>
void bulk_iter(uint64_t seed)
{
    hx::rng r(seed);
    plan p = make_plan(r, 7, 40, 220, false);
    if (r.chance(30))
        p.cap = p.requested = (size_t)r.in(1, 12);
    run_plan<T>(p, seed, false);
    std::vector<hop> h = history();
    std::map<int64_t, const hop*> in, out;
    for (auto& o : h)
    {
        if (o.op <= PUSH_R || ((o.op == TPUSH_L || o.op == TPUSH_R) && o.res))
            in[o.v] = &o;
        if (o.op == CAP && o.res != 1)
            hx::fail("capacity-wrong", show({o}, p));
        if (o.op == POP || (o.op == TPOP && o.res))
        {
            if (out.count(o.v))
                hx::fail("item-duplicated", hx::cat("item ", o.v, " popped twice: ", show({*out[o.v], o}, p)));
            out[o.v] = &o;
        }
    }
    for (auto& [v, o] : out)
        if (!in.count(v) || in[v]->inv > o->ret)
            hx::fail("item-invented", hx::cat("popped item ", v, " was not pushed (or altered): ", show({*o}, p)));
    for (auto& [v, o] : in)
        if (!out.count(v))
            hx::fail("item-lost", hx::cat("pushed item ", v, " never came out although the queue was drained: ", show({*o}, p)));
    uint64_t pairs = 0;
    for (auto& [v, a] : in)
        for (auto& [w, b] : in)
            if (a->ret < b->inv) // a strictly before b
            {
                ++pairs;
                if (out[w]->ret < out[v]->inv)
                    hx::fail("fifo-broken", hx::cat("item ", v, " was pushed before item ", w, " but popped after it: ", show({*a, *b, *out[v], *out[w]}, p)));
            }
    // bounds on the number of items: lo(t) <= items <= hi(t)
    std::vector<int> lo(rec::size() + 1, 0), hi(rec::size() + 1, 0);
    std::vector<int> dlo(rec::size() + 2, 0), dhi(rec::size() + 2, 0);
    for (auto& [v, o] : in)
        ++dhi[o->inv], ++dlo[o->ret];
    for (auto& [v, o] : out)
        --dhi[o->ret], --dlo[o->inv];
    int a = 0, b = 0;
    for (int i = 0; i < rec::size(); ++i)
    {
        a += dlo[i];
        b += dhi[i];
        lo[i] = a;
        hi[i] = b;
        if (a > (int)std::min<size_t>(p.cap, 1 << 20))
            hx::fail("over-capacity", hx::cat("at event ", i, " at least ", a, " items are in a queue of capacity ", p.cap));
    }
    for (auto& o : h)
    {
        int mx = 0, mn = 1 << 30;
        if (o.op == SIZE || o.op == TPUSH_L || o.op == TPUSH_R || o.op == TPOP)
            for (int i = o.inv; i < o.ret; ++i)
                mx = std::max(mx, hi[i]), mn = std::min(mn, lo[i]);
        if (o.op == SIZE && ((int)o.res > mx || (int)o.res < mn || (size_t)o.res > p.cap))
            hx::fail("size-wrong", hx::cat("size() returned ", o.res, " while the queue held between ", mn, " and ", mx, " items (capacity ", p.cap, ")"));
        if ((o.op == TPUSH_L || o.op == TPUSH_R) && !o.res && mx < (int)std::min<size_t>(p.cap, 1 << 20))
            hx::fail("try-push-refused", hx::cat("try_push refused although at most ", mx, " of ", p.cap, " places were taken"));
        if (o.op == TPOP && !o.res && mn > 0)
            hx::fail("try-pop-empty", hx::cat("try_pop returned nothing although at least ", mn, " items were in the queue"));
    }
    hx::count("operations", h.size());
    hx::count("ordered_pairs_checked", pairs);
    hx::count("context_switches", ds::switches());
    hx::state(ds::trace_hash());
}

template <typename T>
void blk_iter(uint64_t seed)
{
    hx::rng r(seed);
    plan p = make_plan(r, 6, 8, 30, r.chance(15) && std::is_same_v<T, item>);
    // blocking operations only, plus a few try operations
    for (auto& t : p.threads)
        for (auto& o : t)
            if (o.first >= SIZE || (r.chance(70) && (o.first == TPUSH_L || o.first == TPUSH_R || o.first == TPOP)))
                o.first = r.pick({PUSH_L, PUSH_R, POP, POP});
    run_plan<T>(p, seed, true);
    hx::count("operations", (uint64_t)rec::get(V_NEXT));
    hx::count("context_switches", ds::switches());
    hx::state(ds::trace_hash());
    if (hx::want_sample())
        hx::sample(show(history(), p));
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
        {"lin", [](uint64_t s) { hx::stuck_is_violation(false); if (s % 3 == 0) lin_iter<item>(s, false); else if (s % 3 == 1) lin_iter<int64_t>(s, false); else lin_iter<std::string>(s, false); }},
        {"bulk", [](uint64_t s) { hx::stuck_is_violation(false); if (s % 2) bulk_iter<std::shared_ptr<int64_t>>(s); else bulk_iter<int64_t>(s); }},
        {"block", [](uint64_t s) { if (s % 2) blk_iter<int64_t>(s); else blk_iter<item>(s); }},
        {"fault", [](uint64_t s) { lin_iter<item>(s, true); }},
    });
}
