// high_precision_timer: C14 (grid, accounting), C15 (start/stop/restart/set_callback).
#include "dsched.hpp"
#include "hx.hpp"

#include <atomic>
#include <teiacare/sdk/high_precision_timer.hpp>

#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <vector>

namespace
{
enum ek { BEG = 1, END, SET_INV, SET_RET, START, STARTED, STOP, STOPPED };
constexpr int V_RUNNING = 1, V_OBJ = 2, V_DONE = 3, V_LIVE = 4;
using ns = std::chrono::nanoseconds;

const char* en[] = {"", "begin", "end", "set_callback", "set_callback-ret", "start", "start-ret", "stop", "stop-ret"};
std::string timeline()
{
    std::string s;
    for (int i = std::max(0, rec::size() - 120); i < rec::size(); ++i)
    {
        const rec::ev& e = rec::at(i);
        s += hx::cat(" ", i, ":T", e.tid, "@", e.time, " ", en[e.kind], "(", e.a, ",", e.b, ",", e.c, ")");
    }
    return s;
}

// ------------------------------------------------------------------------------------------------ grid
struct plan
{
    uint64_t interval;
    std::vector<uint64_t> dur; // per callback; 0 after the end
    bool by_sleep;
};

plan make_plan(hx::rng& r)
{
    plan p;
    switch (r.below(5))
    {
    case 0: p.interval = (uint64_t)r.in(1, 10); break;
    case 1: p.interval = (uint64_t)r.in(1, 2000) * 1000; break;
    case 2: p.interval = 1000000; break;
    case 3: p.interval = (uint64_t)r.in(1000, 1000000000); break;
    default: p.interval = (uint64_t)r.in(1, 3600) * 1000000000ull;
    }
    const int n = (int)r.in(1, 14);
    const int style = (int)r.below(5);
    for (int i = 0; i < n; ++i)
    {
        uint64_t d = 0;
        switch (style == 4 ? r.below(4) : (uint64_t)style)
        {
        case 0: d = 0; break;                                                        // instantaneous
        case 1: d = r.below(p.interval); break;                                      // keeps up
        case 2: d = p.interval * r.below(6); break;                                  // exact multiples: ends right on the grid
        default: d = p.interval * (r.chance(10) ? r.below(200'000'000'000'000ull / p.interval + 1) : r.below(40)) + r.below(p.interval) + r.below(3); break; // overruns, up to days long
        }
        p.dur.push_back(d);
    }
    p.by_sleep = r.chance(50);
    return p;
}

void grid_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.clock_tick = 0; // time stands still unless somebody waits: due times are known exactly
    cfg.max_steps = 2000000;
    uint64_t h = 0;
    ds::run(cfg, [&] {
        tc::sdk::high_precision_timer t;
        const int rounds = (int)r.in(1, 4);
        bool restart = false;
        struct shared_t
        {
            plan p;
            uint64_t origin;
            uint64_t n, next_k, last_end;
        } sh{};
        std::atomic<int> published{0};
        t.set_callback([&t, &published](shared_t* s) {
            const uint64_t b = ds::now();
            (void)published.load(std::memory_order_acquire);
            if (rec::inc(V_RUNNING) != 1)
                hx::fail("callbacks-overlap", "two callbacks were running at the same time;" + timeline());
            rec::add(BEG, (int64_t)s->n);
            const uint64_t inv = t.invoked_callback_count(), mis = t.missed_callback_count();
            if (inv != s->n)
                hx::fail("invoked-count", hx::cat("invoked_callback_count() is ", inv, " when callback number ", s->n + 1, " begins;", timeline()));
            const uint64_t due = s->origin + s->next_k * s->p.interval;
            if (b != due)
                hx::fail("off-grid", hx::cat("callback number ", s->n + 1, " began at ", b, ", ", (int64_t)(b - due), " ns after tick ", s->next_k, " of the grid (start ", s->origin, ", interval ", s->p.interval, ");", timeline()));
            if (inv + mis + 1 != s->next_k)
                hx::fail("missed-count", hx::cat("callback for tick ", s->next_k, " began with invoked ", inv, " and missed ", mis, ";", timeline()));
            const uint64_t d = s->n < s->p.dur.size() ? s->p.dur[s->n] : 0;
            if (d)
            {
                if (s->p.by_sleep)
                    ds::sleep_for(d);
                else
                    ds::advance(d);
            }
            const uint64_t e = ds::now();
            // the next tick is the first one not yet passed
            uint64_t k = s->next_k + 1;
            const uint64_t passed = (e - s->origin + s->p.interval - 1) / s->p.interval; // first k with origin + k*I >= e
            if (passed > k)
                k = passed;
            hx::count("ticks_missed", k - s->next_k - 1);
            if (e == s->origin + k * s->p.interval)
                hx::count("ended_exactly_on_a_tick");
            if (d == 0)
                hx::count("instantaneous_callbacks");
            s->next_k = k;
            s->n++;
            s->last_end = e;
            rec::add(END, (int64_t)s->n);
            rec::inc(V_RUNNING, -1);
        }, &sh);
        for (int q = 0; q < rounds; ++q)
        {
            const plan p = make_plan(r);
            const uint64_t before = ds::now();
            const bool running = restart;
            if (!running)
                sh = shared_t{p, before, 0, 1, 0};
            rec::add(START, (int64_t)p.interval);
            if (!t.start(ns((int64_t)p.interval)))
                hx::fail("start-result", "start() with a callback returned false");
            // a running timer was stopped by start(): a callback in progress has ended, the next one comes when time has passed
            const uint64_t origin = running ? std::max(before, sh.last_end) : before;
            if (ds::now() != origin)
                hx::fail("start-waits", hx::cat("start() called at ", before, " returned at ", ds::now(), ", the last callback had ended at ", sh.last_end, ";", timeline()));
            if (running)
            {
                hx::count("restarts");
                if (origin > before)
                    hx::count("restarts_during_a_callback");
                sh = shared_t{p, origin, 0, 1, 0};
                published.store(q, std::memory_order_release);
                if (t.invoked_callback_count() || t.missed_callback_count())
                    hx::fail("counters-not-reset", hx::cat("invoked ", t.invoked_callback_count(), " missed ", t.missed_callback_count(), " right after start() had returned;", timeline()));
            }
            h = hx::hash64(h, p.interval);
            for (auto d : p.dur)
                h = hx::hash64(h, d);
            // let it run through the plan, stop at a random moment
            uint64_t total = p.interval;
            for (auto d : p.dur)
                total += (d / p.interval + 1) * p.interval;
            uint64_t stop_after = r.chance(50) ? total : 1 + r.below(total);
            if (r.chance(30))
                stop_after = stop_after / p.interval * p.interval; // right on a tick
            // never more ticks than the plan has: intervals of 1 ns would go on for ever
            ds::sleep_for(stop_after);
            restart = q + 1 < rounds && r.chance(40);
            if (restart)
                continue;
            rec::add(STOP);
            t.stop();
            rec::add(STOPPED);
            const uint64_t inv = t.invoked_callback_count(), mis = t.missed_callback_count();
            if (inv != sh.n)
                hx::fail("invoked-count", hx::cat("invoked_callback_count() is ", inv, " after stop(), ", sh.n, " callbacks were run;", timeline()));
            if (inv + mis + 1 != sh.next_k)
                hx::fail("missed-count", hx::cat("after stop() invoked ", inv, " and missed ", mis, ", but the next tick would have been number ", sh.next_k, " (start ", sh.origin, ", interval ", p.interval, ", last callback ended at ", sh.last_end, ");", timeline()));
            // every tick before the stop was run or is covered by a callback in progress
            const uint64_t now = ds::now();
            if (sh.origin + sh.next_k * p.interval < now)
                hx::fail("tick-lost", hx::cat("tick ", sh.next_k, " had passed when stop() returned at ", now, ", no callback was running and it was neither run nor counted;", timeline()));
            hx::count("callbacks", sh.n);
        }
    });
    hx::state(h);
    if (hx::want_sample() && rec::size() > 10)
        hx::sample(timeline());
}

// jitter: clock that moves with every read, late wake-ups, clock jumps: never early, distinct ticks, consistent counters
void jitter_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.clock_tick = (uint64_t)r.pick({0, 1, 7, 100, 5000});
    cfg.spurious_permille = r.pick({0, 20, 200});
    cfg.timejump_permille = r.pick({0, 5, 50});
    cfg.oversleep_max = (uint64_t)r.pick({0, 100, 100000, 30000000});
    cfg.point_tick_max = (uint64_t)r.pick({0, 0, 10, 1000});
    // now and then shorter than a look at the clock takes: stop() still has to come through
    const uint64_t I = r.chance(25) ? 1 + r.below(300) : (uint64_t)r.pick({1000, 9999, 1000000, 5000000}) + r.below(1000);
    if (I < 1000 + 100 * (cfg.clock_tick + cfg.point_tick_max))
        cfg.policy = r.chance(50) ? ds::POL_RANDOM : ds::POL_STICKY; // the timer may never sleep: only a fair scheduler lets anyone else run
    const int cbs = (int)r.in(2, 10);
    ds::run(cfg, [&] {
        tc::sdk::high_precision_timer t;
        uint64_t n = 0, last_k = 0, origin = 0;
        std::vector<uint64_t> dur;
        for (int i = 0; i < cbs; ++i)
            dur.push_back(r.chance(30) ? r.below(I * 5) : 0);
        t.set_callback([&] {
            const uint64_t b = ds::now();
            if (rec::inc(V_RUNNING) != 1)
                hx::fail("callbacks-overlap", "two callbacks were running at the same time");
            rec::add(BEG, (int64_t)n);
            const uint64_t inv = t.invoked_callback_count(), mis = t.missed_callback_count(), k = inv + mis + 1;
            if (inv != n)
                hx::fail("invoked-count", hx::cat("invoked_callback_count() is ", inv, " when callback number ", n + 1, " begins;", timeline()));
            if (k <= last_k)
                hx::fail("tick-repeated", hx::cat("callback number ", n + 1, " runs for tick ", k, " after tick ", last_k, ";", timeline()));
            if (b < origin || (b - origin) / I < k)
                hx::fail("early", hx::cat("callback number ", n + 1, " for tick ", k, " (missed ", mis, ") began at ", b, ", ", (int64_t)(origin + k * I - b), " ns before start + ", k, "*I;", timeline()));
            last_k = k;
            if (n < dur.size() && dur[n])
                ds::advance(dur[n]);
            ++n;
            rec::add(END, (int64_t)n);
            rec::inc(V_RUNNING, -1);
        });
        origin = ds::now();
        if (!t.start(ns((int64_t)I)))
            hx::fail("start-result", "start() with a callback returned false");
        ds::sleep_for(I < 1000 ? r.below(100) * (I + cfg.clock_tick) : I * (uint64_t)cbs);
        if (I <= cfg.clock_tick)
            hx::count("intervals_too_short_for_the_clock");
        uint64_t i0 = t.invoked_callback_count(), m0 = t.missed_callback_count();
        (void)m0;
        t.stop();
        if (t.invoked_callback_count() != n || i0 > n)
            hx::fail("invoked-count", hx::cat("invoked_callback_count() is ", t.invoked_callback_count(), " after stop(), ", n, " callbacks were run"));
        if (t.invoked_callback_count() + t.missed_callback_count() < last_k || t.missed_callback_count() > (ds::now() - origin) / I + 1)
            hx::fail("missed-count", hx::cat("after stop() invoked ", n, " missed ", t.missed_callback_count(), " last tick run ", last_k));
        hx::count("callbacks", n);
    });
    hx::state(ds::trace_hash());
}

// ------------------------------------------------------------------------------------------------ control
struct callback_object
{
    int id;
    std::string text;
    std::shared_ptr<int> heap;
    uint64_t dur;
    explicit callback_object(int i, uint64_t d) : id(i), text("callback object number " + std::to_string(i) + " lives on the heap"), heap(std::make_shared<int>(i)), dur(d) { rec::inc(V_LIVE); }
    callback_object(const callback_object& o) : id(o.id), text(o.text), heap(o.heap), dur(o.dur) { rec::inc(V_LIVE); }
    callback_object(callback_object&& o) noexcept : id(o.id), text(std::move(o.text)), heap(std::move(o.heap)), dur(o.dur) { rec::inc(V_LIVE); }
    callback_object& operator=(const callback_object&) = delete;
    ~callback_object()
    {
        heap.reset();
        text = "destroyed";
        rec::inc(V_LIVE, -1);
    }
    void check(const std::string& arg, const char* when) const
    {
        if (text != "callback object number " + std::to_string(id) + " lives on the heap" || !heap || *heap != id || arg != "argument of " + std::to_string(id) + " also lives on the heap")
            hx::fail("callback-object-broken", hx::cat("callback ", id, " found its state destroyed or altered ", when, ";", timeline()));
    }
    // by value: every execution gets a copy of the arguments of its own
    void operator()(std::string arg, const std::function<void()>& inner) const
    {
        rec::add(BEG, id);
        if (rec::inc(V_RUNNING) != 1)
            hx::fail("callbacks-overlap", "two callbacks were running at the same time;" + timeline());
        check(arg, "at its beginning");
        if (dur)
            ds::sleep_for(dur);
        else
            ds::point();
        if (inner)
            inner();
        check(arg, "while it was running");
        arg = "changed by an execution";
        rec::inc(V_RUNNING, -1);
        rec::inc(V_DONE);
        rec::add(END, id);
    }
};

void ctl_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.clock_tick = 0;
    const int nset = (int)r.in(0, 2), nops = (int)r.in(2, 9), per = (int)r.in(1, 4);
    const bool reads = r.chance(40);
    ds::run(cfg, [&] {
        auto t = std::make_unique<tc::sdk::high_precision_timer>();
        tc::sdk::high_precision_timer* tp = t.get();
        auto set = [tp](hx::rng& rr, bool nest) {
            const int id = (int)rec::inc(V_OBJ);
            std::function<void()> inner;
            if (nest && rr.chance(20))
                inner = [tp] {
                    // a callback that replaces itself
                    const int id2 = (int)rec::inc(V_OBJ);
                    std::string a2 = "argument of " + std::to_string(id2) + " also lives on the heap";
                    rec::add(SET_INV, id2);
                    tp->set_callback(callback_object(id2, 0), a2, std::function<void()>());
                    rec::add(SET_RET, id2);
                    hx::count("replaced_by_itself");
                };
            const uint64_t d = rr.chance(50) ? rr.below(3000000) : 0;
            callback_object o(id, d);
            std::string arg = "argument of " + std::to_string(id) + " also lives on the heap";
            rec::add(SET_INV, id);
            switch (rr.below(3))
            {
            case 0: tp->set_callback(std::move(o), arg, inner); break;
            case 1: tp->set_callback(o, arg, inner); break; // and o is gone when this function returns
            default: tp->set_callback(std::as_const(o), std::move(arg), std::as_const(inner));
            }
            rec::add(SET_RET, id);
            arg = "changed by the caller afterwards, while the timer is running";
        };
        std::vector<std::thread> th;
        bool has = r.chance(80);
        if (!has)
        {
            // no callback: nothing may start
            if (t->start(ns(r.in(1, 1000000))))
                hx::fail("start-result", "start() without a callback returned true");
            if (ds::alive_count() != 0)
                hx::fail("start-without-callback", "start() without a callback left a thread running");
            t->stop();
            hx::count("starts_without_callback");
        }
        set(r, true);
        for (int i = 0; i < nset; ++i)
            th.emplace_back([&, i] {
                hx::rng rr(seed * 5 + i);
                for (int k = 0; k < per; ++k)
                {
                    ds::sleep_for(rr.below(4000000));
                    set(rr, true);
                    hx::count("set_while_other_thread_controls");
                }
            });
        if (reads)
            th.emplace_back([&] {
                for (int k = 0; k < 10; ++k)
                {
                    const uint64_t inv = tp->invoked_callback_count(), mis = tp->missed_callback_count();
                    if (inv > 1000000 || mis > 1000000000)
                        hx::fail("counter-corrupted", hx::cat("invoked ", inv, " missed ", mis, ";", timeline()));
                    ds::sleep_for(500000);
                }
            });
        bool running = false;
        for (int k = 0; k < nops; ++k)
        {
            const int64_t before = rec::get(V_DONE);
            (void)before;
            const uint64_t t0 = ds::now();
            switch (r.below(5))
            {
            case 0:
            case 1:
            {
                // any positive interval, often much longer than the run
                const int64_t I = r.chance(30) ? 3600000000000ll : r.in(100000, 4000000);
                rec::add(START, I);
                const bool ok = t->start(ns(I));
                rec::add(STARTED, I, ok);
                if (!ok)
                    hx::fail("start-result", "start() with a callback returned false;" + timeline());
                if (t->invoked_callback_count() || t->missed_callback_count())
                    hx::fail("counters-not-reset", hx::cat("right after start(): invoked ", t->invoked_callback_count(), " missed ", t->missed_callback_count(), ";", timeline()));
                if (running)
                    hx::count("restarts");
                running = true;
                break;
            }
            case 2:
            {
                rec::add(STOP);
                t->stop();
                rec::add(STOPPED);
                running = false;
                break;
            }
            case 3: set(r, true); break;
            default:
                if (!running && r.chance(30))
                {
                    // an interval that is not positive: refused, and nothing starts
                    if (t->start(ns(r.pick<int64_t>({0, 0, -1, -1000000, std::numeric_limits<int64_t>::min()}))))
                        hx::fail("start-result", "start() with an interval that is not positive returned true;" + timeline());
                    hx::count("intervals_not_positive");
                }
                ds::sleep_for(r.below(6000000));
            }
            (void)t0;
        }
        if (r.chance(40))
            ds::sleep_for(r.below(5000000));
        for (auto& x : th)
            x.join();
        if (r.chance(50))
        {
            rec::add(STOP, 1);
            t.reset();
            rec::add(STOPPED, 1);
        }
        else
        {
            rec::add(STOP);
            t->stop();
            rec::add(STOPPED);
            ds::sleep_for(10000000);
            t.reset();
        }
        if (ds::alive_count() != 0)
            hx::fail("thread-left", "a thread is still running after the timer was destroyed");
    });
    if (rec::get(V_LIVE) != 0)
        hx::fail("callback-object-leak", hx::cat(rec::get(V_LIVE), " callback objects were not destroyed exactly once;", timeline()));
    // judge the event log
    struct setop
    {
        int id, inv, ret;
        uint64_t ret_time;
    };
    std::map<int, setop> sets;
    int cur = 0, cur_beg = 0;
    bool running = false;
    int stop_at = -1;
    uint64_t stop_time = 0, origin = 0, I = 0;
    uint64_t last_end_time = 0;
    int64_t first_after_start = 0;
    for (int i = 0; i < rec::size(); ++i)
    {
        const rec::ev& e = rec::at(i);
        switch (e.kind)
        {
        case SET_INV: sets[(int)e.a] = {(int)e.a, i, 1 << 30, ~0ull}; break;
        case SET_RET:
            sets[(int)e.a].ret = i;
            sets[(int)e.a].ret_time = e.time;
            break;
        case START:
            stop_at = i;
            stop_time = e.time;
            break;
        case STARTED:
            // start() = stop the old run at once (or when the callback in progress ends), then start anew
            if (e.time != stop_time && e.time != last_end_time)
                hx::fail("start-waits", hx::cat("start() called at ", stop_time, " returned at ", e.time, " (event ", i, ");", timeline()));
            running = true;
            origin = e.time;
            I = (uint64_t)e.a;
            first_after_start = 0;
            stop_at = -1;
            break;
        case STOP:
            stop_at = i;
            stop_time = e.time;
            break;
        case STOPPED:
            if (cur)
                hx::fail("running-after-stop", hx::cat("stop() returned (event ", i, ") while callback ", cur, " was running;", timeline()));
            if (e.time != stop_time && e.time != last_end_time)
                hx::fail("stop-waits", hx::cat("stop() called at ", stop_time, " returned at ", e.time, " (event ", i, ") although no callback ended then;", timeline()));
            if (e.time != stop_time)
                hx::count("stops_waiting_for_a_callback");
            else
                hx::count("prompt_stops");
            running = false;
            stop_at = -1;
            break;
        case BEG:
        {
            if (!running)
                hx::fail("running-after-stop", hx::cat("callback ", e.a, " began (event ", i, ") while the timer was stopped;", timeline()));
            if (stop_at >= 0 && e.time != stop_time)
                hx::fail("tick-after-stop", hx::cat("callback ", e.a, " began at ", e.time, " (event ", i, ") although stop() had been called at ", stop_time, ";", timeline()));
            if (e.time < origin + I)
                hx::fail("early", hx::cat("callback ", e.a, " began at ", e.time, ", before the first tick of the current start at ", origin + I, ";", timeline()));
            const setop& x = sets[(int)e.a];
            for (auto& [id, y] : sets)
                if (y.ret < i && y.ret_time < e.time && x.ret < y.inv)
                    hx::fail("stale-callback", hx::cat("tick at ", e.time, " (event ", i, ") ran callback ", e.a, " although set_callback(", id, ") had returned before, at ", y.ret_time, ";", timeline()));
            cur = (int)e.a;
            cur_beg = i;
            ++first_after_start;
            hx::count("callbacks");
            break;
        }
        case END:
            if (cur != (int)e.a)
                hx::fail("callbacks-overlap", timeline());
            cur = 0;
            last_end_time = e.time;
            break;
        default: break;
        }
    }
    (void)cur_beg;
    hx::state(ds::trace_hash());
    if (hx::want_sample() && rec::size() > 12)
        hx::sample(timeline());
}
// ------------------------------------------------------------------------------ intervals too long for the clock
void forever_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.clock_tick = 0;
    ds::run(cfg, [&] {
        tc::sdk::high_precision_timer t;
        std::atomic<int64_t> ran{0};
        t.set_callback([&ran] { ++ran; });
        const int rounds = (int)r.in(1, 5);
        for (int q = 0; q < rounds; ++q)
        {
            const int64_t m = ns::max().count();
            const bool ordinary = r.chance(30);
            const int64_t I = ordinary ? r.in(1, 1000) * 1000 : r.chance(40) ? m : r.chance(60) ? m - (int64_t)r.below(1000000000000ull) : m / (int64_t)r.in(2, 100000);
            const uint64_t wait = r.below(20) * 1000 * 1000;
            const uint64_t from = ds::now();
            if (!t.start(ns(I)))
                hx::fail("start-result", "start() with a callback returned false");
            const int64_t before = ran;
            // not right on a tick: nobody knows which of the two threads runs first
            ds::sleep_for(ordinary ? wait / I * I + I / 2 : wait);
            ds::wait_quiescent(false);
            const int64_t want = ordinary ? (int64_t)(ds::now() - from) / I : 0;
            if (ran - before != want)
                hx::fail(ran - before > want ? "early" : "tick-lost", hx::cat("a timer started with an interval of ", I, " ns ran its callback ", ran - before, " times instead of ", want, " within ", ds::now() - from, " ns"));
            if (t.invoked_callback_count() != (uint64_t)want || t.missed_callback_count() != 0)
                hx::fail("invoked-count", hx::cat("invoked ", t.invoked_callback_count(), " missed ", t.missed_callback_count(), " with an interval of ", I, " ns after ", ds::now() - from, " ns"));
            hx::count(ordinary ? "ordinary" : "never_due");
            if (r.chance(60))
            {
                const uint64_t b = ds::now();
                t.stop();
                if (ds::now() != b)
                    hx::fail("stop-waits", hx::cat("stop() of a timer with an interval of ", I, " ns took ", ds::now() - b, " ns"));
                const int64_t k = ran;
                ds::sleep_for(r.below(5) * 1000 * 1000);
                if (ran != k)
                    hx::fail("ran-after-stop", "a callback ran after stop()");
            }
        }
    });
    hx::state(ds::trace_hash());
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
        {"grid", grid_iter},
        {"jitter", jitter_iter},
        {"ctl", ctl_iter},
        {"forever", forever_iter},
    });
}
