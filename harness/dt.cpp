// date, time, datetime, timedelta: C24 (cal), C25 (tod), C26 (inst), C27 (delta), C28 (text).
// Oracles: 128-bit integer arithmetic and a calendar that only knows the leap-year rule and the lengths of the months.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/datetime/date.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
#include <teiacare/sdk/datetime/time.hpp>
#include <teiacare/sdk/datetime/timedelta.hpp>

#include <chrono>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace ch = std::chrono;
namespace tcs = tc::sdk;
using i64 = int64_t;
using i128 = __int128;

namespace
{
bool fake_clock = false;
timespec fake_now{};
} // namespace
extern "C" int clock_gettime(clockid_t id, timespec* ts) noexcept
{
    if (fake_clock && id == CLOCK_REALTIME)
    {
        *ts = fake_now;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
extern "C" time_t time(time_t* t) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
extern "C" int gettimeofday(timeval* tv, void*) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" int timespec_get(timespec* ts, int base) noexcept
{
    if (base != TIME_UTC || clock_gettime(CLOCK_REALTIME, ts) != 0)
        return 0;
    return base;
}

namespace
{
// wherever the process thinks it is: nothing in this part of the library depends on the local time zone
void choose_zone(uint64_t seed)
{
    static const char* const zones[] = {"UTC", "<+0545>-05:45", "<-1130>+11:30", "<+14>-14", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<-02>2", ""};
    setenv("TZ", zones[seed % std::size(zones)], 1);
    tzset();
    hx::count(seed % std::size(zones) ? "runs_in_another_zone" : "runs_in_utc");
}
constexpr i128 DAY = (i128)86400 * 1000000000;
constexpr i64 I64MAX = std::numeric_limits<i64>::max(), I64MIN = std::numeric_limits<i64>::min();

std::string str(i128 v)
{
    if (v == 0)
        return "0";
    bool neg = v < 0;
    std::string s;
    while (v != 0)
    {
        int d = (int)(v % 10);
        s += (char)('0' + (d < 0 ? -d : d));
        v /= 10;
    }
    if (neg)
        s += '-';
    return std::string(s.rbegin(), s.rend());
}
bool fits(i128 v) { return v >= I64MIN && v <= I64MAX; }
i128 floor_div(i128 a, i128 b) { return a / b - ((a % b != 0 && ((a % b < 0) != (b < 0))) ? 1 : 0); }

struct civil
{
    int y, m, d;
    bool operator==(const civil&) const = default;
};
bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int month_len(int y, int m)
{
    static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : len[m - 1];
}
i64 year_start(int y) // days from 1970-01-01 to y-01-01, by counting
{
    i64 n = 0;
    // whole 400-year cycles first (146097 days each)
    int base = 1970;
    while (y - base >= 400)
    {
        n += 146097;
        base += 400;
    }
    while (base - y >= 400)
    {
        n -= 146097;
        base -= 400;
    }
    for (; base < y; ++base)
        n += leap(base) ? 366 : 365;
    for (; base > y; --base)
        n -= leap(base - 1) ? 366 : 365;
    return n;
}
i64 days_of(const civil& c)
{
    i64 n = year_start(c.y);
    for (int m = 1; m < c.m; ++m)
        n += month_len(c.y, m);
    return n + c.d - 1;
}
civil civil_of(i64 days)
{
    int y = 1970 + (int)floor_div(days, 366);
    while (year_start(y + 1) <= days)
        ++y;
    while (year_start(y) > days)
        --y;
    i64 rest = days - year_start(y);
    int m = 1;
    while (rest >= month_len(y, m))
        rest -= month_len(y, m++);
    return {y, m, (int)rest + 1};
}
void next_day(civil& c)
{
    if (++c.d > month_len(c.y, c.m))
    {
        c.d = 1;
        if (++c.m > 12)
        {
            c.m = 1;
            ++c.y;
        }
    }
}
tcs::date make(const civil& c) { return tcs::date(ch::year(c.y), ch::month((unsigned)c.m), ch::day((unsigned)c.d)); }
std::string show(const civil& c) { return hx::cat(c.y, "-", c.m, "-", c.d); }
civil get(const tcs::date& d) { return {(int)d.year(), (int)(unsigned)d.month(), (int)(unsigned)d.day()}; }

i64 nanos(hx::rng& r) // any count, weighted towards boundaries
{
    static const i64 units[] = {1, 1000, 1000000, 1000000000, 60000000000, 3600000000000, 86400000000000, 604800000000000, 2629746000000000, 31556952000000000};
    switch (r.below(8))
    {
    case 0: return (i64)r.u64();
    case 1: return r.pick({I64MAX, I64MIN, (i64)0, (i64)1, (i64)-1}) + (r.chance(50) ? 0 : 0);
    case 2: return (i64)(I64MAX - (i64)r.below(100000000000000));
    case 3: return (i64)(I64MIN + (i64)r.below(100000000000000));
    case 4:
    case 5: {
        const i64 u = units[r.below(10)];
        i64 k = r.in(-400, 400);
        i128 v = (i128)u * k + r.in(-2, 2);
        return fits(v) ? (i64)v : k;
    }
    case 6: return r.in(-200000000000000, 200000000000000);
    default: {
        i128 v = 0;
        for (i64 u : units)
            if (r.chance(50))
                v += (i128)u * r.in(-30, 30);
        return fits(v) ? (i64)v : 0;
    }
    }
}
tcs::timedelta delta(i64 ns) { return tcs::timedelta(ch::nanoseconds(ns)); }

constexpr int YEAR_MIN = -32767, YEAR_MAX = 32767;

#if !defined(ONLY) || ONLY == 24
// ------------------------------------------------------------------------------------------------------------ C24
void cal(uint64_t seed)
{
    hx::rng r(seed);
    static const i64 first_day = year_start(YEAR_MIN), last_day = year_start(YEAR_MAX + 1) - 1;
    const i64 total = last_day - first_day + 1;
    constexpr int CHUNKS = 1024;
    const i64 k = (i64)(seed % CHUNKS), per = total / CHUNKS + 1;
    const i64 from = first_day + k * per, to = std::min(last_day, from + per - 1);
    civil c = civil_of(from);
    hx::state((uint64_t)k);
    const i64 ns_lo = I64MIN / 86400000000000 + 1, ns_hi = I64MAX / 86400000000000 - 1;
    uint64_t arith = 0, diffs = 0;
    tcs::date prev;
    for (i64 n = from; n <= to; ++n, next_day(c))
    {
        auto bad = [&](const char* key, const std::string& more = "") { hx::fail(key, hx::cat("day ", n, " (", show(c), ") ", more)); };
        const tcs::date d = make(c);
        if (!(get(d) == c))
            bad("year-month-day", show(get(d)));
        if (!d.is_valid())
            bad("is_valid");
        if (d.to_timepoint().time_since_epoch().count() != n)
            bad("to_timepoint", str(d.to_timepoint().time_since_epoch().count()));
        const unsigned wd = (unsigned)(((n + 4) % 7 + 7) % 7); // 1970-01-01 was a Thursday
        if (d.weekday().c_encoding() != wd)
            bad("weekday", str(d.weekday().c_encoding()));
        if (d.iso_weekday() != (wd == 0 ? 7 : wd))
            bad("iso_weekday", str(d.iso_weekday()));
        const tcs::date e = make(c);
        if (!(d == e) || d != e || d < e || d > e)
            bad("equal-itself");
        if (n > from)
            if (prev == d || !(prev != d) || !(prev < d) || prev > d || d < prev || !(d > prev))
                bad("order-of-neighbours");
        prev = d;
        if (n % 16 != (i64)(seed / CHUNKS % 16) && c.d != 1 && !(c.m == 2 && c.d >= 28) && c.m != 12)
            continue; // arithmetic on a sixteenth of the days, the month and year boundaries and the Decembers
        // existing days only
        const int nd = (int)r.in(0, 255), nm = (int)r.in(0, 255);
        const bool exists = nm >= 1 && nm <= 12 && nd >= 1 && nd <= month_len(c.y, nm);
        if (make({c.y, nm, nd}).is_valid() != exists)
            bad("is_valid-of", show({c.y, nm, nd}));
        if (c.d == month_len(c.y, c.m) && make({c.y, c.m, c.d + 1}).is_valid())
            bad("is_valid-of", show({c.y, c.m, c.d + 1}));
        // another date
        const i64 o = r.chance(50) ? r.in(first_day, last_day) : std::clamp<i64>(n + r.in(-800, 800), first_day, last_day);
        const tcs::date other = make(civil_of(o));
        if ((d == other) != (n == o) || (d != other) != (n != o) || (d < other) != (n < o) || (d > other) != (n > o))
            bad("order", hx::cat("against day ", o));
        if (fits((i128)(n - o) * DAY))
        {
            ++diffs;
            const tcs::timedelta t = d - other;
            if (t.total_nanoseconds().count() != (i64)((i128)(n - o) * DAY))
                bad("difference", hx::cat("to day ", o, " is ", t.total_nanoseconds().count(), " ns"));
            if (!(other + t == d) || !(d - t == other))
                bad("difference-inverts", hx::cat("to day ", o));
        }
        const i64 ns = nanos(r);
        const i128 up = floor_div((i128)n * DAY + ns, DAY), down = floor_div((i128)n * DAY - ns, DAY);
        if (up >= first_day && up <= last_day)
        {
            ++arith;
            const tcs::date s = d + delta(ns);
            if (s.to_timepoint().time_since_epoch().count() != (i64)up || !(get(s) == civil_of((i64)up)))
                bad("plus", hx::cat("+ ", ns, " ns is ", show(get(s)), " expected ", show(civil_of((i64)up))));
        }
        if (down >= first_day && down <= last_day)
        {
            ++arith;
            const tcs::date s = d - delta(ns);
            if (s.to_timepoint().time_since_epoch().count() != (i64)down)
                bad("minus", hx::cat("- ", ns, " ns is ", show(get(s)), " expected ", show(civil_of((i64)down))));
        }
        if (n > ns_lo && n < ns_hi)
        {
            const i64 in_day = r.chance(30) ? 0 : r.chance(30) ? (i64)DAY - 1 : (i64)r.below((uint64_t)DAY);
            const i64 t = n * (i64)DAY + in_day;
            if (!(tcs::date(tcs::sys_time_point(ch::nanoseconds(t))) == d) || !(tcs::date(ch::nanoseconds(t)) == d))
                bad("from-instant", hx::cat(t, " ns"));
            hx::count("days_from_instants");
        }
        const tcs::date viaymd(ch::year_month_day(ch::year(c.y), ch::month((unsigned)c.m), ch::day((unsigned)c.d)));
        tcs::date assigned;
        assigned = viaymd;
        if (!(viaymd == d) || !(assigned == d))
            bad("constructors");
    }
    if (tcs::date().is_valid())
        hx::fail("default-valid", "");
    hx::count("days", (uint64_t)(to - from + 1));
    hx::count("additions", arith);
    hx::count("differences", diffs);
    if (hx::want_sample())
        hx::sample(hx::cat("days ", from, " (", show(civil_of(from)), ") .. ", to, " (", show(civil_of(to)), ")"));
}
#endif

// ------------------------------------------------------------------------------------------------------------ C25
struct parts // a list of durations whose partial sums all fit
{
    i64 days, h, min, s, ms, us, ns;
    i128 sum() const { return days * DAY + (i128)h * 3600000000000 + (i128)min * 60000000000 + (i128)s * 1000000000 + (i128)ms * 1000000 + (i128)us * 1000 + ns; }
    std::string show() const { return hx::cat(days, "d ", h, "h ", min, "min ", s, "s ", ms, "ms ", us, "us ", ns, "ns"); }
};
parts make_parts(hx::rng& r)
{
    const i64 big = r.pick<i64>({3, 100, 5000, 100000});
    auto v = [&](i64 natural) -> i64 {
        switch (r.below(6))
        {
        case 0: return 0;
        case 1: return r.in(0, natural - 1);
        case 2: return natural - (i64)r.below(2);
        case 3: return -r.in(0, natural);
        default: return r.in(-big * natural, big * natural);
        }
    };
    parts p;
    p.days = r.chance(70) ? 0 : r.in(-1000, 1000);
    p.h = v(24) % 200000;
    p.min = v(60);
    p.s = v(60);
    p.ms = v(1000);
    p.us = v(1000);
    p.ns = r.chance(10) ? nanos(r) / 4 : v(1000);
    return p;
}
template <typename T, typename... A>
T build(hx::rng& r, const A&... a) // from lvalues or from temporaries
{
    if (r.chance(50))
        return T(a...);
    return T(A(a)...);
}
template <typename T, typename F>
void compose(hx::rng& r, parts& p, F&& f)
{
    const ch::days d(p.days);
    const ch::hours h(p.h);
    const ch::minutes m(p.min);
    const ch::seconds s(p.s);
    const ch::milliseconds ms(p.ms);
    const ch::microseconds us(p.us);
    const ch::nanoseconds ns(p.ns);
    auto only = [&](bool kd, bool kh, bool km, bool ks, bool kms, bool kus, bool kns) {
        if (!kd)
            p.days = 0;
        if (!kh)
            p.h = 0;
        if (!km)
            p.min = 0;
        if (!ks)
            p.s = 0;
        if (!kms)
            p.ms = 0;
        if (!kus)
            p.us = 0;
        if (!kns)
            p.ns = 0;
        return p.sum();
    };
    switch (r.below(14))
    {
    case 0: { const i128 n = only(0, 1, 0, 0, 0, 0, 0); return f(build<T>(r, h), n); }
    case 1: { const i128 n = only(0, 0, 1, 0, 0, 0, 0); return f(build<T>(r, m), n); }
    case 2: { const i128 n = only(0, 0, 0, 1, 0, 0, 0); return f(build<T>(r, s), n); }
    case 3: { const i128 n = only(0, 0, 0, 0, 1, 0, 0); return f(build<T>(r, ms), n); }
    case 4: { const i128 n = only(0, 0, 0, 0, 0, 1, 0); return f(build<T>(r, us), n); }
    case 5: { const i128 n = only(0, 0, 0, 0, 0, 0, 1); return f(build<T>(r, ns), n); }
    case 6: { const i128 n = only(1, 0, 0, 0, 0, 0, 0); return f(build<T>(r, d), n); }
    case 7: { const i128 n = only(0, 1, 1, 1, 0, 0, 0); return f(build<T>(r, h, m, s), n); }
    case 8: { const i128 n = only(0, 1, 0, 1, 0, 0, 0); return f(build<T>(r, s, h), n); }
    case 9: { const i128 n = only(0, 1, 1, 1, 1, 1, 1); return f(build<T>(r, ns, us, ms, s, m, h), n); }
    case 10: { const i128 n = only(1, 1, 1, 1, 1, 1, 1); return f(build<T>(r, d, h, m, s, ms, us, ns), n); }
    case 11: { const i128 n = only(0, 1, 0, 0, 1, 0, 0); return f(build<T>(r, h, ms), n); }
    case 12: { const i128 n = only(1, 0, 1, 0, 0, 1, 0); return f(build<T>(r, us, m, d), n); }
    default: { const i128 n = only(0, 1, 1, 1, 1, 1, 1); return f(build<T>(r, h, m, s, ms, us, ns), n); }
    }
}

#if !defined(ONLY) || ONLY == 25 || ONLY == 26
void check_time(const tcs::time& t, i64 v, const std::string& what)
{
    auto bad = [&](const char* key, i64 got) { hx::fail(key, hx::cat(what, ": is ", got, ", the value is ", v, " ns")); };
    if (t.to_duration().count() != v)
        bad("to_duration", t.to_duration().count());
    const i64 a = v < 0 ? -v : v;
    if (t.hours().count() != a / 3600000000000)
        bad("hours", t.hours().count());
    if (t.minutes().count() != a / 60000000000 % 60)
        bad("minutes", t.minutes().count());
    if (t.seconds().count() != a / 1000000000 % 60)
        bad("seconds", t.seconds().count());
    const i64 sub = a % 1000000000;
    if (t.milliseconds().count() != sub / 1000000)
        bad("milliseconds", t.milliseconds().count());
    if (t.microseconds().count() != sub / 1000)
        bad("microseconds", t.microseconds().count());
    if (t.nanoseconds().count() != sub)
        bad("nanoseconds", t.nanoseconds().count());
    if (!t.is_valid())
        bad("is_valid", 0);
}
#endif

#if !defined(ONLY) || ONLY == 25
void tod(uint64_t seed)
{
    hx::rng r(seed);
    for (int i = 0; i < 20; ++i)
    {
        parts p = make_parts(r);
        compose<tcs::time>(r, p, [&](const tcs::time& t, i128 sum) {
        const std::string what = hx::cat("time of ", p.show());
        const i64 v = (i64)(sum % DAY);
        check_time(t, v, what);
        hx::state(hx::hash64((uint64_t)v, (uint64_t)p.ns));
        hx::count(v < 0 ? "negative_times" : "non_negative_times");
        if (sum >= DAY || sum <= -DAY)
            hx::count("wrapped");
        // another one, sometimes equal or adjacent
        i128 osum = r.chance(40) ? sum + r.in(-1, 1) : r.chance(30) ? sum + DAY * r.in(-3, 3) : (i128)nanos(r);
        if (!fits(osum))
            osum = 0;
        const tcs::time o{ch::nanoseconds((i64)osum)};
        const i64 w = (i64)(osum % DAY);
        check_time(o, w, hx::cat("time of ", str(osum), " ns"));
        auto rel = [&](const char* key, bool got, bool want) {
            if (got != want)
                hx::fail(key, hx::cat(v, " ns against ", w, " ns: ", got));
        };
        rel("==", t == o, v == w);
        rel("!=", t != o, v != w);
        rel("<", t < o, v < w);
        rel(">", t > o, v > w);
        if ((t - o).total_nanoseconds().count() != v - w)
            hx::fail("time-time", hx::cat(v, " - ", w, " = ", (t - o).total_nanoseconds().count()));
        if ((t + o).total_nanoseconds().count() != v + w)
            hx::fail("time+time", hx::cat(v, " + ", w, " = ", (t + o).total_nanoseconds().count()));
        const i64 ns = nanos(r);
        if (fits((i128)v + ns))
            check_time(t + delta(ns), (i64)(((i128)v + ns) % DAY), hx::cat(v, " ns + timedelta of ", ns, " ns"));
        if (fits((i128)v - ns))
            check_time(t - delta(ns), (i64)(((i128)v - ns) % DAY), hx::cat(v, " ns - timedelta of ", ns, " ns"));
        tcs::time a;
        if (a.is_valid())
            hx::fail("default-valid", "");
        a = t;
        check_time(a, v, what + " (assigned)");
        if (hx::want_sample())
            hx::sample(hx::cat(what, " = ", v, " ns"));
        });
    }
}
#endif

// ------------------------------------------------------------------------------------------------------------ C26
constexpr i64 INST_LO = -106751ll * 86400000000000ll; // first midnight that nanoseconds can represent
i64 instant(hx::rng& r)
{
    i128 v;
    switch (r.below(7))
    {
    case 0: v = (i128)(i64)r.u64(); break;
    case 1: v = (i128)r.in(-106750, 106750) * DAY + r.in(-3, 3); break;
    case 2: v = r.in(-100000000000, 100000000000); break;                       // around the epoch
    case 3: v = (i128)r.in(-106750, 106750) * DAY + (i128)r.below(86400) * 1000000000 + r.in(-2, 2); break;
    case 4: v = (i128)I64MAX - (i128)r.below(1000000000) * (r.chance(50) ? 1 : 1000); break;
    case 5: v = (i128)INST_LO + r.below(1000000000000); break;
    default: v = (i128)r.in(-9000000000, 9000000000) * 1000000000 + r.below(1000000000); break;
    }
    if (!fits(v) || v < INST_LO)
        v = r.in(-1000, 1000);
    return (i64)v;
}
tcs::datetime at(i64 ns) { return tcs::datetime(tcs::sys_time_point(ch::nanoseconds(ns))); }
i64 ns_of(const tcs::datetime& d) { return d.to_time_point().time_since_epoch().count(); }

#if !defined(ONLY) || ONLY == 26
void inst(uint64_t seed)
{
    hx::rng r(seed);
    choose_zone(seed >> 7);
    for (int i = 0; i < 10; ++i)
    {
        const i64 v = instant(r);
        const tcs::datetime t = at(v);
        auto bad = [&](const char* key, const std::string& more) { hx::fail(key, hx::cat("instant ", v, " ns: ", more)); };
        hx::state((uint64_t)v);
        hx::count(v < 0 ? "before_1970" : "since_1970");
        if (ns_of(t) != v)
            bad("to_time_point", str(ns_of(t)));
        const i64 day = (i64)floor_div(v, DAY), in_day = (i64)(v - day * DAY);
        const civil c = civil_of(day);
        if (!(get(t.date()) == c) || t.date().to_timepoint().time_since_epoch().count() != day)
            bad("date", hx::cat(show(get(t.date())), " expected ", show(c)));
        check_time(t.time(), in_day, hx::cat("time of day of instant ", v, " ns"));
        if (ns_of(tcs::datetime(t.date(), t.time())) != v)
            bad("recompose", str(ns_of(tcs::datetime(t.date(), t.time()))));
        // a date and a time of day, whatever its sign
        {
            const i64 tod = r.chance(20) ? r.pick<i64>({0, -1, 1, (i64)DAY - 1, 1 - (i64)DAY, -1000000000, -3600000000000}) : r.in(1 - (i64)DAY, (i64)DAY - 1);
            const tcs::time x{ch::nanoseconds(tod)};
            if (fits((i128)day * DAY) && fits((i128)day * DAY + tod) && ns_of(tcs::datetime(t.date(), x)) != day * (i64)DAY + tod)
                bad("date-and-time", hx::cat(show(c), " and ", tod, " ns is ", ns_of(tcs::datetime(t.date(), x))));
            if (ns_of(tcs::datetime(x)) != tod)
                hx::fail("from-time", hx::cat(tod, " ns is ", ns_of(tcs::datetime(x))));
            hx::count(tod < 0 ? "dates_and_negative_times" : "dates_and_times");
        }
        if (ns_of(tcs::datetime(t.date())) != v - in_day)
            bad("from-date", str(ns_of(tcs::datetime(t.date()))));
        if (ns_of(tcs::datetime(t.time())) != in_day)
            bad("from-time", str(ns_of(tcs::datetime(t.time()))));
        if (t.is_valid() != (v != I64MAX && v != I64MIN))
            bad("is_valid", t.is_valid() ? "valid" : "invalid");
        // components of any size
        {
            parts p = make_parts(r);
            p.days = 0;
            const i64 dd = r.in(-100000, 100000);
            const civil cc = civil_of(dd);
            // they are added from left to right: every part and every partial sum has to be representable
            i128 sum = dd * DAY;
            bool ok = true;
            i128 six = 0;
            const i128 terms[] = {(i128)p.h * 3600000000000, (i128)p.min * 60000000000, (i128)p.s * 1000000000, (i128)p.ms * 1000000, (i128)p.us * 1000, (i128)p.ns};
            for (int k = 0; k < 6; ++k)
            {
                sum += terms[k];
                ok = ok && fits(terms[k]) && fits(sum);
                if (k == 2)
                    six = sum;
            }
            if (ok)
            {
                auto expect = [&](const tcs::datetime& x, i128 want) {
                    if (ns_of(x) != (i64)want)
                        hx::fail("components", hx::cat(show(cc), " + ", p.show(), " is ", ns_of(x), " expected ", str(want)));
                };
                const ch::year y(cc.y);
                const ch::month m((unsigned)cc.m);
                const ch::day d((unsigned)cc.d);
                const ch::hours hh(p.h);
                const ch::minutes mm(p.min);
                const ch::seconds ss(p.s);
                expect(tcs::datetime(y, m, d, hh, mm, ss), six);
                expect(tcs::datetime(y, m, d, hh, mm, ss, ch::milliseconds(p.ms)), six + terms[3]);
                expect(tcs::datetime(y, m, d, hh, mm, ss, ch::milliseconds(p.ms), ch::microseconds(p.us)), six + terms[3] + terms[4]);
                expect(tcs::datetime(y, m, d, hh, mm, ss, ch::milliseconds(p.ms), ch::microseconds(p.us), ch::nanoseconds(p.ns)), sum);
                hx::count("from_components");
            }
        }
        const i64 w = r.chance(30) && v < I64MAX - 2 ? v + r.in(0, 1) : instant(r);
        const tcs::datetime o = at(w);
        if ((t == o) != (v == w) || (t != o) != (v != w) || (t < o) != (v < w) || (t > o) != (v > w))
            bad("order", hx::cat("against ", w));
        if (fits((i128)v - w))
        {
            if ((t - o).total_nanoseconds().count() != v - w)
                bad("difference", hx::cat("to ", w, " is ", (t - o).total_nanoseconds().count()));
            hx::count("differences");
        }
        const i64 ns = nanos(r);
        if (fits((i128)v + ns) && ns_of(t + delta(ns)) != v + ns)
            bad("plus", hx::cat("+ ", ns, " is ", ns_of(t + delta(ns))));
        if (fits((i128)v - ns) && ns_of(t - delta(ns)) != v - ns)
            bad("minus", hx::cat("- ", ns, " is ", ns_of(t - delta(ns))));
        tcs::datetime a;
        if (a.is_valid())
            hx::fail("default-valid", "");
        a = t;
        if (ns_of(a) != v)
            bad("assign", str(ns_of(a)));
        if (at(I64MAX).is_valid() || at(I64MIN).is_valid() || !at(I64MAX - 1).is_valid() || !at(I64MIN + 1).is_valid())
            hx::fail("sentinels", "");
        if (hx::want_sample())
            hx::sample(hx::cat("instant ", v, " ns = ", show(c), " + ", in_day, " ns"));
    }
    // the clock readers, with a clock set by the harness
    {
        const i64 now = r.chance(30) ? r.in(0, 100000) * (i64)DAY - (i64)r.below(2) : (i64)(r.u64() % (uint64_t)I64MAX);
        if (now < 0)
            return;
        fake_now.tv_sec = now / 1000000000;
        fake_now.tv_nsec = now % 1000000000;
        fake_clock = true;
        const tcs::date today = tcs::date::today();
        auto cut = [&](i64 unit) { return now - now % unit; };
        const i64 d_s = ns_of(tcs::datetime::utc_now<ch::seconds>()), d_ms = ns_of(tcs::datetime::utc_now<ch::milliseconds>()), d_us = ns_of(tcs::datetime::utc_now<ch::microseconds>()), d_ns = ns_of(tcs::datetime::utc_now<ch::nanoseconds>()), d_df = ns_of(tcs::datetime::utc_now());
        const i64 t_h = tcs::time::utc_now<ch::hours>().to_duration().count(), t_m = tcs::time::utc_now<ch::minutes>().to_duration().count(), t_s = tcs::time::utc_now<ch::seconds>().to_duration().count(), t_ms = tcs::time::utc_now<ch::milliseconds>().to_duration().count(), t_us = tcs::time::utc_now<ch::microseconds>().to_duration().count(), t_ns = tcs::time::utc_now<ch::nanoseconds>().to_duration().count(), t_df = tcs::time::utc_now().to_duration().count();
        fake_clock = false;
        const i64 day = now / (i64)DAY, in_day = now % (i64)DAY;
        auto bad = [&](const char* key) { hx::fail(key, hx::cat("clock at ", now, " ns since 1970")); };
        if (today.to_timepoint().time_since_epoch().count() != day)
            bad("today");
        if (d_s != cut(1000000000) || d_ms != cut(1000000) || d_us != cut(1000) || d_ns != now || d_df != d_ms)
            bad("datetime-utc_now");
        auto c2 = [&](i64 unit) { return in_day - in_day % unit; };
        if (t_h != c2(3600000000000) || t_m != c2(60000000000) || t_s != c2(1000000000) || t_ms != c2(1000000) || t_us != c2(1000) || t_ns != in_day || t_df != t_ms)
            bad("time-utc_now");
        hx::count("clock_readings", 13);
    }
}
#endif

#if !defined(ONLY) || ONLY == 27
// ------------------------------------------------------------------------------------------------------------ C27
void delta_mode(uint64_t seed)
{
    hx::rng r(seed);
    for (int i = 0; i < 20; ++i)
    {
        const bool composed = r.chance(50);
        parts p = make_parts(r);
        i64 v = nanos(r);
        tcs::timedelta t;
        if (!t.is_null() || t.total_nanoseconds().count() != 0)
            hx::fail("default", "");
        std::string what;
        if (composed)
        {
            compose<tcs::timedelta>(r, p, [&](const tcs::timedelta& x, i128 sum) {
                v = (i64)sum;
                t = x;
            });
            what = p.show();
        }
        else
        {
            t = delta(v);
            what = hx::cat(v, " ns");
        }
        hx::state((uint64_t)v);
        auto bad = [&](const char* key, i128 got, i128 want) { hx::fail(key, hx::cat("timedelta of ", what, " (", v, " ns): ", str(got), " expected ", str(want))); };
        if (t.total_nanoseconds().count() != v)
            bad("value", t.total_nanoseconds().count(), v);
        if (t.is_null() != (v == 0))
            bad("is_null", t.is_null(), v == 0);
        auto tot = [&](const char* key, i64 got, i64 unit) {
            if (got != v / unit)
                bad(key, got, v / unit);
        };
        tot("total_years", t.total_years().count(), 31556952ll * 1000000000);
        tot("total_months", t.total_months().count(), 2629746ll * 1000000000);
        tot("total_days", t.total_days().count(), 86400ll * 1000000000);
        tot("total_hours", t.total_hours().count(), 3600ll * 1000000000);
        tot("total_minutes", t.total_minutes().count(), 60ll * 1000000000);
        tot("total_seconds", t.total_seconds().count(), 1000000000);
        tot("total_milliseconds", t.total_milliseconds().count(), 1000000);
        tot("total_microseconds", t.total_microseconds().count(), 1000);
        if (v > I64MIN + 4000000000000) // components exist: the floor of the value in hours is representable
        {
            hx::count(v < 0 ? "negative_decomposed" : "decomposed");
            const i64 h = t.hours().count(), m = t.minutes().count(), s = t.seconds().count(), ms = t.milliseconds().count(), us = t.microseconds().count(), ns = t.nanoseconds().count();
            const i128 re = (i128)h * 3600000000000 + (i128)m * 60000000000 + (i128)s * 1000000000 + (i128)ms * 1000000 + (i128)us * 1000 + ns;
            if (re != v)
                bad("recompose", re, v);
            if (h != (i64)floor_div(v, 3600000000000))
                bad("hours", h, floor_div(v, 3600000000000));
            if (m < 0 || m > 59)
                bad("minutes", m, 0);
            if (s < 0 || s > 59)
                bad("seconds", s, 0);
            if (ms < 0 || ms > 999)
                bad("milliseconds", ms, 0);
            if (us < 0 || us > 999)
                bad("microseconds", us, 0);
            if (ns < 0 || ns > 999)
                bad("nanoseconds", ns, 0);
        }
        const i64 w = r.chance(30) ? v : nanos(r);
        const tcs::timedelta o = delta(w);
        if ((t == o) != (v == w) || (t != o) != (v != w))
            hx::fail("equality", hx::cat(v, " and ", w));
        if (fits((i128)v + w) && (t + o).total_nanoseconds().count() != v + w)
            bad("plus", (t + o).total_nanoseconds().count(), (i128)v + w);
        if (fits((i128)v - w) && (t - o).total_nanoseconds().count() != v - w)
            bad("minus", (t - o).total_nanoseconds().count(), (i128)v - w);
        const i64 k = r.chance(60) ? r.in(-1000, 1000) : nanos(r);
        if (fits((i128)v * k))
        {
            hx::count("products");
            if ((t * k).total_nanoseconds().count() != v * k)
                bad("times", (t * k).total_nanoseconds().count(), (i128)v * k);
        }
        if (k != 0 && fits((i128)v / k))
        {
            hx::count("quotients");
            if ((t / k).total_nanoseconds().count() != v / k)
                bad("divided", (t / k).total_nanoseconds().count(), v / k);
        }
        bool thrown = false;
        try
        {
            (void)(t / 0);
        }
        catch (const std::domain_error&)
        {
            thrown = true;
        }
        catch (...)
        {
        }
        if (!thrown)
            hx::fail("division-by-zero", hx::cat(v, " ns / 0 did not throw std::domain_error"));
        hx::count("divisions_by_zero");
        if (hx::want_sample())
            hx::sample(hx::cat("timedelta of ", what, " = ", v, " ns, other operand ", w, " ns, scalar ", k));
    }
}
#endif

#if !defined(ONLY) || ONLY == 28
// ------------------------------------------------------------------------------------------------------------ C28
const char* const MON[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
const char* const WDN[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
std::string pad(i64 v, int w)
{
    std::string s = std::to_string(v < 0 ? -v : v);
    while ((int)s.size() < w)
        s = "0" + s;
    return (v < 0 ? "-" : "") + s;
}
template <typename D> struct prec;
template <> struct prec<ch::hours> { static constexpr i64 unit = 3600000000000; static constexpr int digits = 0; };
template <> struct prec<ch::minutes> { static constexpr i64 unit = 60000000000; static constexpr int digits = 0; };
template <> struct prec<ch::seconds> { static constexpr i64 unit = 1000000000; static constexpr int digits = 0; };
template <> struct prec<ch::milliseconds> { static constexpr i64 unit = 1000000; static constexpr int digits = 3; };
template <> struct prec<ch::microseconds> { static constexpr i64 unit = 1000; static constexpr int digits = 6; };
template <> struct prec<ch::nanoseconds> { static constexpr i64 unit = 1; static constexpr int digits = 9; };

std::string fraction(i64 ns_in_second, int digits)
{
    if (!digits)
        return "";
    return "." + pad(ns_in_second, 9).substr(0, (size_t)digits);
}
std::string hms(i64 v, int digits) // v >= 0
{
    return pad(v / 3600000000000, 2) + ":" + pad(v / 60000000000 % 60, 2) + ":" + pad(v / 1000000000 % 60, 2) + fraction(v % 1000000000, digits);
}
std::string ymd(const civil& c) { return pad(c.y, 4) + "-" + pad(c.m, 2) + "-" + pad(c.d, 2); }
// own rendering of the conversions the library documents and tests
std::string render(const std::string& f, const civil& c, i64 day, i64 in_day, int digits)
{
    std::string o;
    const int wd = (int)(((day + 4) % 7 + 7) % 7);
    for (size_t i = 0; i < f.size(); ++i)
    {
        if (f[i] != '%')
        {
            o += f[i];
            continue;
        }
        switch (f[++i])
        {
        case 'Y': o += pad(c.y, 4); break;
        case 'y': o += pad(((c.y % 100) + 100) % 100, 2); break;
        case 'm': o += pad(c.m, 2); break;
        case 'd': o += pad(c.d, 2); break;
        case 'b': o += std::string(MON[c.m - 1]).substr(0, 3); break;
        case 'B': o += MON[c.m - 1]; break;
        case 'a': o += std::string(WDN[wd]).substr(0, 3); break;
        case 'A': o += WDN[wd]; break;
        case 'F': o += ymd(c); break;
        case 'D': o += pad(c.m, 2) + "/" + pad(c.d, 2) + "/" + pad(((c.y % 100) + 100) % 100, 2); break;
        case 'H': o += pad(in_day / 3600000000000, 2); break;
        case 'M': o += pad(in_day / 60000000000 % 60, 2); break;
        case 'S': o += pad(in_day / 1000000000 % 60, 2) + fraction(in_day % 1000000000, digits); break;
        case 'R': o += pad(in_day / 3600000000000, 2) + ":" + pad(in_day / 60000000000 % 60, 2); break;
        case 'T': o += hms(in_day, digits); break;
        }
    }
    return o;
}

template <typename F>
void must_throw(const char* key, const std::string& text, F&& f)
{
    std::string got;
    try
    {
        got = f();
    }
    catch (const std::runtime_error&)
    {
        hx::count("rejected");
        return;
    }
    catch (...)
    {
        hx::fail(hx::cat(key, "-exception-type"), hx::quote(text));
    }
    hx::fail(hx::cat(key, "-accepted"), hx::cat(hx::quote(text), " was read as ", got));
}

// a text that is surely no date/time: break a separator or a leading character of a field, cut it short, or no digits at all
std::string spoil(hx::rng& r, std::string s, size_t fixed_len)
{
    std::vector<size_t> seps, starts{0};
    for (size_t i = 0; i < fixed_len && i < s.size(); ++i)
        if (!isdigit((unsigned char)s[i]))
        {
            seps.push_back(i);
            starts.push_back(i + 1);
        }
    switch (r.below(4))
    {
    case 0: {
        const size_t k = r.pick(seps);
        char c;
        do
            c = "/.,;_xTZ#-:"[r.below(11)];
        while (c == s[k]);
        s[k] = c;
        return s;
    }
    case 1: s[r.pick(starts)] = "xyz#/_!~"[r.below(8)]; return s;
    case 2: return s.substr(0, r.pick(seps) + r.below(2));
    default: {
        std::string o;
        for (int i = 0, n = (int)r.below(12); i < n; ++i)
        {
            char c = (char)r.in(1, 255);
            o += isdigit((unsigned char)c) ? 'q' : c;
        }
        return o;
    }
    }
}

template <typename D>
void text_time(hx::rng& r)
{
    constexpr i64 unit = prec<D>::unit;
    constexpr int digits = prec<D>::digits;
    const i64 v = r.chance(20) ? r.pick<i64>({0, 1, (i64)DAY - 1, 999999999, 3599999999999, 59999999999}) : (i64)r.below((uint64_t)DAY);
    const tcs::time t{ch::nanoseconds(v)};
    const i64 cut = v - v % unit;
    auto bad = [&](const char* key, const std::string& got, const std::string& want) { hx::fail(key, hx::cat("time of ", v, " ns at unit ", unit, ": ", hx::quote(got), " expected ", hx::quote(want))); };
    const std::string want = hms(cut, digits), got = t.template to_string<D>();
    if (got != want)
        bad("time-text", got, want);
    const std::string f = r.pick<std::string>({"%T", "%R", "%H", "%M", "%S", "%H:%M:%S", "%H.%M", "at %T!"});
    if (t.template to_string<D>(f) != render(f, {1970, 1, 1}, 0, cut, digits))
        bad("time-format", t.template to_string<D>(f), render(f, {1970, 1, 1}, 0, cut, digits));
    const tcs::time back = tcs::time::from_string<D>(got);
    if (back.to_duration().count() != cut)
        bad("time-round-trip", std::to_string(back.to_duration().count()), got);
    // more digits than the precision are cut off
    const std::string full = hms(v, 9);
    if (tcs::time::from_string<D>(full).to_duration().count() != cut)
        bad("time-read-finer", full, want);
    hx::count("time_texts");
    // negative values print their magnitude
    if (cut > 0 && digits)
    {
        const tcs::time neg{ch::nanoseconds(-cut)};
        if (neg.template to_string<D>() != "-" + want)
            bad("negative-time-text", neg.template to_string<D>(), "-" + want);
    }
    std::ostringstream os;
    os << t;
    if (os.str() != hms(v - v % 1000000, 3))
        bad("time-stream", os.str(), hms(v - v % 1000000, 3));
    // not a time
    std::string s;
    if (r.chance(50))
        s = pad(r.chance(50) ? r.in(24, 99) : r.in(0, 23), 2);
    else
        s = pad(r.in(0, 23), 2);
    {
        i64 h = r.in(0, 23), m = r.in(0, 59), sec = r.in(0, 59);
        switch (r.below(3))
        {
        case 0: h = r.in(24, 99); break;
        case 1: m = r.in(60, 99); break;
        default: sec = r.in(60, 99);
        }
        s = pad(h, 2) + ":" + pad(m, 2) + ":" + pad(sec, 2) + (digits && r.chance(50) ? fraction(r.below(1000000000), digits) : "");
    }
    must_throw("time-out-of-range", s, [&] { return tcs::time::from_string<D>(s).template to_string<ch::nanoseconds>(); });
    s = spoil(r, full, 8);
    must_throw("time-malformed", s, [&] { return tcs::time::from_string<D>(s).template to_string<ch::nanoseconds>(); });
    // a text that denotes a day, but no time of day
    s = ymd(civil_of(r.in(-30000, 30000)));
    must_throw("time-of-a-date", s, [&] { return tcs::time::from_string<D>(s, "%F").template to_string<ch::nanoseconds>(); });
}

template <typename D>
void text_datetime(hx::rng& r)
{
    constexpr i64 unit = prec<D>::unit;
    constexpr int digits = prec<D>::digits;
    const i64 v = instant(r);
    const i64 cut = (i64)(floor_div(v, unit) * unit);
    if (cut < INST_LO)
        return;
    const tcs::datetime t = at(v);
    const i64 day = (i64)floor_div(cut, DAY), in_day = (i64)(cut - day * DAY);
    const civil c = civil_of(day);
    auto bad = [&](const char* key, const std::string& got, const std::string& want) { hx::fail(key, hx::cat("instant ", v, " ns at unit ", unit, ": ", hx::quote(got), " expected ", hx::quote(want))); };
    const std::string want = ymd(c) + "T" + hms(in_day, digits), got = t.template to_string<D>();
    if (got != want)
        bad("datetime-text", got, want);
    if (v < 0)
        hx::count("texts_before_1970");
    const std::string f = r.pick<std::string>({"%F", "%D", "%m/%d/%y", "%d/%m/%Y", "%Y/%b/%d", "%Y-%B-%d %a", "%Y-%B-%d %A", "%T", "%R", "%H", "%M", "%S", "%F %T", "%d %b %Y, %H:%M", "%A %d %B %Y"});
    if (t.template to_string<D>(f) != render(f, c, day, in_day, digits))
        bad("datetime-format", t.template to_string<D>(f), render(f, c, day, in_day, digits));
    // the ends of the range are excluded: the last microsecond is where the invalid marker lives
    if (cut < I64MAX - 1000)
    {
        const tcs::datetime back = tcs::datetime::from_string<D>(got);
        if (ns_of(back) != cut)
            bad("datetime-round-trip", std::to_string(ns_of(back)), got);
        const i64 day2 = (i64)floor_div(v, DAY);
        const std::string full = ymd(civil_of(day2)) + "T" + hms((i64)(v - day2 * DAY), 9);
        if (ns_of(tcs::datetime::from_string<D>(full)) != cut)
            bad("datetime-read-finer", full, want);
        // other formats that denote the whole value
        for (const char* ff : {"%Y/%m/%d %T", "%d.%m.%Y %H:%M:%S", "%T %d %b %Y", "%A %d %B %Y at %T"})
        {
            const std::string txt = render(ff, c, day, in_day, digits);
            if (ns_of(tcs::datetime::from_string<D>(txt, ff)) != cut)
                bad("datetime-read-format", txt, want);
        }
        // a local time with its offset from UTC
        {
            const i64 off = r.chance(70) ? r.in(-14 * 60, 14 * 60) : r.pick<i64>({0, 1, -1, 59, -59, 60, -60, 90, -90, 1439, -1439});
            const i64 a = off < 0 ? -off : off;
            const i128 local = (i128)cut + (i128)off * 60000000000;
            const i64 lday = (i64)floor_div(local, DAY);
            const bool colon = r.chance(30);
            const std::string zone = (off < 0 ? "-" : "+") + pad(a / 60, 2) + (colon ? ":" : "") + pad(a % 60, 2);
            const std::string txt = ymd(civil_of(lday)) + "T" + hms((i64)(local - (i128)lday * DAY), digits) + (colon ? " " : "") + zone;
            if (ns_of(tcs::datetime::from_string<D>(txt, colon ? "%FT%T %Ez" : "%FT%T%z")) != cut)
                bad("datetime-read-offset", txt + " as " + str(ns_of(tcs::datetime::from_string<D>(txt, colon ? "%FT%T %Ez" : "%FT%T%z"))), want);
            hx::count("datetimes_with_offsets");
        }
        const std::string dtxt = render("%F", c, day, 0, 0);
        if (ns_of(tcs::datetime::from_string<D>(dtxt, "%F")) != day * (i64)DAY)
            bad("datetime-read-date", dtxt, want);
        hx::count("datetime_texts");
    }
    std::ostringstream os;
    os << t;
    if (os.str() != t.to_string())
        bad("datetime-stream", os.str(), t.to_string());
    auto show_back = [&](const std::string& s) { return str(ns_of(tcs::datetime::from_string<D>(s))); };
    // existing days outside the range of the type
    {
        const i64 lim = 106752;
        const i64 dd = r.chance(50) ? r.in(lim, year_start(10000) - 1) : r.in(year_start(0), -lim - 1);
        const std::string s = ymd(civil_of(dd)) + "T" + hms((i64)r.below((uint64_t)DAY), digits);
        must_throw("datetime-unrepresentable", s, [&] { return show_back(s); });
        hx::count("unrepresentable_datetimes");
    }
    {
        const std::string s = "2262-04-11T" + hms(85637000000000ll + (i64)r.below(762000000000), digits); // after the last instant of the type
        must_throw("datetime-unrepresentable", s, [&] { return show_back(s); });
        const std::string s2 = "1677-09-21T" + hms((i64)r.below(763000000000), digits); // before the first
        must_throw("datetime-unrepresentable", s2, [&] { return show_back(s2); });
    }
    // not a date or not a time
    {
        int y = c.y, m = c.m, d = c.d;
        i64 h = r.in(0, 23), mi = r.in(0, 59), sec = r.in(0, 59);
        switch (r.below(6))
        {
        case 0: m = r.chance(50) ? 0 : (int)r.in(13, 99); break;
        case 1: d = r.chance(30) ? 0 : month_len(y, m) + 1 + (int)r.below(3); break;
        case 2: h = r.in(24, 99); break;
        case 3: mi = r.in(60, 99); break;
        case 4: sec = r.in(60, 99); break;
        default: m = 2; d = 29; while (leap(y)) ++y;
        }
        const std::string s = pad(y, 4) + "-" + pad(m, 2) + "-" + pad(d, 2) + "T" + pad(h, 2) + ":" + pad(mi, 2) + ":" + pad(sec, 2) + fraction(r.below(1000000000), digits);
        must_throw("datetime-nonexistent", s, [&] { return show_back(s); });
        const std::string tod = hms((i64)r.below((uint64_t)DAY), digits); // no day
        must_throw("datetime-of-a-time", tod, [&] { return str(ns_of(tcs::datetime::from_string<D>(tod, "%T"))); });
        const std::string q = spoil(r, want, 19);
        must_throw("datetime-malformed", q, [&] { return show_back(q); });
    }
}

void text_date(hx::rng& r)
{
        const i64 n = r.chance(20) ? std::max(year_start(0), r.in(-200, 200) + year_start((int)r.in(0, 99) * 100)) : r.in(year_start(0), year_start(10000) - 1);
    const civil c = civil_of(n);
    const tcs::date d = make(c);
    auto bad = [&](const char* key, const std::string& got, const std::string& want) { hx::fail(key, hx::cat("date ", show(c), ": ", hx::quote(got), " expected ", hx::quote(want))); };
    if (d.to_string() != ymd(c))
        bad("date-text", d.to_string(), ymd(c));
    std::ostringstream os;
    os << d;
    if (os.str() != ymd(c))
        bad("date-stream", os.str(), ymd(c));
    const std::string f = r.pick<std::string>({"%F", "%d/%m/%Y", "%Y/%m/%d", "%Y/%b/%d", "%Y-%B-%d", "%Y-%B-%d %a", "%A, %d %B %Y"});
    const std::string ft = render(f, c, n, 0, 0);
    if (d.to_string(f) != ft)
        bad("date-format", d.to_string(f), ft);
    if (c.y >= 0 && c.y <= 9999)
    {
        const tcs::date back = tcs::date::from_string(ymd(c));
        if (!(get(back) == c))
            bad("date-round-trip", show(get(back)), ymd(c));
        if (!(get(tcs::date::from_string(ft, f)) == c))
            bad("date-read-format", show(get(tcs::date::from_string(ft, f))), ft);
        hx::count("date_texts");
        if (n < -106751 || n > 106751)
            hx::count("dates_outside_nanosecond_range");
        if (c.y >= 1969 && c.y <= 2068) // POSIX reading of two-digit years
        {
            const std::string D = render("%D", c, n, 0, 0);
            if (d.to_string("%D") != D || !(get(tcs::date::from_string(D, "%D")) == c))
                bad("date-two-digit-year", show(get(tcs::date::from_string(D, "%D"))), D);
        }
        auto show_back = [&](const std::string& s) { return show(get(tcs::date::from_string(s))); };
        int y = c.y, m = c.m, dd = c.d;
        switch (r.below(4))
        {
        case 0: m = r.chance(50) ? 0 : (int)r.in(13, 99); break;
        case 1: dd = r.chance(30) ? 0 : month_len(y, m) + 1 + (int)r.below(3); break;
        case 2: dd = (int)r.in(32, 99); break;
        default: m = 2; dd = 29; while (leap(y)) ++y;
        }
        const std::string s = pad(y, 4) + "-" + pad(m, 2) + "-" + pad(dd, 2);
        must_throw("date-nonexistent", s, [&] { return show_back(s); });
        const std::string q = spoil(r, ymd(c), 10);
        must_throw("date-malformed", q, [&] { return show_back(q); });
        // a weekday that contradicts the date
        const int wd = (int)(((n + 4) % 7 + 7) % 7), wrong = (wd + (int)r.in(1, 6)) % 7;
        const std::string w = ymd(c) + " " + WDN[wrong];
        must_throw("date-wrong-weekday", w, [&] { return show(get(tcs::date::from_string(w, "%F %A"))); });
        const std::string tod = hms((i64)r.below((uint64_t)DAY), 0); // no day
        must_throw("date-of-a-time", tod, [&] { return show(get(tcs::date::from_string(tod, "%T"))); });
    }
}

template <typename D>
void text_delta(hx::rng& r)
{
    constexpr i64 unit = prec<D>::unit;
    constexpr int digits = prec<D>::digits;
    i64 v = nanos(r);
    if (v == I64MIN)
        v = I64MIN + 1;
    const i64 cut = v - v % unit; // towards zero
    const i64 a = cut < 0 ? -cut : cut;
    const std::string want = (cut < 0 ? "-" : "") + hms(a, digits), got = delta(v).template to_string<D>();
    if (got != want)
        hx::fail("timedelta-text", hx::cat("timedelta of ", v, " ns at unit ", unit, ": ", hx::quote(got), " expected ", hx::quote(want)));
    std::ostringstream os;
    os << delta(v);
    if (os.str() != delta(v).to_string())
        hx::fail("timedelta-stream", os.str());
    hx::count("timedelta_texts");
    hx::state(hx::hash_str(want));
    if (hx::want_sample())
        hx::sample(hx::cat("timedelta of ", v, " ns prints ", got));
}

// texts in a program with a global locale of its own: the texts without a fraction are those of the classic locale,
// every timedelta text is, and what a value prints denotes that value
void text_elsewhere(hx::rng& r)
{
    const hx::other_locale guard(true);
    hx::count("runs_in_another_locale");
    text_delta<ch::seconds>(r);
    text_delta<ch::milliseconds>(r);
    text_delta<ch::microseconds>(r);
    text_delta<ch::nanoseconds>(r);
    text_date(r);
    const i64 tod = (i64)r.below((uint64_t)DAY);
    const std::string t = tcs::time(ch::nanoseconds(tod)).to_string<ch::nanoseconds>();
    if (tcs::time::from_string<ch::nanoseconds>(t).to_duration().count() != tod)
        hx::fail("time-round-trip-in-a-locale", hx::cat(tod, " ns prints ", t));
    if (const std::string w = tcs::time(ch::nanoseconds(tod)).to_string<ch::seconds>(); w != hms(tod - tod % 1000000000, 0))
        hx::fail("time-text-in-a-locale", hx::cat(tod, " ns prints ", w));
    const i64 v = instant(r);
    if (v > INST_LO + 1000 && v < I64MAX - 1000)
    {
        const i64 day = (i64)floor_div(v, DAY), cut = (i64)(floor_div(v, 1000000000) * 1000000000);
        if (const std::string w = at(v).to_string<ch::seconds>(); w != ymd(civil_of(day)) + "T" + hms((i64)(cut - day * DAY), 0))
            hx::fail("datetime-text-in-a-locale", hx::cat(v, " ns prints ", w));
        const std::string d = at(v).to_string<ch::nanoseconds>();
        if (ns_of(tcs::datetime::from_string<ch::nanoseconds>(d)) != v)
            hx::fail("datetime-round-trip-in-a-locale", hx::cat(v, " ns prints ", d));
    }
}

void text(uint64_t seed)
{
    hx::rng r(seed);
    choose_zone(seed >> 7);
    if (r.chance(25))
        text_elsewhere(r);
    text_date(r);
    text_date(r);
    text_time<ch::hours>(r);
    text_time<ch::minutes>(r);
    text_time<ch::seconds>(r);
    text_time<ch::milliseconds>(r);
    text_time<ch::microseconds>(r);
    text_time<ch::nanoseconds>(r);
    text_datetime<ch::seconds>(r);
    text_datetime<ch::milliseconds>(r);
    text_datetime<ch::microseconds>(r);
    text_datetime<ch::nanoseconds>(r);
    text_delta<ch::seconds>(r);
    text_delta<ch::milliseconds>(r);
    text_delta<ch::microseconds>(r);
    text_delta<ch::nanoseconds>(r);
}
#endif

} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
#if !defined(ONLY) || ONLY == 24
        {"cal", cal},
#endif
#if !defined(ONLY) || ONLY == 25
        {"tod", tod},
#endif
#if !defined(ONLY) || ONLY == 26
        {"inst", inst},
#endif
#if !defined(ONLY) || ONLY == 27
        {"delta", delta_mode},
#endif
#if !defined(ONLY) || ONLY == 28
        {"text", text},
#endif
    });
}
