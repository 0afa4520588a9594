// rate_limiter: C16, in virtual time, against exact rational deadlines.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/rate_limiter.hpp>

#include <string>
#include <thread>
#include <vector>

namespace
{
using i128 = __int128;

size_t pick_rate(hx::rng& r)
{
    switch (r.below(6))
    {
    case 0: return r.pick<size_t>({1, 2, 3, 7, 24, 25, 30, 50, 59, 60, 100, 120, 144, 1000});
    case 1: return (size_t)r.in(1, 1000);
    case 2: return (size_t)r.in(1, 1000000);
    case 3: return (size_t)r.in(999999000, 1000001000);
    case 4: return (size_t)r.in(1, 4000000000);
    default: return (size_t)1 << r.below(40);
    }
}

void run(uint64_t seed, bool jitter)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.clock_tick = jitter ? (uint64_t)r.pick({0, 1, 50, 1000}) : 0;
    if (jitter)
    {
        cfg.spurious_permille = r.pick({0, 100});
        cfg.oversleep_max = (uint64_t)r.pick({0, 1000, 10000000});
        cfg.point_tick_max = (uint64_t)r.pick({0, 100});
    }
    // time since boot when the limiter is created: from seconds to a year
    cfg.start_time = r.pick<uint64_t>({1000000000ull, 1000000000000ull, 86400ull * 1000000000ull, 10000000ull * 1000000000ull, 31536000ull * 1000000000ull}) + r.below(1000000000);
    const size_t rate = pick_rate(r);
    const int style = (int)r.below(6);
    const int frames = r.chance(20) ? (int)r.in(500, 3000) : (int)r.in(3, 60);
    const uint64_t period = std::max<uint64_t>(1, 1000000000ull / rate);
    std::string log = hx::cat("rate ", rate, ", created at ", cfg.start_time, " ns:");
    uint64_t h = hx::hash64(rate, (uint64_t)style);
    ds::run(cfg, [&] {
        const i128 T0 = ds::now();
        tc::sdk::rate_limiter rl(rate);
        uint64_t late = 0, ahead = 0;
        for (int n = 1; n <= frames; ++n)
        {
            uint64_t work = 0;
            switch (style)
            {
            case 0: work = 0; break;
            case 1: work = r.below(period); break;
            case 2: work = r.chance(10) ? period * r.below(20) + r.below(period) : r.below(period / 2 + 1); break; // now and then a hiccup
            case 3: work = period; break;
            case 4: work = r.chance(4) ? r.below(r.pick<uint64_t>({2'000'000'000, 600'000'000'000, 200'000'000'000'000})) : r.below(period + 1); break; // a suspension, seconds to days long
            default: work = period + r.below(period); // always late
            }
            h = hx::hash64(h, work);
            if (work)
            {
                if (r.chance(50))
                    ds::sleep_for(work);
                else
                    ds::advance(work);
            }
            const i128 call = ds::now();
            rl.sync();
            const i128 ret = ds::now();
            auto what = [&] { return hx::cat(log, " frame ", n, " took ", work, ", sync called at T+", (int64_t)(call - T0), " returned at T+", (int64_t)(ret - T0), ", due at T+", n, "/", rate, " s = ", (int64_t)((i128)n * 1000000000 / rate)); };
            // exact deadline: T0 + n * 1e9 / rate, compared without rounding (scaled by rate)
            const i128 R = (i128)rate, due = (i128)n * 1000000000;
            if ((ret - T0 + 1) * R < due)
                hx::fail("early", what());
            if (!jitter)
            {
                if ((call - T0) * R >= due)
                {
                    ++late;
                    if (ret != call && (ret - T0 - 1) * R > due) // a deadline rounded up by one tick is not a late one
                        hx::fail("slept-although-late", what());
                }
                else
                {
                    ++ahead;
                    if ((ret - T0 - 1) * R > due)
                        hx::fail("overslept", what());
                }
            }
        }
        hx::count("frames", (uint64_t)frames);
        hx::count("interrupted_sleeps", ds::interrupts());
        hx::count("late_frames", late);
        hx::count("frames_ahead", ahead);
    });
    hx::state(h);
    if (hx::want_sample())
        hx::sample(hx::cat(log, " ", frames, " frames, work style ", style));
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
        {"exact", [](uint64_t s) { run(s, false); }},
        {"jitter", [](uint64_t s) { run(s, true); }},
    });
}
