// singleton: C38. Every execution uses a class of its own, so that its first use happens under a controlled schedule.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/service_locator.hpp>
#include <teiacare/sdk/singleton.hpp>
#include <teiacare/sdk/uuid_generator.hpp>

#include <algorithm>
#include <array>
#include <string>
#include <thread>
#include <utility>
#include <vector>

namespace
{
constexpr int TYPES = 250;                        // iterations per process are bounded by "chunk" in checks.py
enum var { BUILT = 1, LIVE, THROWS, RETURNED, CAUGHT }; // + 8 * depth
struct boom
{
};
int throws_planned = 0, depth_planned = 0;
bool yields = true;

template <int N, int D>
class thing : public tc::sdk::singleton<thing<N, D>>
{
    friend class tc::sdk::singleton<thing<N, D>>;
    thing()
    {
        rec::inc(BUILT + 8 * D);
        a = 17 * (N + 1);
        if (yields)
            ds::point();
        if constexpr (D > 0)
            if (depth_planned >= D)
                inner = &thing<N, D - 1>::instance(); // a singleton that uses another one
        text = "text that lives on the heap, of number " + std::to_string(N);
        if (rec::inc(THROWS + 8 * D) <= throws_planned)
            throw boom{};
        if (yields)
            ds::sleep_for(1000);
        b = ~a;
        rec::inc(LIVE + 8 * D);
    }

public:
    int a = 0, b = 0;
    void* inner = nullptr;
    std::string text;
    int calls = 0; // not synchronised: only used by one thread
    bool whole() const { return a == 17 * (N + 1) && b == ~a && text == "text that lives on the heap, of number " + std::to_string(N); }
};
template <int N, int D>
bool use(void*& at)
{
    auto& t = thing<N, D>::instance();
    at = &t;
    return t.whole() && &thing<N, D>::instance() == &t;
}
struct entry
{
    bool (*use[2])(void*&);
};
template <int... N>
std::array<entry, sizeof...(N)> table(std::integer_sequence<int, N...>)
{
    return {entry{{use<N, 0>, use<N, 1>}}...};
}
const auto types = table(std::make_integer_sequence<int, TYPES>());
int next_type = 0;

void first_use(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    const int type = next_type++ % TYPES;
    throws_planned = r.chance(25) ? (int)r.in(1, 2) : 0;
    depth_planned = r.chance(50) ? 1 : 0;
    yields = r.chance(80);
    const int nt = (int)r.in(2, 5);
    const bool fresh = next_type <= TYPES;
    ds::run(cfg, [&] {
        std::vector<std::thread> th;
        std::vector<std::array<std::vector<void*>, 2>> seen((size_t)nt);
        for (int t = 0; t < nt; ++t)
            th.emplace_back([&, t] {
                hx::rng rr(seed * 31 + (uint64_t)t);
                for (int k = 0, n = (int)rr.in(1, 4); k < n; ++k)
                {
                    const int d = (int)rr.below(2);
                    try
                    {
                        void* at = nullptr;
                        if (!types[(size_t)type].use[d](at))
                            hx::fail("incomplete-object", hx::cat("thread ", t, " was given an object that is not completely constructed (or two different ones in a row)"));
                        seen[(size_t)t][(size_t)d].push_back(at);
                        rec::inc(RETURNED);
                    }
                    catch (const boom&)
                    {
                        rec::inc(CAUGHT);
                    }
                }
            });
        for (auto& t : th)
            t.join();
        for (int d = 0; d < 2; ++d)
        {
            void* one = nullptr;
            for (auto& s : seen)
                for (void* p : s[(size_t)d])
                {
                    if (one && p != one)
                        hx::fail("two-objects", "two callers were given different objects");
                    one = p;
                }
            const int live = (int)rec::get(LIVE + 8 * d);
            if (fresh && (live > 1 || (one && live != 1)))
                hx::fail("constructed-more-than-once", hx::cat(live, " objects were constructed for ", one ? "one address" : "nobody"));
            if (fresh && rec::get(BUILT + 8 * d) > live + throws_planned * (1 + d))
                hx::fail("constructed-more-than-once", hx::cat(rec::get(BUILT + 8 * d), " constructions were begun"));
        }
        if (fresh)
        {
            int failed = 0;
            for (int d = 0; d < 2; ++d)
                failed += (int)std::min<int64_t>(rec::get(THROWS + 8 * d), throws_planned);
            hx::count("first_uses");
            hx::count("constructor_exceptions", (uint64_t)failed);
            // an exception of a constructor reaches exactly the caller that ran it
            if (failed != (int)rec::get(CAUGHT))
                hx::fail("constructor-exception", hx::cat(failed, " constructions threw and ", rec::get(CAUGHT), " callers caught it"));
        }
        hx::count("uses", (uint64_t)rec::get(RETURNED));
        // the library's own shared objects
        if (&tc::sdk::service_locator::instance() != &tc::sdk::service_locator::instance() || &tc::sdk::uuid_generator::instance() != &tc::sdk::uuid_generator::instance())
            hx::fail("two-objects", "the library's own instances");
        hx::state(hx::hash64(ds::trace_hash(), (uint64_t)type));
        if (hx::want_sample())
            hx::sample(hx::cat("type ", type, ", ", nt, " threads, ", rec::get(RETURNED), " uses, ", rec::get(CAUGHT), " exceptions, ", ds::switches(), " switches"));
    });
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {{"first", first_use}});
}
