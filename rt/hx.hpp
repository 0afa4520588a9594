// Harness runtime: verdict reporting, statistics, event recording. Implemented in hx.cpp, which is compiled without any
// sanitizer so that recording adds no happens-before edges that could hide a race in the library.
#pragma once
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <locale>
#include <sstream>
#include <string>
#include <vector>

namespace hx
{
// Report a violation of the property and end the process. key: stable identification of what failed; detail: the witness.
[[noreturn]] void fail(const std::string& key, const std::string& detail);
// Stop this worker early without a verdict (what happened is outside the property being decided).
[[noreturn]] void abandon(const std::string& why);
// What a deadlock/livelock found by the controlled scheduler means for the property being decided (default: violation).
void stuck_is_violation(bool yes);
void count(const char* name, uint64_t n = 1); // statistics
void maxi(const char* name, uint64_t v);      // statistics: maximum
void state(uint64_t hash);                    // distinct non-trivial cases
void sample(const std::string& text);         // written-out cases for the evidence file (the first few are kept)
bool want_sample();
bool verbose();
bool thorough();

struct mode
{
    const char* name;
    std::function<void(uint64_t seed)> fn;
};
int main_(int argc, char** argv, std::vector<mode> modes);

inline uint64_t mix(uint64_t& x)
{
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
struct rng
{
    uint64_t s;
    explicit rng(uint64_t seed) : s(seed * 0x2545F4914F6CDD1Dull + 0x632BE59BD9B4E019ull) { mix(s); }
    uint64_t u64() { return mix(s); }
    uint64_t below(uint64_t n) { return n ? mix(s) % n : 0; }
    int64_t in(int64_t lo, int64_t hi) { return lo + (int64_t)(mix(s) % ((uint64_t)(hi - lo) + 1)); }
    bool chance(unsigned percent) { return below(100) < percent; }
    template <typename C> auto& pick(C& c) { return c[below(c.size())]; }
    template <typename T> T pick(std::initializer_list<T> c) { return *(c.begin() + below(c.size())); }
};
inline uint64_t hash64(uint64_t h, uint64_t v)
{
    uint64_t x = h ^ (v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2));
    return mix(x);
}
inline uint64_t hash_str(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}
// a program that has chosen another locale for its streams: the texts the library writes and reads do not depend on it
class other_locale
{
    struct marks : std::numpunct<char>
    {
        char do_decimal_point() const override { return ','; }
        char do_thousands_sep() const override { return '.'; }
        std::string do_grouping() const override { return "\3"; }
        std::string do_truename() const override { return "wahr"; }
        std::string do_falsename() const override { return "falsch"; }
    };
    bool _on;

public:
    explicit other_locale(bool on) : _on(on)
    {
        if (_on)
            std::locale::global(std::locale(std::locale::classic(), new marks));
    }
    ~other_locale()
    {
        if (_on)
            std::locale::global(std::locale::classic());
    }
    other_locale(const other_locale&) = delete;
    other_locale& operator=(const other_locale&) = delete;
};

template <typename... T>
std::string cat(T&&... t)
{
    std::ostringstream o;
    o.imbue(std::locale::classic());
    (o << ... << t);
    return o.str();
}
inline std::string quote(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
        if (c == '"' || c == '\\')
            (o += '\\') += (char)c;
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
        else
            o += (char)c;
    return o + "\"";
}
} // namespace hx

namespace rec
{
struct ev
{
    int kind;
    int tid;
    int64_t a, b, c, d;
    uint64_t time; // virtual clock
};
void reset();
int add(int kind, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0); // returns the event's number (real-time order)
int size();
const ev& at(int i);
// shared integers that the sanitizers do not see
constexpr int NVARS = 4096;
int64_t get(int i);
void set(int i, int64_t v);
int64_t inc(int i, int64_t d = 1); // returns the new value
} // namespace rec
