// uuid: C19 (created uuids), C20 (text forms and ordering).
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/uuid.hpp>
#include <teiacare/sdk/uuid_generator.hpp>

#include <algorithm>
#include <array>
#include <cstring>
#include <memory>
#include <random>
#include <sys/random.h>
#include <sys/wait.h>
#include <unistd.h>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

// What the library reads when it uses std::random_device: real randomness, or a sequence chosen by the harness.
namespace
{
struct
{
    bool scripted = false;
    uint64_t seed = 0, n = 0;
    int changed = -1;
} device;
}
std::random_device::result_type std::random_device::_M_getval()
{
    uint32_t v = 0;
    if (!device.scripted)
    {
        if (getrandom(&v, sizeof v, 0) != sizeof v)
            abort();
        return v;
    }
    uint64_t x = device.seed * 1000003 + device.n;
    v = (uint32_t)hx::mix(x);
    if ((int64_t)device.n == device.changed)
        v = ~v; // every bit: some of them may be replaced by the version and the variant
    ++device.n;
    return v;
}

namespace
{
using bytes_t = std::array<uint8_t, 16>;

int hexval(char c)
{
    const char* lower = "0123456789abcdef";
    const char* upper = "0123456789ABCDEF";
    for (int i = 0; i < 16; ++i)
        if (c == lower[i] || c == upper[i])
            return i;
    return -1;
}
// The specification: 32 hex digits, any '-' anywhere, optionally one pair of braces around everything.
std::optional<bytes_t> spec(std::string_view s)
{
    if (!s.empty() && s.front() == '{')
    {
        if (s.size() < 2 || s.back() != '}')
            return std::nullopt;
        s = s.substr(1, s.size() - 2);
    }
    std::string digits;
    for (char c : s)
        if (c != '-')
        {
            if (hexval(c) < 0)
                return std::nullopt;
            digits += c;
        }
    if (digits.size() != 32)
        return std::nullopt;
    bytes_t b;
    for (int i = 0; i < 16; ++i)
        b[(size_t)i] = (uint8_t)(hexval(digits[2 * (size_t)i]) * 16 + hexval(digits[2 * (size_t)i + 1]));
    return b;
}
std::string text_of(const bytes_t& b)
{
    std::string s;
    for (size_t i = 0; i < 16; ++i)
    {
        if (i == 4 || i == 6 || i == 8 || i == 10)
            s += '-';
        s += "0123456789abcdef"[b[i] >> 4];
        s += "0123456789abcdef"[b[i] & 15];
    }
    return s;
}
bytes_t bytes_of(const std::string& text)
{
    auto b = spec(text);
    if (!b)
        hx::fail("text-form", hx::cat("to_string() gave ", hx::quote(text)));
    return *b;
}

// A string_view whose bounds are watched: exactly as long as its heap block.
struct guarded
{
    std::unique_ptr<char[]> p;
    size_t n;
    explicit guarded(const std::string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p.get(), s.data(), s.size()); }
    std::string_view view() const { return {p.get(), n}; }
};

void check_created(const tc::sdk::uuid& u, tc::sdk::uuid_generator& g)
{
    const std::string t = u.to_string();
    const bytes_t b = bytes_of(t);
    if (t.size() != 36 || t != text_of(b))
        hx::fail("text-form", hx::cat("to_string() gave ", hx::quote(t)));
    if (b[6] >> 4 != 4)
        hx::fail("version", "created " + t);
    if (b[8] >> 6 != 2)
        hx::fail("variant", "created " + t);
    if (!g.is_valid(t))
        hx::fail("created-not-valid", "created " + t);
    if (!(g.from_string(t) == u))
        hx::fail("round-trip", "created " + t);
}

struct b_hash
{
    size_t operator()(const bytes_t& b) const
    {
        uint64_t x, y;
        memcpy(&x, b.data(), 8);
        memcpy(&y, b.data() + 8, 8);
        return x * 0x9E3779B97F4A7C15ull ^ y;
    }
};
std::unordered_set<bytes_t, b_hash>& all_created()
{
    static std::unordered_set<bytes_t, b_hash> s;
    return s;
}
void distinct(const std::string& t)
{
    auto& s = all_created();
    if (!s.insert(bytes_of(t)).second)
        hx::fail("duplicate-uuid", "created twice in one process: " + t);
    if (s.size() > 4000000)
        s.clear();
}

void create_iter(uint64_t seed)
{
    hx::rng r(seed);
    auto& g = tc::sdk::uuid_generator::instance();
    tc::sdk::uuid_generator copy = g;
    const int N = 1024;
    std::vector<bytes_t> v;
    for (int i = 0; i < N; ++i)
    {
        tc::sdk::uuid u;
        switch (r.below(4))
        {
        case 0: u = copy.create(); break;
        case 1: u = tc::sdk::uuid_generator::instance().create(); break;
        default: u = g.create();
        }
        check_created(u, g);
        distinct(u.to_string());
        v.push_back(bytes_of(u.to_string()));
    }
    // bit columns over the sample
    using col = std::array<uint64_t, N / 64>;
    std::vector<col> cols;
    std::vector<int> where;
    for (int bit = 0; bit < 128; ++bit)
    {
        if ((bit >= 48 && bit < 52) || bit == 64 || bit == 65)
            continue; // version, variant
        col c{};
        int ones = 0;
        for (int i = 0; i < N; ++i)
            if (v[(size_t)i][(size_t)bit / 8] >> (7 - bit % 8) & 1)
            {
                c[(size_t)i / 64] |= 1ull << (i % 64);
                ++ones;
            }
        if (ones == 0 || ones == N)
            hx::fail("constant-bit", hx::cat("bit ", bit, " was ", ones ? 1 : 0, " in ", N, " created uuids"));
        cols.push_back(c);
        where.push_back(bit);
    }
    for (size_t i = 0; i < cols.size(); ++i)
        for (size_t j = i + 1; j < cols.size(); ++j)
        {
            int diff = 0;
            for (size_t k = 0; k < cols[i].size(); ++k)
                diff += __builtin_popcountll(cols[i][k] ^ cols[j][k]);
            if (diff == 0 || diff == N)
                hx::fail("tied-bits", hx::cat("bits ", where[i], " and ", where[j], " were always ", diff ? "different" : "equal", " in ", N, " created uuids"));
        }
    hx::count("created", (uint64_t)N);
    hx::count("bit_pairs", cols.size() * (cols.size() - 1) / 2);
    hx::state(hx::hash_str(text_of(v[0])));
    if (hx::want_sample())
        hx::sample(text_of(v[0]) + " " + text_of(v[1]) + " ...");
}

void conc_iter(uint64_t seed)
{
    hx::rng r(seed);
    const int n = (int)r.in(2, 5), per = (int)r.in(1, 12);
    ds::run(ds::random_config(seed), [&] {
        std::vector<std::vector<std::string>> got((size_t)n);
        std::vector<std::thread> th;
        for (int i = 0; i < n; ++i)
            th.emplace_back([&, i] {
                auto& g = tc::sdk::uuid_generator::instance();
                tc::sdk::uuid_generator own = g;
                for (int k = 0; k < per; ++k)
                {
                    const tc::sdk::uuid u = (seed + (uint64_t)k) % 3 ? g.create() : own.create();
                    check_created(u, g);
                    got[(size_t)i].push_back(u.to_string());
                }
            });
        for (auto& t : th)
            t.join();
        for (auto& v : got)
            for (auto& s : v)
                distinct(s);
    });
    hx::count("created", (uint64_t)(n * per));
    hx::state(ds::trace_hash());
}

// ------------------------------------------------------------------------------------------------ text
std::string random_hex(hx::rng& r, int n)
{
    std::string s;
    const int style = (int)r.below(9);
    if (style == 8) // one digit throughout, such as the nil and the max uuid
    {
        const char* all = "0f1F0a8f";
        return std::string((size_t)n, all[r.below(8)]);
    }
    for (int i = 0; i < n; ++i)
    {
        const char* set = style % 4 == 0 ? "0123456789abcdef" : style % 4 == 1 ? "0123456789ABCDEF" : style % 4 == 2 ? "0123456789abcdefABCDEF" : "0f9aF";
        s += set[r.below(strlen(set))];
    }
    return s;
}
std::string random_text(hx::rng& r)
{
    std::string s = random_hex(r, r.chance(75) ? 32 : (int)r.pick({0, 1, 2, 16, 30, 31, 33, 34, 36, 48, 64}));
    auto insert = [&](const std::string& x) { s.insert(r.below(s.size() + 1), x); };
    if (r.chance(40) && s.size() >= 32)
        for (int p : {20, 16, 12, 8})
            s.insert((size_t)p, "-");
    for (int i = r.chance(40) ? (int)r.below(8) : 0; i > 0; --i)
        insert("-");
    if (r.chance(10))
        s = "--" + s;
    if (r.chance(10))
        s += "---";
    if (r.chance(10)) // long ones
        insert(std::string((size_t)(r.chance(50) ? r.in(1, 40) : r.in(180, 300)), '-'));
    if (r.chance(3))
        for (int i = (int)r.below(300); i > 0; --i)
            insert("-");
    if (r.chance(25)) // a foreign character, often next to the hexadecimal ones
    {
        static const char raw[] = "/:@G`gZz \t\n\0\x80\xff{}[]()_.+xX#";
        static const std::string odd(raw, sizeof raw - 1);
        const std::string c(1, odd[r.below(odd.size())]);
        if (r.chance(50) || s.empty())
            insert(c);
        else
            s[r.below(s.size())] = c[0];
    }
    switch (r.below(12))
    {
    case 0:
    case 1:
    case 2: s = "{" + s + "}"; break;
    case 3: s = "{" + s; break;
    case 4: s = s + "}"; break;
    case 5: s = r.chance(50) ? "{{" + s + "}}" : "{}" + s; break;
    case 6: s = r.pick<std::string>({"", "{", "}", "{}", "-", "--", "{-}", "}{"}); break;
    default: break;
    }
    return s;
}

void text_iter(uint64_t seed)
{
    hx::rng r(seed);
    auto& g = tc::sdk::uuid_generator::instance();
    for (int k = 0; k < 20; ++k)
    {
        const std::string s = random_text(r);
        const guarded gs(s);
        const auto want = spec(s);
        const bool valid = g.is_valid(gs.view());
        if (valid != want.has_value())
            hx::fail("is-valid", hx::cat("is_valid(", hx::quote(s), ") is ", valid));
        std::optional<tc::sdk::uuid> u;
        try
        {
            u = g.from_string(gs.view());
        }
        catch (const std::runtime_error&)
        {
        }
        catch (...)
        {
            hx::fail("wrong-exception", hx::cat("from_string(", hx::quote(s), ") threw something that is not a std::runtime_error"));
        }
        if (u.has_value() != want.has_value())
            hx::fail("from-string", hx::cat("from_string(", hx::quote(s), u ? ") was accepted" : ") threw"));
        if (u)
        {
            if (u->to_string() != text_of(*want))
                hx::fail("from-string-value", hx::cat("from_string(", hx::quote(s), ") is ", u->to_string(), " instead of ", text_of(*want)));
            if (!(g.from_string(u->to_string()) == *u))
                hx::fail("round-trip", u->to_string());
            std::ostringstream os;
            os << *u;
            if (os.str() != u->to_string())
                hx::fail("stream", os.str());
            hx::count("accepted");
        }
        else
            hx::count("rejected");
        hx::state(hx::hash_str(s));
        if (hx::want_sample() && k == 3)
            hx::sample(hx::quote(s) + (want ? " accepted" : " rejected"));
    }
    // ordering: random, sharing prefixes, differing in one byte
    std::vector<tc::sdk::uuid> v;
    std::vector<bytes_t> b;
    bytes_t x;
    for (auto& c : x)
        c = (uint8_t)r.below(256);
    for (int k = 0; k < 6; ++k)
    {
        bytes_t y = x;
        if (r.chance(80))
        {
            const size_t from = r.below(16);
            y[from] = r.pick<uint8_t>({0, 1, 0x7f, 0x80, 0xff, (uint8_t)(y[from] + 1)});
            if (r.chance(50))
                for (size_t i = from + 1; i < 16; ++i)
                    y[i] = (uint8_t)r.below(256);
        }
        b.push_back(y);
        v.push_back(g.from_string(text_of(y)));
    }
    v.push_back(tc::sdk::uuid{});
    b.push_back(bytes_t{});
    b.emplace_back().fill(0xff);
    v.push_back(g.from_string(text_of(b.back())));
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < v.size(); ++j)
        {
            const std::string ti = v[i].to_string(), tj = v[j].to_string();
            if (ti != text_of(b[i]))
                hx::fail("text-form", ti);
            const bool ok = (v[i] == v[j]) == (ti == tj) && (v[i] != v[j]) == (ti != tj) && (v[i] < v[j]) == (ti < tj) && (v[i] > v[j]) == (ti > tj) && (v[i] <= v[j]) == (ti <= tj) && (v[i] >= v[j]) == (ti >= tj);
            if (!ok)
                hx::fail("ordering", hx::cat("comparisons of ", ti, " and ", tj, " disagree with their texts"));
            hx::count("pairs_compared");
        }
    tc::sdk::uuid c = v[0], m = std::move(c);
    c = v[1];
    if (!(m == v[0]) || !(c == v[1]))
        hx::fail("copy", "a copied uuid differs");
}

// ------------------------------------------------------------------------------------------------------- entropy
// The first uuid of a process, when its random device delivers a chosen sequence of words. The generator is created once
// per process: each is asked in a child of its own.
bytes_t first_uuid(uint64_t seed, int changed)
{
    int fd[2];
    if (pipe(fd))
        hx::abandon("no pipe");
    const pid_t child = fork();
    if (child < 0)
        hx::abandon("no process");
    if (child == 0)
    {
        device.scripted = true;
        device.seed = seed;
        device.changed = changed;
        const std::string t = tc::sdk::uuid_generator::instance().create().to_string();
        bytes_t b{};
        if (auto v = spec(t))
            b = *v;
        [[maybe_unused]] auto n = write(fd[1], b.data(), b.size());
        _exit(0);
    }
    close(fd[1]);
    bytes_t b{};
    const auto n = read(fd[0], b.data(), b.size());
    close(fd[0]);
    int status = 0;
    waitpid(child, &status, 0);
    if (n != 16 || status != 0)
        hx::fail("no-uuid", "a process could not create its first uuid");
    return b;
}
void entropy_iter(uint64_t seed)
{
    const bytes_t base = first_uuid(seed, -1);
    for (int j = 0; j < 4; ++j)
    {
        if (first_uuid(seed, j) == base)
            hx::fail("too-little-randomness", hx::cat("the first uuid of a process is the same whatever word number ", j + 1, " of its random device is: it cannot have 122 random bits, and the uuids of different processes collide"));
        hx::count("words_varied");
    }
    hx::state(seed);
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
        {"create", create_iter},
        {"conc", conc_iter},
        {"entropy", entropy_iter},
        {"text", text_iter},
    });
}
