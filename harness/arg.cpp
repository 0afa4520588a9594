// argparse: C21 (binding), C22 (robustness), C23 (precedence).
// The workload is generated together with its meaning: every command-line item carries the declaration and the value it stands
// for (or that it is an error, or a request to quit), so the oracle never parses a command line itself.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/argparse/argument_parser.hpp>

#include <cmath>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <iostream>
#include <limits>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <vector>

namespace
{
struct temperature // a user type with stream extraction
{
    int v = 0;
    friend std::istream& operator>>(std::istream& i, temperature& t) { return i >> t.v; }
    friend bool operator==(const temperature&, const temperature&) = default;
};

std::string hexf(double d)
{
    char b[64];
    snprintf(b, sizeof b, "%a", d);
    return b;
}

std::string word(hx::rng& r, bool first_dash_ok)
{
    static const char* const fixed[] = {"two", "a=b", "=", "x=", "==y", "a,b", "file name.txt", "C:\\dir\\f", "/usr/lib", "../x", "--", "-", "--help", "-h", "-v", "--output=3", "-5", "héllo", "\"q\"", "%n%s", "0", "a\tb", "x\ny", "true", "*", "$HOME"};
    std::string s;
    if (r.chance(50))
        s = fixed[r.below(std::size(fixed))];
    else
        for (int i = 0, n = (int)r.in(1, r.chance(5) ? (r.chance(5) ? 20000 : 300) : 12); i < n; ++i)
            s += r.chance(80) ? (char)r.in('a', 'z') : "=-_.,:/ \\'\"%$ABC019"[r.below(19)];
    if (!first_dash_ok && s[0] == '-')
        s = "w" + s;
    return s;
}

// gen(): a text and the value it denotes; bad(): a text that denotes no value of the type ("" = there is none)
template <typename T>
struct tr;
template <typename T, bool prefix>
struct integer
{
    static std::pair<std::string, T> gen(hx::rng& r)
    {
        T v;
        switch (r.below(4))
        {
        case 0: v = std::numeric_limits<T>::max() - (T)r.below(2); break;
        case 1: v = std::numeric_limits<T>::min() + (T)r.below(2); break;
        case 2: v = (T)r.below(10); break;
        default: v = (T)r.u64();
        }
        std::string t = std::to_string(v);
        if (r.chance(10) && v >= 0)
            t = std::string(r.in(1, 3), '0') + t;
        if (prefix && r.chance(10) && v >= 0)
            t = "+" + t;
        if (prefix && r.chance(20))
            t += r.pick({"x", ".75", "e3", " ", ";4", "abc", "-1", "=7", "%", "q0"});
        return {t, v};
    }
    static std::string bad(hx::rng& r)
    {
        if (!prefix && r.chance(40))
            return std::to_string((T)r.below(100)) + r.pick({"x", ".5", "e3", ";4", "abc", "=7", ".234", ".001.000"});
        if (r.chance(35))
        {
            // beyond the type, by a little or by a multiple of what fits
            const __int128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(), span = hi - lo + 1;
            __int128 v = r.chance(50) ? hi + 1 + r.below(3) : r.chance(50) ? hi + 1 + r.below(1u << 20) : (__int128)(T)r.below(1000) + span * (__int128)r.in(1, 5);
            if (lo < 0 && r.chance(50))
                v = lo - 1 - (v - hi - 1);
            std::string t;
            for (unsigned __int128 a = v < 0 ? -(unsigned __int128)v : (unsigned __int128)v; a; a /= 10)
                t.insert(t.begin(), (char)('0' + (int)(a % 10)));
            return v < 0 ? "-" + t : t;
        }
        const std::string big = "99999999999999999999999"; // beyond every integer type
        return r.pick<std::string>({"abc", "x1", ".5x", "=3", "_", "q", "e5", big, "é"});
    }
    static std::string show(const T& v) { return std::to_string(v); }
};
template <> struct tr<int> : integer<int, true> {};
template <> struct tr<long> : integer<long, false> {};
template <> struct tr<short> : integer<short, false> {};
template <> struct tr<unsigned> : integer<unsigned, false> {};
template <> struct tr<unsigned long long> : integer<unsigned long long, false> {};
template <typename F>
struct floating
{
    static std::pair<std::string, F> gen(hx::rng& r)
    {
        F v = r.chance(30) ? (F)r.in(-1000, 1000) / (F)8 : (F)((double)r.in(-1000000000, 1000000000) * std::pow(10.0, (double)r.in(-20, 20)));
        char b[64];
        snprintf(b, sizeof b, sizeof(F) == 4 ? "%.9g" : "%.17g", (double)v);
        std::string t = b;
        if (r.chance(20))
            t += r.pick({"q", "_", ";", " m", "%", "=1", "s", "-2"});
        return {t, v};
    }
    static std::string bad(hx::rng& r) { return r.pick<std::string>({"abc", "x1", "=3", "_", "q", "e5", ".", "é", "1e999999", "--1", sizeof(F) == 4 ? "1e39" : "1e309", sizeof(F) == 4 ? "-7e38" : "-7e308"}); }
    static std::string show(const F& v) { return hexf((double)v); }
};
template <> struct tr<float> : floating<float> {};
template <> struct tr<double> : floating<double> {};
template <>
struct tr<std::string>
{
    static std::pair<std::string, std::string> gen(hx::rng& r)
    {
        auto w = r.chance(6) ? std::string() : word(r, true);
        return {w, w};
    }
    static std::string bad(hx::rng&) { return ""; }
    static std::string show(const std::string& v) { return hx::quote(v); }
};
template <>
struct tr<std::filesystem::path>
{
    static std::pair<std::string, std::filesystem::path> gen(hx::rng& r)
    {
        auto w = r.chance(6) ? std::string() : word(r, true);
        return {w, std::filesystem::path(w)};
    }
    static std::string bad(hx::rng&) { return ""; }
    static std::string show(const std::filesystem::path& v) { return hx::quote(v.native()); }
};
template <>
struct tr<bool>
{
    static std::pair<std::string, bool> gen(hx::rng& r)
    {
        bool b = r.chance(50);
        return {b ? "1" : "0", b};
    }
    static std::string bad(hx::rng& r) { return r.pick({"2", "x", "yes", "1 1", "01x"}); }
    static std::string show(const bool& v) { return v ? "1" : "0"; }
};
template <>
struct tr<char>
{
    static std::pair<std::string, char> gen(hx::rng& r)
    {
        char c = (char)r.pick({'a', 'z', '0', '9', '=', '#', '~', 'A'});
        return {std::string(1, c), c};
    }
    static std::string bad(hx::rng& r) { return r.pick({"ab", "x1", "a=", "00"}); }
    static std::string show(const char& v) { return std::to_string((int)v); }
};
template <>
struct tr<temperature>
{
    static std::pair<std::string, temperature> gen(hx::rng& r)
    {
        int v = (int)r.in(-50, 50);
        return {std::to_string(v), temperature{v}};
    }
    static std::string bad(hx::rng& r) { return r.pick({"12C", "cold", "1.5", "=1"}); }
    static std::string show(const temperature& v) { return std::to_string(v.v); }
};
template <typename E>
struct tr<std::vector<E>>
{
    static std::string no_comma(std::string s)
    {
        for (char& c : s)
            if (c == ',')
                c = '+';
        return s;
    }
    static std::pair<std::string, std::vector<E>> gen(hx::rng& r)
    {
        std::pair<std::string, std::vector<E>> p;
        const int n = (int)r.in(1, r.chance(5) ? (r.chance(3) ? 3000 : 200) : 5);
        for (int i = 0; i < n; ++i)
        {
            auto [t, v] = tr<E>::gen(r);
            if constexpr (std::is_same_v<E, std::string>)
            {
                t = no_comma(t);
                if (n > 1 && i + 1 < n && r.chance(10))
                    t = ""; // an empty element between commas
                if (t.empty() && i + 1 == n)
                    t = "z";
                v = t;
            }
            p.first += (i ? "," : "") + t;
            p.second.push_back(v);
        }
        if (r.chance(10))
            p.first += ","; // a trailing comma adds no element
        return p;
    }
    static std::string bad(hx::rng& r)
    {
        std::string b = tr<E>::bad(r);
        if (b.empty())
            return "";
        auto g = [&] { return tr<E>::gen(r).first; };
        switch (r.below(3))
        {
        case 0: return b;
        case 1: return g() + "," + b;
        default: return g() + "," + b + "," + g();
        }
    }
    static std::string show(const std::vector<E>& v)
    {
        std::string s = "[";
        for (const E& e : v)
            s += tr<E>::show(e) + ";";
        return s + "]";
    }
};

struct boom
{
    int x;
};

enum kind_t
{
    POSITIONAL,
    OPTION,
    FLAG
};

std::string describe_it(hx::rng& r, const std::string& name)
{
    switch (r.below(6))
    {
    case 0:
    case 1: return "";
    case 2: return "description of " + name;
    case 3: return "a longer description (of " + name + "), with punctuation; 100% of it: [env:HOME] --help <x>";
    case 4: return std::string(1, (char)r.in('a', 'z'));
    default: return "größe \"" + name + "\"\tin\\cm";
    }
}

struct decl
{
    kind_t kind = OPTION;
    std::string name, env, type;
    char sname = 0;
    bool required = false;
    int validator = 0; // 0 none, 1 rejects by hash of the value, 2 likewise but throwing std::exception, 3 throwing something else
    std::string deflt; // shown default
    std::string desc;
    const tc::sdk::argument_base* arg = nullptr; // the argument itself, where the program made it and handed it over
    virtual ~decl() = default;
    virtual void add(tc::sdk::argument_parser&, hx::rng&) = 0;
    virtual std::pair<std::string, std::string> gen(hx::rng&) = 0; // text, shown value
    virtual std::string bad(hx::rng&) = 0;
    virtual std::string show() const = 0;
    static bool accepts(const std::string& shown) { return hx::hash_str(shown) % 3 != 0; }
    bool valid(const std::string& shown) const { return validator == 0 || accepts(shown); }
};

template <typename T>
struct decl_t : decl
{
    T var{};
    explicit decl_t(const char* t) { type = t; }
    std::pair<std::string, std::string> gen(hx::rng& r) override
    {
        auto [t, v] = tr<T>::gen(r);
        return {t, tr<T>::show(v)};
    }
    std::string bad(hx::rng& r) override { return tr<T>::bad(r); }
    std::string show() const override { return tr<T>::show(var); }
    void add(tc::sdk::argument_parser& p, hx::rng& r) override
    {
        const T d = r.chance(30) ? T() : tr<T>::gen(r).second;
        desc = describe_it(r, name);
        if (kind == POSITIONAL)
        {
            var = tr<T>::gen(r).second; // whatever the variable held before
            if (r.chance(50))
                p.add_positional(name, var, desc);
            else
            {
                auto a = std::make_unique<tc::sdk::positional_argument<T>>(name, var, desc);
                arg = a.get();
                p.add_positional(std::move(a));
            }
            deflt = tr<T>::show(T());
            return;
        }
        deflt = tr<T>::show(d);
        if (validator == 0 && r.chance(60))
        {
            if (sname)
                p.add_option(name, sname, var, d, desc, required, env);
            else
                p.add_option(name, var, d, desc, required, env);
            return;
        }
        auto o = sname ? std::make_unique<tc::sdk::optional_argument<T>>(name, sname, var, d, desc, required, env) : std::make_unique<tc::sdk::optional_argument<T>>(name, var, d, desc, required, env);
        if (validator)
            o->set_validator([k = validator](const T& v) {
                if (accepts(tr<T>::show(v)))
                    return true;
                if (k == 2)
                    throw std::out_of_range("validator");
                if (k == 3)
                    throw boom{1};
                return false;
            });
        arg = o.get();
        p.add_option(std::move(o));
    }
};
struct flag_t : decl
{
    bool var = false;
    flag_t() { type = "flag"; }
    std::pair<std::string, std::string> gen(hx::rng&) override { return {"", "1"}; }
    std::string bad(hx::rng&) override { return ""; }
    std::string show() const override { return var ? "1" : "0"; }
    void add(tc::sdk::argument_parser& p, hx::rng& r) override
    {
        deflt = "0";
        desc = describe_it(r, name);
        if (r.chance(50))
            sname ? p.add_flag(name, sname, var, desc, env) : p.add_flag(name, var, desc, env);
        else
        {
            auto f = sname ? std::make_unique<tc::sdk::flag_argument>(name, sname, var, desc, env) : std::make_unique<tc::sdk::flag_argument>(name, var, desc, env);
            arg = f.get();
            p.add_flag(std::move(f));
        }
    }
};

std::unique_ptr<decl> make_decl(hx::rng& r, bool simple_values)
{
#define K(T) return std::make_unique<decl_t<T>>(#T)
    (void)simple_values;
    switch (r.below(17))
    {
    case 0: K(int);
    case 1: K(float);
    case 2: K(double);
    case 3:
    case 4: K(std::string);
    case 5: K(std::filesystem::path);
    case 6: K(std::vector<int>);
    case 7: K(std::vector<std::string>);
    case 8: K(std::vector<double>);
    case 9: K(long);
    case 10: K(unsigned);
    case 11: K(unsigned long long);
    case 12: K(short);
    case 13: K(bool);
    case 14: K(char);
    case 15: K(std::vector<long>);
    default: K(temperature);
    }
#undef K
}

struct item // one piece of the command line with its meaning
{
    enum
    {
        BIND,
        QUIT,
        ERROR
    } what = BIND;
    std::vector<std::string> tokens;
    int decl = -1;
    std::string value; // shown
    std::string note;
};

struct null_buf : std::streambuf
{
    int overflow(int c) override { return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
struct quiet
{
    null_buf nb;
    std::streambuf *o, *e;
    quiet() : o(std::cout.rdbuf(&nb)), e(std::cerr.rdbuf(&nb)) {}
    quiet(std::streambuf* out, std::streambuf* err) : o(std::cout.rdbuf(out)), e(std::cerr.rdbuf(err)) {}
    ~quiet()
    {
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
    }
};

struct world
{
    hx::rng r;
    std::vector<std::unique_ptr<decl>> ds;
    std::vector<int> pos, opt, flg;
    std::vector<std::string> envs; // every environment variable this run may set
    std::string pname, pversion, pdesc;
    tc::sdk::argument_parser parser;

    explicit world(uint64_t seed, bool with_env, int max_pos, int max_opt, int max_flag, int validators, const char* n = "program", const char* v = "1.2.3", const char* d = "desc")
        : r(seed)
        , pname(n)
        , pversion(v)
        , pdesc(d)
        , parser(pname, pversion, pdesc)
    {
        // names of which some are prefixes of others
        std::vector<std::string> names{"o1", "out", "output", "out-put", "out_put", "in", "input", "i2", "x.y", "verbose", "ver", "versions", "helper", "he", "hh", "level", "lev", "a-b-c", "name", "names", "OUT", "Out", "été", "k9", "iter", "iterations", "threshold", "size", "siz"};
        std::string shorts = "abcdefgijklmnopqrstuwxyzABCHV0129?#";
        if (r.below(200) == 0) // a program with very many arguments
            max_pos *= 10, max_opt *= 20, max_flag *= 20;
        int nn = 0;
        const std::string stem = r.chance(50) ? "generated-" : std::string((size_t)r.in(1, r.chance(10) ? 300 : 50), 'g');
        auto take_name = [&] {
            if (names.empty() || r.chance(8)) // long names that differ only at the end, prefixes of one another
                return r.chance(50) ? stem + std::to_string(1000 + nn++) : stem + "-x" + std::string((size_t)++nn, 'x');
            size_t i = r.below(names.size());
            std::string n = names[i];
            names.erase(names.begin() + (long)i);
            return n;
        };
        auto take_short = [&]() -> char {
            if (r.chance(30) || shorts.empty())
                return 0;
            size_t i = r.below(shorts.size());
            char c = shorts[i];
            shorts.erase(i, 1);
            return c;
        };
        int ne = 0;
        for (int i = 0, n = (int)r.in(0, max_pos); i < n; ++i)
        {
            auto d = make_decl(r, false);
            d->kind = POSITIONAL;
            d->name = take_name();
            add(std::move(d));
        }
        for (int i = 0, n = (int)r.in(0, max_opt); i < n; ++i)
        {
            auto d = make_decl(r, false);
            d->kind = OPTION;
            d->name = take_name();
            d->sname = take_short();
            d->required = r.chance(25);
            if (validators && r.chance(30))
                d->validator = (int)r.in(1, validators);
            if (with_env && r.chance(60))
                d->env = hx::cat("VF_E", ne++, r.chance(10) ? std::string((size_t)r.in(1, 200), '_') + "x" : std::string());
            add(std::move(d));
        }
        for (int i = 0, n = (int)r.in(0, max_flag); i < n; ++i)
        {
            auto d = std::make_unique<flag_t>();
            d->kind = FLAG;
            d->name = take_name();
            d->sname = take_short();
            if (with_env && r.chance(60))
                d->env = hx::cat("VF_E", ne++, r.chance(10) ? std::string((size_t)r.in(1, 200), '_') + "x" : std::string());
            add(std::move(d));
        }
        // declared in an order of its own
        std::vector<int> order;
        for (size_t i = 0; i < ds.size(); ++i)
            order.push_back((int)i);
        for (size_t i = order.size(); i > 1; --i)
            std::swap(order[i - 1], order[r.below(i)]);
        for (int i : order)
        {
            ds[i]->add(parser, r);
            if (ds[i]->kind == POSITIONAL)
                pos.push_back(i);
            else if (ds[i]->kind == OPTION)
                opt.push_back(i);
            else
                flg.push_back(i);
        }
    }
    ~world()
    {
        for (const auto& e : envs)
            unsetenv(e.c_str());
    }
    void add(std::unique_ptr<decl> d) { ds.push_back(std::move(d)); }
    void set_env(const std::string& n, const std::string& v)
    {
        envs.push_back(n);
        setenv(n.c_str(), v.c_str(), 1);
    }
    std::string describe(const std::vector<item>& items) const
    {
        std::string s;
        for (const auto& d : ds)
            s += hx::cat(d->kind == POSITIONAL ? "positional " : d->kind == OPTION ? "option " : "flag ", d->name, d->sname ? hx::cat("/", d->sname) : "", ":", d->type, d->required ? " required" : "", d->validator ? hx::cat(" validator", d->validator) : "", d->env.empty() ? "" : " env " + d->env, " default ", d->deflt, "; ");
        for (const auto& e : envs)
            if (const char* v = getenv(e.c_str()))
                s += hx::cat("env ", e, "=", hx::quote(v), "; ");
        s += "command line:";
        for (const auto& i : items)
            for (const auto& t : i.tokens)
                s += " " + hx::quote(t);
        return s;
    }
    // an option or flag written in one of its documented forms, with a valid value
    item bind(int di)
    {
        decl& d = *ds[di];
        item it;
        it.decl = di;
        std::string text;
        for (int k = 0; k < 50; ++k)
        {
            std::tie(text, it.value) = d.gen(r);
            if (d.valid(it.value))
                break;
        }
        if (!d.valid(it.value))
        {
            it.what = item::ERROR;
            it.note = "rejected by the validator";
        }
        write(it, d, text);
        return it;
    }
    void write(item& it, const decl& d, const std::string& text)
    {
        const std::string key = d.sname && r.chance(50) ? std::string("-") + d.sname : "--" + d.name;
        if (d.kind == FLAG)
            it.tokens = {key};
        else if (r.chance(50))
            it.tokens = {key + "=" + text};
        else
            it.tokens = {key, text};
    }
    item bind_positional(size_t n)
    {
        item it;
        it.decl = pos[n];
        decl& d = *ds[it.decl];
        std::string text;
        for (int k = 0; k < 100; ++k)
        {
            std::tie(text, it.value) = d.gen(r);
            if (text.empty() || text[0] != '-')
                break;
            text.clear();
        }
        it.tokens = {text};
        return it;
    }
    item bad_value(int di) // a value that does not convert or does not pass the validator
    {
        decl& d = *ds[di];
        item it;
        it.decl = di;
        it.what = item::ERROR;
        std::string text;
        if (d.kind == OPTION && d.validator && r.chance(60))
        {
            for (int k = 0; k < 50; ++k)
            {
                std::tie(text, it.value) = d.gen(r);
                if (!d.valid(it.value))
                    break;
            }
            if (!d.valid(it.value))
            {
                it.note = "rejected by the validator";
                write(it, d, text);
                return it;
            }
        }
        text = d.bad(r);
        if (text.empty() || (d.kind == POSITIONAL && text[0] == '-'))
        {
            it.decl = -1;
            return it;
        }
        if (d.type.find("vector") == std::string::npos && r.chance(10))
            text.clear(); // an empty value denotes no number or character (but an empty list)
        it.note = "not convertible";
        if (d.kind == POSITIONAL)
            it.tokens = {text};
        else
            write(it, d, text);
        return it;
    }
    item junk_option()
    {
        item it;
        it.what = item::ERROR;
        it.note = "names no declared argument";
        static const char* const fixed[] = {"-", "--", "---", "---x", "--=v", "-=v", "--=", "-=", "----", "---output", "-- ", "- ", "--\n", "-\x01", "--\xff\xfe", "--unknown", "--unknown=4", "-?!", "--outpu", "--outputs", "--output2=1", "-:", "-=-h", "--ou t", "---=x", "--helpme", "--hel", "-vv", "-hv", "--versio"};
        it.tokens = {fixed[r.below(std::size(fixed))]};
        return it;
    }
    item quit_item()
    {
        item it;
        it.what = item::QUIT;
        it.tokens = {r.pick({"-h", "--help", "-v", "--version"})};
        return it;
    }
    // a program's main that uses the macro: 7 when it goes on, otherwise what it returns
    static int cli(tc::sdk::argument_parser& p, int argc, char* argv[])
    {
        TC_PARSE_CLI(p, argc, argv)
        return 7;
    }
    static tc::sdk::parse_result call(tc::sdk::argument_parser& p, int argc, char* argv[])
    {
        if (argc % 2)
            return p.parse(argc, argv);
        hx::count("programs_using_the_macro");
        switch (cli(p, argc, argv))
        {
        case EXIT_SUCCESS: return tc::sdk::parse_result::quit;
        case EXIT_FAILURE: return tc::sdk::parse_result::error;
        case 7: return tc::sdk::parse_result::success;
        default: return (tc::sdk::parse_result)-1;
        }
    }
    std::string out, err; // what the last run printed
    tc::sdk::parse_result run(const std::vector<std::string>& toks, bool capture = false)
    {
        std::vector<std::string> copy{"program"};
        copy.insert(copy.end(), toks.begin(), toks.end());
        std::vector<std::unique_ptr<char[]>> bufs; // exact-size heap buffers: an overrun is an AddressSanitizer report
        std::vector<char*> argv;
        for (const auto& t : copy)
        {
            bufs.emplace_back(new char[t.size() + 1]);
            memcpy(bufs.back().get(), t.c_str(), t.size() + 1);
            argv.push_back(bufs.back().get());
        }
        std::unique_ptr<char*[]> a(new char*[argv.size() + 1]);
        std::copy(argv.begin(), argv.end(), a.get());
        a[argv.size()] = nullptr;
        if (capture)
        {
            std::stringbuf so, se;
            quiet q(&so, &se);
            const auto res = call(parser, (int)argv.size(), a.get());
            out = so.str();
            err = se.str();
            return res;
        }
        quiet q;
        return call(parser, (int)argv.size(), a.get());
    }
};

const char* name_of(tc::sdk::parse_result p)
{
    return p == tc::sdk::parse_result::success ? "success" : p == tc::sdk::parse_result::error ? "error" : p == tc::sdk::parse_result::quit ? "quit" : "?";
}

// env_value[decl] = shown value from the environment ("" = not set)
void judge(world& w, const std::vector<item>& items, const std::vector<std::string>& env_value, const char* keyprefix)
{
    std::vector<std::string> toks;
    for (const auto& i : items)
        toks.insert(toks.end(), i.tokens.begin(), i.tokens.end());
    for (const auto& d : w.ds)
        if (d->show() != d->deflt)
            hx::fail(hx::cat(keyprefix, "default"), hx::cat("before parsing ", d->name, " is ", d->show(), "; ", w.describe(items)));

    // what must happen
    using tc::sdk::parse_result;
    parse_result want = parse_result::success;
    std::vector<std::vector<std::string>> seen(w.ds.size()); // successive values
    for (size_t i = 0; i < w.ds.size(); ++i)
    {
        seen[i].push_back(w.ds[i]->deflt);
        if (!env_value[i].empty())
            seen[i].push_back(env_value[i]);
    }
    const item* stop = nullptr;
    for (const auto& it : items)
    {
        if (it.what == item::BIND)
            seen[it.decl].push_back(it.value);
        else
        {
            stop = &it;
            want = it.what == item::QUIT ? parse_result::quit : parse_result::error;
            break;
        }
    }
    std::string why = stop ? stop->note : "";
    if (!stop)
        for (size_t i = 0; i < w.ds.size(); ++i)
            if ((w.ds[i]->kind == POSITIONAL || w.ds[i]->required) && seen[i].size() == 1)
            {
                want = parse_result::error;
                why = "missing " + w.ds[i]->name;
            }

    parse_result got;
    try
    {
        got = w.run(toks);
    }
    catch (...)
    {
        hx::fail(hx::cat(keyprefix, "exception-escaped"), w.describe(items));
    }
    hx::count(name_of(got));
    if (got != want)
        hx::fail(hx::cat(keyprefix, "result:", name_of(want), "->", name_of(got)), hx::cat("expected ", name_of(want), " (", why, "), got ", name_of(got), "; ", w.describe(items)));
    for (size_t i = 0; i < w.ds.size(); ++i)
    {
        const std::string now = w.ds[i]->show();
        if (want == parse_result::success)
        {
            if (now != seen[i].back())
                hx::fail(hx::cat(keyprefix, "value:", w.ds[i]->type), hx::cat(w.ds[i]->name, " is ", now, ", expected ", seen[i].back(), "; ", w.describe(items)));
            hx::count("values_compared");
            if (const auto* a = w.ds[i]->arg)
            {
                // what the argument says of itself
                if (a->is_parsed() != (seen[i].size() > 1))
                    hx::fail(hx::cat(keyprefix, "is-parsed:", w.ds[i]->kind == FLAG ? "flag" : w.ds[i]->kind == OPTION ? "option" : "positional"), hx::cat(w.ds[i]->name, " says is_parsed() = ", a->is_parsed(), " after ", seen[i].size() - 1, " values were given for it; ", w.describe(items)));
                if (a->get_name_long() != w.ds[i]->name || a->get_name_short() != (w.ds[i]->sname ? std::string(1, w.ds[i]->sname) : std::string()) || a->get_description() != w.ds[i]->desc || a->get_env() != w.ds[i]->env || a->is_required() != (w.ds[i]->kind == POSITIONAL || w.ds[i]->required))
                    hx::fail(hx::cat(keyprefix, "argument-forgets-its-declaration"), hx::cat(w.ds[i]->name, " says long=", a->get_name_long(), " short=", a->get_name_short(), " env=", a->get_env(), " required=", a->is_required(), " description=", a->get_description(), "; ", w.describe(items)));
                hx::count("arguments_asked_about_themselves");
            }
        }
        else
        {
            // nothing but values that were given for it can be in a variable, whatever happened
            bool ok = false;
            for (const auto& s : seen[i])
                ok = ok || s == now;
            if (!ok)
                hx::fail(hx::cat(keyprefix, "stray-value:", w.ds[i]->type), hx::cat(w.ds[i]->name, " is ", now, " after ", name_of(got), "; ", w.describe(items)));
            if (stop && stop->what == item::ERROR && stop->decl == (int)i)
            {
                // the rejected value changes nothing: what was given for the variable before it is still there
                if (now != seen[i].back())
                    hx::fail(hx::cat(keyprefix, "rejected-value-changes-variable:", w.ds[i]->type), hx::cat(w.ds[i]->name, " is ", now, " after a rejected value (", stop->note, "), and was ", seen[i].back(), " before; ", w.describe(items)));
                hx::count(seen[i].size() > 1 ? "rejected_after_a_value" : "rejected_first_value");
            }
            if (seen[i].size() == 1 && now != w.ds[i]->deflt)
                hx::fail(hx::cat(keyprefix, "bound-without-token"), hx::cat(w.ds[i]->name, " is ", now, "; ", w.describe(items)));
            hx::count("values_after_failure");
        }
    }
    uint64_t h = (uint64_t)want;
    for (const auto& t : toks)
        h = hx::hash64(h, hx::hash_str(t));
    hx::state(h);
    if (hx::want_sample())
        hx::sample(hx::cat(w.describe(items), " -> ", name_of(got)));
}

void shuffle_in(std::vector<item>& items, hx::rng& r, item it) { items.insert(items.begin() + (long)r.below(items.size() + 1), std::move(it)); }

std::vector<item> command_line(world& w, int max_repeat, unsigned omit_percent)
{
    std::vector<item> items;
    for (size_t n = 0; n < w.pos.size(); ++n)
        items.push_back(w.bind_positional(n));
    for (auto* list : {&w.opt, &w.flg})
        for (int di : *list)
        {
            if (w.r.chance(omit_percent))
                continue;
            for (int k = 0, m = w.r.chance(25) ? (int)w.r.in(1, max_repeat) : 1; k < m; ++k)
                shuffle_in(items, w.r, w.bind(di));
        }
    return items;
}

// an item that makes parsing fail, or one with no tokens
item failure(world& w)
{
    switch (w.r.below(5))
    {
    case 0: return w.junk_option();
    case 1:
        if (!w.opt.empty())
            return w.bad_value(w.r.pick(w.opt));
        return w.junk_option();
    case 2:
        if (!w.opt.empty())
            return w.bad_value(w.r.pick(w.opt));
        return item{};
    default: return item{};
    }
}

void drop_or_extend(world& w, std::vector<item>& items, bool& changed)
{
    // one positional too few or too many, a bad positional, or an option without its value at the end
    switch (w.r.below(4))
    {
    case 0:
        for (size_t i = items.size(); i-- > 0;)
            if (items[i].decl >= 0 && w.ds[items[i].decl]->kind == POSITIONAL)
            {
                items.erase(items.begin() + (long)i);
                changed = true;
                return;
            }
        return;
    case 1: {
        item it;
        it.what = item::ERROR;
        it.note = "one positional too many";
        it.tokens = {word(w.r, false)};
        items.push_back(it);
        changed = true;
        return;
    }
    case 2:
        for (auto& it : items)
            if (it.what == item::BIND && w.ds[it.decl]->kind == POSITIONAL)
            {
                item b = w.bad_value(it.decl);
                if (b.decl >= 0)
                {
                    it = b;
                    changed = true;
                }
                return;
            }
        return;
    default:
        if (!w.opt.empty())
        {
            const decl& d = *w.ds[w.r.pick(w.opt)];
            item it;
            it.what = item::ERROR;
            it.note = "no value";
            it.tokens = {d.sname && w.r.chance(50) ? std::string("-") + d.sname : "--" + d.name};
            items.push_back(it);
            changed = true;
        }
    }
}

hx::other_locale in_another_locale(uint64_t seed)
{
    const bool on = hx::rng(seed * 11 + 7).chance(25);
    if (on)
        hx::count("runs_in_another_locale");
    return hx::other_locale(on);
}

void bind_mode(uint64_t seed)
{
    const hx::other_locale guard = in_another_locale(seed);
    world w(seed, false, 4, 6, 4, 1);
    std::vector<item> items = command_line(w, 4, 20);
    if (w.r.chance(10)) // long command lines
        for (int k = 0; k < 200 && !w.opt.empty(); ++k)
            shuffle_in(items, w.r, w.bind(w.r.pick(w.opt)));
    if (w.r.chance(25))
        shuffle_in(items, w.r, w.quit_item());
    bool changed = false;
    if (w.r.chance(30))
    {
        if (w.r.chance(50))
        {
            item f = failure(w);
            if (!f.tokens.empty())
                shuffle_in(items, w.r, f);
        }
        else
            drop_or_extend(w, items, changed);
    }
    judge(w, items, std::vector<std::string>(w.ds.size()), "");
}

// C22, with known outcome: exactly one bad thing
void junk_mode(uint64_t seed)
{
    const hx::other_locale guard = in_another_locale(seed);
    world w(seed, true, 3, 5, 3, 3);
    std::vector<std::string> ev(w.ds.size());
    for (int di : w.opt)
        if (!w.ds[di]->env.empty() && w.r.chance(30))
        {
            auto [t, v] = w.ds[di]->gen(w.r);
            if (!w.ds[di]->valid(v) || t.find('\0') != std::string::npos)
                continue;
            w.set_env(w.ds[di]->env, t);
            ev[di] = v;
        }
    std::vector<item> items = command_line(w, 2, 30);
    bool changed = false;
    item bad = failure(w);
    if (!bad.tokens.empty())
    {
        if (bad.decl >= 0 && w.ds[bad.decl]->kind == OPTION && w.r.chance(50))
        {
            // the option has been given a good value before the bad one
            const size_t at = w.r.below(items.size() + 1);
            items.insert(items.begin() + (long)at, bad);
            items.insert(items.begin() + (long)w.r.below(at + 1), w.bind(bad.decl));
        }
        else
            shuffle_in(items, w.r, bad);
    }
    else
        drop_or_extend(w, items, changed);
    if (w.r.chance(10))
    {
        // a bad environment value: an error unless something else ends the parse first (quit)
        for (int di : w.opt)
            if (!w.ds[di]->env.empty() && ev[di].empty())
            {
                item b = w.bad_value(di);
                if (b.decl < 0 || b.note != "not convertible")
                    break;
                std::string t = b.tokens.size() == 2 ? b.tokens[1] : b.tokens[0].substr(b.tokens[0].find('=') + 1);
                w.set_env(w.ds[di]->env, t);
                hx::count("bad_environment_values");
                std::vector<std::string> toks;
                for (const auto& i : items)
                    toks.insert(toks.end(), i.tokens.begin(), i.tokens.end());
                tc::sdk::parse_result got;
                try
                {
                    got = w.run(toks);
                }
                catch (...)
                {
                    hx::fail("exception-escaped", w.describe(items));
                }
                bool given = false;
                for (const auto& i : items)
                    given = given || i.decl == di;
                if (!given && w.ds[di]->show() != w.ds[di]->deflt)
                    hx::fail("rejected-value-stored", hx::cat(w.ds[di]->name, " is ", w.ds[di]->show(), " after ", name_of(got), "; ", w.describe(items)));
                if (!given && got != tc::sdk::parse_result::error)
                    hx::fail("bad-environment-accepted", hx::cat("got ", name_of(got), "; ", w.describe(items)));
                return;
            }
    }
    judge(w, items, ev, "");
}

// C22: anything at all
void bytes_mode(uint64_t seed)
{
    world w(seed, true, 3, 5, 3, 3);
    auto bytes = [&](bool nul) {
        std::string s;
        const int n = w.r.chance(3) ? (int)w.r.in(100, 5000) : (int)w.r.in(0, 10);
        for (int i = 0; i < n; ++i)
            s += (char)w.r.in(nul ? 0 : 1, 255);
        return s;
    };
    for (const auto& d : w.ds)
        if (!d->env.empty() && w.r.chance(50))
            w.set_env(d->env, w.r.chance(40) ? d->gen(w.r).first : w.r.chance(50) ? bytes(false) : w.r.pick<std::string>({"", "nan", "inf", "0x1p9999", "1e-400", "-", ",", ",,", "1,,2", "99999999999999999999", "-99999999999", "1e400"}));
    std::vector<std::string> toks;
    bool may_bind = false; // some token could be taken for a value or a name
    for (int i = 0, n = (int)w.r.in(0, w.r.chance(5) ? 300 : 8); i < n; ++i)
    {
        std::string t;
        switch (w.r.below(8))
        {
        case 0: t = bytes(false); break;
        case 1: t = "-" + bytes(false); break;
        case 2: t = "--" + bytes(false); break;
        case 3: t = w.junk_option().tokens[0]; break;
        case 4: t = word(w.r, true); break;
        case 5: t = w.r.pick<std::string>({"", "nan", "inf", "-inf", "0x1p9999", "1e-400", "1e400", ",", ",,", "1,,2", "99999999999999999999", "-99999999999", "2147483648", "-2147483649"}); break;
        default:
            if (!w.ds.empty())
            {
                auto& d = *w.ds[w.r.below(w.ds.size())];
                t = std::string(w.r.below(4), '-') + (d.sname && w.r.chance(50) ? std::string(1, d.sname) : d.name);
                if (w.r.chance(60))
                    t += "=" + (w.r.chance(50) ? d.gen(w.r).first : w.r.chance(50) ? bytes(false) : w.r.pick<std::string>({"", "nan", "-inf", "1e400", "99999999999999999999", ",", "1,,2", "="}));
            }
        }
        toks.push_back(t);
        may_bind = true;
    }
    (void)may_bind;
    uint64_t h = 7;
    for (const auto& t : toks)
        h = hx::hash64(h, hx::hash_str(t));
    hx::state(h);
    tc::sdk::parse_result got;
    try
    {
        got = w.run(toks);
    }
    catch (...)
    {
        std::string s;
        for (const auto& t : toks)
            s += " " + hx::quote(t);
        hx::fail("exception-escaped", w.describe({}) + s);
    }
    if (std::string(name_of(got)) == "?")
        hx::fail("no-result", "");
    hx::count(name_of(got));
    for (const auto& d : w.ds)
        hx::count("bytes_shown", d->show().size()); // reads every variable under the sanitizers
}

void env_mode(uint64_t seed)
{
    const hx::other_locale guard = in_another_locale(seed);
    world w(seed, true, 2, 6, 4, 1);
    std::vector<std::string> ev(w.ds.size());
    for (auto* list : {&w.opt, &w.flg})
        for (int di : *list)
        {
            decl& d = *w.ds[di];
            if (d.env.empty())
            {
                // names that a confused parser might look up
                if (w.r.chance(30))
                    w.set_env(w.r.chance(50) ? d.name : d.sname ? std::string(1, d.sname) : d.name, d.gen(w.r).first);
                continue;
            }
            if (!w.r.chance(55))
                continue;
            if (d.kind == FLAG)
            {
                w.set_env(d.env, w.r.pick({"1", "true", "yes", "on", "x"}));
                ev[di] = "1";
            }
            else
                for (int k = 0; k < 20; ++k)
                {
                    auto [t, v] = d.gen(w.r);
                    if (!d.valid(v))
                        continue;
                    w.set_env(d.env, t);
                    ev[di] = v;
                    break;
                }
            if (!ev[di].empty())
                hx::count(d.kind == FLAG ? "flags_from_environment" : "options_from_environment");
        }
    // variables whose names only resemble those declared
    for (const auto& d : w.ds)
    {
        if (d->env.empty() || !w.r.chance(25))
            continue;
        std::string n = d->env;
        switch (w.r.below(5))
        {
        case 0: n.resize((size_t)w.r.in(1, (int64_t)n.size() - 1)); break;
        case 1: n.erase(0, (size_t)w.r.in(1, (int64_t)n.size() - 1)); break;
        case 2:
            for (char& c : n)
                c = (char)tolower(c);
            break;
        case 3: n += w.r.pick<std::string>({"_", "x", " ", "0"}); break;
        default: n = w.pname + "_" + n; break;
        }
        bool taken = n.find_first_of(std::string("=\0", 2)) != std::string::npos;
        for (const auto& o : w.ds)
            taken |= o->env == n;
        if (taken)
            continue;
        w.set_env(n, d->gen(w.r).first);
        hx::count("variables_of_similar_name");
    }
    for (const char* n : {"help", "h", "HELP", "version", "v"})
        if (w.r.chance(10))
            w.set_env(n, "1");
    std::vector<item> items = command_line(w, 3, 50);
    for (const auto& i : items)
        if (i.what == item::BIND && !ev[i.decl].empty())
            hx::count("both_sources");
    if (w.r.chance(10))
        shuffle_in(items, w.r, w.quit_item());
    judge(w, items, ev, "");
}

// ------------------------------------------------------------------------------------------------ help and messages
std::string squeeze(const std::string& s)
{
    std::string o;
    for (char c : s)
        if (c != ' ' && c != '\t')
            o += c;
    return o;
}
void judge_help(world& w, const std::string& out, const std::string& what)
{
    auto bad = [&](const char* key, const std::string& t) { hx::fail(hx::cat("help-", key), hx::cat(t, " (", what, "); printed: ", hx::quote(out))); };
    std::vector<std::string> lines;
    std::istringstream is(out);
    for (std::string l; std::getline(is, l);)
        if (!squeeze(l).empty())
            lines.push_back(l);
    size_t at = 0;
    auto next = [&]() -> std::string { return at < lines.size() ? lines[at++] : std::string(); };
    if (next() != w.pname + " " + w.pversion)
        bad("version-line", "the first line is not name and version");
    if (!squeeze(w.pdesc).empty() && next() != w.pdesc)
        bad("description", "the second line is not the description");
    // usage: the line that starts with the program's name
    std::string usage = "";
    while (at < lines.size() && squeeze(usage).rfind(squeeze(w.pname), 0) != 0)
        usage = squeeze(next());
    std::string want = squeeze(w.pname);
    std::vector<std::string> list; // one entry per declared argument, in order
    for (int i : w.pos)
    {
        want += "<" + w.ds[i]->name + ">";
        list.push_back(w.ds[i]->name + w.ds[i]->desc);
    }
    auto entry = [&](const decl& d) { return (d.sname ? hx::cat("-", d.sname, ",--") : std::string("--")) + d.name + d.desc + (d.env.empty() ? "" : "[env:" + d.env + "]"); };
    for (int i : w.opt)
    {
        want += "[--" + w.ds[i]->name + "=<value>]";
        list.push_back(entry(*w.ds[i]));
    }
    want += "[--help][--version]";
    list.push_back("-h,--help");
    list.push_back("-v,--version");
    for (int i : w.flg)
    {
        want += "[--" + w.ds[i]->name + "]";
        list.push_back(entry(*w.ds[i]));
    }
    if (usage != want)
        bad("usage", hx::cat("the usage line is ", hx::quote(usage), " instead of ", hx::quote(want), " (spaces apart)"));
    std::vector<std::string> got;
    for (; at < lines.size(); ++at)
        if (lines[at][0] == ' ') // not a heading
            got.push_back(squeeze(lines[at]));
    for (size_t i = 0; i < list.size() || i < got.size(); ++i)
    {
        const std::string g = i < got.size() ? got[i] : "", x = i < list.size() ? squeeze(list[i]) : "";
        const bool builtin = x == "-h,--help" || x == "-v,--version";
        if (builtin ? g.rfind(x, 0) != 0 : g != x || x.empty())
            bad("list", hx::cat("line ", i + 1, " of the list is ", hx::quote(g), " instead of ", hx::quote(x), " (spaces apart)"));
        hx::count("arguments_listed");
    }
}
void help_mode(uint64_t seed)
{
    hx::rng r(seed * 5 + 2);
    world w(seed, true, 4, 6, 4, 3, r.pick({"program", "a", "my tool", "x.y-z", "prögram"}), r.pick({"1.2.3", "0", "2024.1-rc+5", ""}), r.pick({"desc", "", "A program (with a long description) which does nothing: at all.", "tab\there"}));
    auto text_of = [&](const std::vector<item>& items) { return w.describe(items); };
    std::vector<item> items = command_line(w, 2, 30);
    const int kind = (int)r.below(3);
    item special;
    if (kind == 0)
        special = w.quit_item();
    else if (kind == 1)
    {
        special = failure(w);
        if (special.tokens.empty())
            special = w.junk_option();
    }
    if (kind < 2)
    {
        const bool early = r.chance(50);
        items.insert(early ? items.begin() : items.begin() + (long)r.below(items.size() + 1), special);
    }
    else
        for (size_t i = items.size(); i-- > 0;) // leave out arguments: the ones that must be there are named
            if (items[i].what == item::BIND && r.chance(60))
            {
                const int k = w.ds[items[i].decl]->kind;
                if (k == POSITIONAL)
                { // and those after it
                    for (size_t j = items.size(); j-- > i;)
                        if (items[j].decl >= 0 && w.ds[items[j].decl]->kind == POSITIONAL)
                            items.erase(items.begin() + (long)j);
                }
                else
                    items.erase(items.begin() + (long)i);
            }
    // what the parse ends with
    using tc::sdk::parse_result;
    const item* stop = nullptr;
    std::set<int> given;
    for (const auto& it : items)
    {
        if (it.what != item::BIND)
        {
            stop = &it;
            break;
        }
        given.insert(it.decl);
    }
    std::vector<std::string> toks;
    for (const auto& i : items)
        toks.insert(toks.end(), i.tokens.begin(), i.tokens.end());
    const parse_result got = w.run(toks, true);
    auto bad = [&](const char* key, const std::string& t) { hx::fail(key, hx::cat(t, "; ", text_of(items), "; standard output ", hx::quote(w.out), ", standard error ", hx::quote(w.err))); };
    if (stop && stop->what == item::QUIT)
    {
        if (got != parse_result::quit)
            bad("quit-result", "help or version was asked for and the result is not quit");
        if (stop->tokens[0] == "-v" || stop->tokens[0] == "--version")
        {
            if (w.out != w.pname + " " + w.pversion + "\n")
                bad("version-output", "not exactly name and version were printed");
            hx::count("version_printed");
        }
        else
        {
            judge_help(w, w.out, text_of(items));
            hx::count("help_printed");
        }
        if (!w.err.empty())
            bad("message-without-error", "something was printed on standard error");
    }
    else if (stop)
    {
        if (got != parse_result::error)
            bad("error-result", "a wrong argument and the result is not error");
        judge_help(w, w.out, text_of(items));
        if (squeeze(w.err).empty())
            bad("silent-error", "no message");
        std::string name; // who is at fault
        if (stop->decl >= 0)
            name = w.ds[stop->decl]->validator >= 2 ? "" : w.ds[stop->decl]->name;
        else
        {
            std::string t = stop->tokens[0];
            if (t[0] == '-')
                t = t.substr(0, t.find('='));
            if (t.rfind("---", 0) != 0) // not even the form of an option
                name = t.substr(std::min(t.find_first_not_of('-'), t.size()));
        }
        if (w.err.find(name) == std::string::npos)
            bad("message", hx::cat("the message does not name ", hx::quote(name)));
        hx::count("errors_named");
    }
    else
    {
        std::vector<std::string> miss[2];
        for (size_t i = 0; i < w.ds.size(); ++i)
            if (!given.count((int)i) && (w.ds[i]->kind == POSITIONAL || (w.ds[i]->kind == OPTION && w.ds[i]->required)))
                miss[w.ds[i]->kind == POSITIONAL ? 0 : 1].push_back(w.ds[i]->name);
        const auto& m = miss[0].empty() ? miss[1] : miss[0];
        if ((got == parse_result::error) != !m.empty())
            bad("missing-result", hx::cat("missing: ", m.size(), ", result ", name_of(got)));
        if (!m.empty())
        {
            judge_help(w, w.out, text_of(items));
            for (const auto& n : m)
                if (w.err.find(n) == std::string::npos)
                    bad("missing-message", hx::cat("the message does not name ", n));
            hx::count("missing_named");
        }
        else
        {
            if (!w.out.empty() || !w.err.empty())
                bad("output-on-success", "something was printed");
            hx::count("silent_successes");
        }
    }
    uint64_t h = kind;
    for (const auto& d : w.ds)
        h = hx::hash64(h, hx::hash_str(d->name + d->desc + d->env));
    hx::state(h);
    if (hx::want_sample())
        hx::sample(hx::cat(text_of(items), " -> ", name_of(got)));
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {{"bind", bind_mode}, {"junk", junk_mode}, {"bytes", bytes_mode}, {"env", env_mode}, {"help", help_mode}});
}
