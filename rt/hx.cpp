// Compiled WITHOUT sanitizers. See hx.hpp.
#include "hx.hpp"
#include "dsched.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>

namespace
{
std::string json_str(const std::string& s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += (char)c;
        }
        else if (c < 32 || c > 126)
        {
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += (char)c;
    }
    return o + "\"";
}

constexpr int NSTAT = 256;
struct stat_t
{
    char name[64];
    uint64_t v;
    bool max;
} stats[NSTAT];
int nstats = 0;
stat_t& stat_of(const char* name, bool mx)
{
    for (int i = 0; i < nstats; ++i)
        if (!strcmp(stats[i].name, name))
            return stats[i];
    if (nstats == NSTAT)
        abort();
    stat_t& s = stats[nstats++];
    strncpy(s.name, name, sizeof s.name - 1);
    s.max = mx;
    return s;
}

std::unordered_set<uint64_t>* states = nullptr;
std::vector<std::string>* samples = nullptr;
uint64_t cur_seed = 0;
std::string cur_mode;
bool g_verbose = false, g_thorough = false;
int failing = 0;

std::string out;
bool stuck_fails = true;
void finish()
{
    if (!out.empty())
    {
        FILE* f = fopen((out + ".stats").c_str(), "w");
        fprintf(f, "{\"stats\":{");
        for (int i = 0; i < nstats; ++i)
            fprintf(f, "%s%s:[%llu,%d]", i ? "," : "", json_str(stats[i].name).c_str(), (unsigned long long)stats[i].v, (int)stats[i].max);
        fprintf(f, "},\"samples\":[");
        for (size_t i = 0; i < samples->size(); ++i)
            fprintf(f, "%s%s", i ? "," : "", json_str((*samples)[i]).c_str());
        fprintf(f, "]}");
        fclose(f);
        f = fopen((out + ".states").c_str(), "wb");
        for (uint64_t h : *states)
            fwrite(&h, 8, 1, f);
        fclose(f);
    }
    else
    {
        for (int i = 0; i < nstats; ++i)
            printf("%s=%llu\n", stats[i].name, (unsigned long long)stats[i].v);
        printf("distinct=%zu\n", states->size());
        for (auto& s : *samples)
            printf("sample: %s\n", s.c_str());
    }
}

[[noreturn]] void on_terminate()
{
    std::string what = "no active exception", type = "";
    if (std::type_info* t = abi::__cxa_current_exception_type())
    {
        int st = 0;
        char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
        type = d ? d : t->name();
        try
        {
            throw;
        }
        catch (const std::exception& e)
        {
            what = e.what();
        }
        catch (...)
        {
            what = "(not a std::exception)";
        }
    }
    hx::fail("terminate", "std::terminate called; " + type + ": " + what);
}
} // namespace

namespace hx
{
[[noreturn]] void fail(const std::string& key, const std::string& detail)
{
    if (__atomic_fetch_add(&failing, 1, __ATOMIC_SEQ_CST) == 0)
    {
        std::string s = "\nVF_FAIL {\"key\":" + json_str(key) + ",\"mode\":" + json_str(cur_mode) + ",\"seed\":" + std::to_string(cur_seed) + ",\"detail\":" + json_str(detail) + "}\n";
        size_t off = 0;
        while (off < s.size())
        {
            ssize_t n = write(1, s.data() + off, s.size() - off);
            if (n <= 0)
                break;
            off += (size_t)n;
        }
        _exit(70);
    }
    for (;;)
        pause();
}
[[noreturn]] void abandon(const std::string& why)
{
    if (__atomic_fetch_add(&failing, 1, __ATOMIC_SEQ_CST) == 0)
    {
        stat_of("abandoned", false).v += 1;
        finish();
        fflush(stdout);
        _exit(0);
    }
    for (;;)
        pause();
}
void stuck_is_violation(bool yes) { stuck_fails = yes; }
void count(const char* name, uint64_t n) { stat_of(name, false).v += n; }
void maxi(const char* name, uint64_t v)
{
    stat_t& s = stat_of(name, true);
    if (v > s.v)
        s.v = v;
}
void state(uint64_t h) { states->insert(h); }
bool want_sample() { return samples->size() < 3; }
void sample(const std::string& t)
{
    if (want_sample())
        samples->push_back(t.size() > 1500 ? t.substr(0, 1500) + "..." : t);
}
bool verbose() { return g_verbose; }
bool thorough() { return g_thorough; }

int main_(int argc, char** argv, std::vector<mode> modes)
{
    // prog mode base_seed start count outprefix [-v]
    if (argc < 5)
    {
        fprintf(stderr, "usage: %s mode base start count [outprefix] [-v]\n", argv[0]);
        return 2;
    }
    states = new std::unordered_set<uint64_t>;
    samples = new std::vector<std::string>;
    cur_mode = argv[1];
    uint64_t base = strtoull(argv[2], nullptr, 10), start = strtoull(argv[3], nullptr, 10), cnt = strtoull(argv[4], nullptr, 10);
    out = argc > 5 ? argv[5] : "";
    for (int i = 6; i < argc; ++i)
        if (!strcmp(argv[i], "-v"))
            g_verbose = true;
    if (const char* t = getenv("VERIF_TIER"))
        g_thorough = !strcmp(t, "thorough");
    std::set_terminate(on_terminate);
    ds::on_stuck = [](const std::string& k, const std::string& d) {
        if (!stuck_fails)
            abandon(k);
        fail("stuck:" + k, d);
    };
    mode* m = nullptr;
    for (auto& x : modes)
        if (cur_mode == x.name)
            m = &x;
    if (!m)
    {
        fprintf(stderr, "no such mode\n");
        return 2;
    }
    int pfd = -1;
    if (!out.empty())
        pfd = open((out + ".prog").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    for (uint64_t i = start; i < start + cnt; ++i)
    {
        if (pfd >= 0)
        {
            ssize_t r = pwrite(pfd, &i, sizeof i, 0);
            (void)r;
        }
        uint64_t s = base * 1000003ull + i;
        cur_seed = s;
        rec::reset();
        m->fn(s);
        count("iterations");
    }
    finish();
    fflush(stdout);
    return 0;
}
} // namespace hx

namespace rec
{
namespace
{
constexpr int MAXE = 1 << 18;
ev evs[MAXE];
int n = 0;
int64_t vars[NVARS];
} // namespace
void reset()
{
    n = 0;
    for (int i = 0; i < NVARS; ++i)
        __atomic_store_n(&vars[i], 0, __ATOMIC_RELAXED);
}
int add(int kind, int64_t a, int64_t b, int64_t c, int64_t d)
{
    int i = __atomic_fetch_add(&n, 1, __ATOMIC_SEQ_CST);
    if (i >= MAXE)
        abort();
    ev& e = evs[i];
    e.kind = kind;
    e.tid = ds::self_id();
    e.a = a;
    e.b = b;
    e.c = c;
    e.d = d;
    e.time = ds::now();
    return i;
}
int size() { return n; }
const ev& at(int i) { return evs[i]; }
int64_t get(int i) { return __atomic_load_n(&vars[i], __ATOMIC_SEQ_CST); }
void set(int i, int64_t v) { __atomic_store_n(&vars[i], v, __ATOMIC_SEQ_CST); }
int64_t inc(int i, int64_t d) { return __atomic_add_fetch(&vars[i], d, __ATOMIC_SEQ_CST); }
} // namespace rec
