// C45: calls leave the process and the caller's streams as they found them. What belongs to the program - environment,
// locales, working directory, umask, random sequence, floating point modes, signal dispositions and masks, handlers, limits,
// timers, the calling thread's settings, open files, the format settings of every stream, argv - is recorded around calls.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/argparse/argument_parser.hpp>
#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/datetime/date.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
#include <teiacare/sdk/datetime/time.hpp>
#include <teiacare/sdk/datetime/timedelta.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/geometry/line.hpp>
#include <teiacare/sdk/geometry/point.hpp>
#include <teiacare/sdk/geometry/range.hpp>
#include <teiacare/sdk/geometry/rectangle.hpp>
#include <teiacare/sdk/geometry/size.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/service_locator.hpp>
#include <teiacare/sdk/signal_handler.hpp>
#include <teiacare/sdk/singleton.hpp>
#include <teiacare/sdk/stopwatch.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>
#include <teiacare/sdk/uuid_generator.hpp>

#include <algorithm>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <exception>
#include <filesystem>
#include <iomanip>
#include <iostream>
#include <memory>
#include <new>
#include <optional>
#include <pthread.h>
#include <sched.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
#include <xmmintrin.h>

using namespace tc::sdk;
using ns = std::chrono::nanoseconds;

// the chrono types print through operators in the global namespace
std::ostream& print(std::ostream& o, const std::chrono::year_month_day& v) { return o << v; }
std::ostream& print(std::ostream& o, const std::chrono::year& v) { return o << v; }
std::ostream& print(std::ostream& o, const std::chrono::month& v) { return o << v; }
std::ostream& print(std::ostream& o, const std::chrono::day& v) { return o << v; }

namespace
{
// ------------------------------------------------------------------------------------------------ streams
std::string settings_of(const std::ios& s)
{
    return hx::cat("flags ", (long)s.flags(), " fill ", (int)s.fill(), " precision ", s.precision(), " width ", s.width(), " exceptions ", (int)s.exceptions(), " tie ", (void*)s.tie(), " buffer ", (void*)s.rdbuf(), " state ", (int)s.rdstate());
}
void shake(std::ostream& s, hx::rng& r)
{
    std::ios::fmtflags f{};
    for (auto flag : {std::ios::showbase, std::ios::showpos, std::ios::uppercase, std::ios::boolalpha, std::ios::showpoint, std::ios::unitbuf, std::ios::skipws})
        if (r.chance(40))
            f |= flag;
    f |= r.pick({std::ios::dec, std::ios::hex, std::ios::oct});
    f |= r.pick({std::ios::fmtflags{}, std::ios::left, std::ios::right, std::ios::internal});
    f |= r.pick({std::ios::fmtflags{}, std::ios::fixed, std::ios::scientific});
    s.flags(f);
    s.fill(r.pick({' ', '*', '0', '.'}));
    s.precision(r.in(0, 12));
}
// an ordinary program's settings again, and the standard streams' own buffers
struct streams
{
    std::ostringstream out, err, log;
    std::ios cout{nullptr}, cerr{nullptr}, clog{nullptr};
    std::streambuf *b1, *b2, *b3;
    explicit streams(hx::rng& r)
    {
        cout.copyfmt(std::cout);
        cerr.copyfmt(std::cerr);
        clog.copyfmt(std::clog);
        b1 = std::cout.rdbuf(out.rdbuf());
        b2 = std::cerr.rdbuf(err.rdbuf());
        b3 = std::clog.rdbuf(log.rdbuf());
        for (auto* s : {&std::cout, &std::cerr, &std::clog})
        {
            if (r.chance(75))
                shake(*s, r);
            if (r.chance(30))
                s->imbue(std::locale());
            if (r.chance(30))
                s->exceptions(std::ios::badbit);
        }
    }
    ~streams()
    {
        std::cout.exceptions(std::ios::goodbit);
        std::cerr.exceptions(std::ios::goodbit);
        std::clog.exceptions(std::ios::goodbit);
        std::cout.rdbuf(b1);
        std::cerr.rdbuf(b2);
        std::clog.rdbuf(b3);
        std::cout.copyfmt(cout);
        std::cerr.copyfmt(cerr);
        std::clog.copyfmt(clog);
    }
};

// ------------------------------------------------------------------------------------------------ the process
struct item
{
    const char* name;
    std::string value;
};
struct snapshot
{
    std::vector<item> items;
    std::vector<std::locale> locales;
};
int next_random;
std::string environment()
{
    std::vector<std::string> v;
    for (char** e = environ; e && *e; ++e)
        v.push_back(*e);
    std::sort(v.begin(), v.end());
    std::string all;
    for (auto& e : v)
        (all += e) += '\n';
    return all;
}
std::string dispositions(bool quit_signals)
{
    std::string all;
    for (int s = 1; s < 65; ++s)
    {
        if (!quit_signals && (s == SIGINT || s == SIGTERM || s == SIGABRT))
            continue;
        struct sigaction a;
        memset(&a, 0, sizeof a);
        if (sigaction(s, nullptr, &a))
            continue;
        std::string mask;
        for (int m = 1; m < 65; ++m)
            if (sigismember(&a.sa_mask, m) == 1)
                mask += hx::cat(" ", m);
        all += hx::cat(s, ": ", (void*)a.sa_handler, " ", a.sa_flags, mask, "\n");
    }
    return all;
}
std::string open_files()
{
    std::vector<std::string> v;
    if (DIR* d = opendir("/proc/self/fd"))
    {
        while (dirent* e = readdir(d))
        {
            if (e->d_name[0] == '.' || atoi(e->d_name) == dirfd(d))
                continue;
            char target[512];
            const auto n = readlinkat(dirfd(d), e->d_name, target, sizeof target);
            v.push_back(hx::cat(e->d_name, " -> ", n > 0 ? std::string(target, (size_t)n) : std::string()));
        }
        closedir(d);
    }
    std::sort(v.begin(), v.end());
    std::string all;
    for (auto& e : v)
        (all += e) += '\n';
    return all;
}
void start_random_sequences()
{
    srand(4711);
    srand48(4711);
}
snapshot look(bool quit_signals = true)
{
    snapshot s;
    auto put = [&](const char* name, std::string v) { s.items.push_back({name, std::move(v)}); };
    const long number = rand(), number48 = lrand48(); // before another thread comes to look
    start_random_sequences();
    put("random-sequence", hx::cat(number, " ", number48));
    put("environment", environment());
    put("C-locale", setlocale(LC_ALL, nullptr));
    char dir[4096];
    put("working-directory", getcwd(dir, sizeof dir) ? dir : "?");
    const auto mask = umask(0);
    umask(mask);
    put("umask", std::to_string(mask));
    put("signal-dispositions", dispositions(quit_signals));
    sigset_t blocked;
    pthread_sigmask(SIG_SETMASK, nullptr, &blocked);
    std::string b;
    for (int i = 1; i < 65; ++i)
        if (sigismember(&blocked, i) == 1)
            b += hx::cat(" ", i);
    put("signal-mask", b);
    put("floating-point-modes", hx::cat(fegetround(), " ", fegetexcept(), " ", _mm_getcsr() & ~0x3fu));
    put("terminate-handler", hx::cat((void*)std::get_terminate()));
    put("new-handler", hx::cat((void*)std::get_new_handler()));
    std::string limits;
    for (int i = 0; i < RLIM_NLIMITS; ++i)
    {
        rlimit l{};
        getrlimit((__rlimit_resource)i, &l);
        limits += hx::cat(l.rlim_cur, "/", l.rlim_max, " ");
    }
    put("limits", limits);
    std::string timers;
    for (auto which : {ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF})
    {
        itimerval t{};
        getitimer(which, &t);
        timers += hx::cat(t.it_value.tv_sec || t.it_value.tv_usec, " ", t.it_interval.tv_sec, ".", t.it_interval.tv_usec, " ");
    }
    put("interval-timers", timers);
    cpu_set_t cpus;
    CPU_ZERO(&cpus);
    sched_getaffinity(0, sizeof cpus, &cpus);
    sched_param sp{};
    sched_getparam(0, &sp);
    char name[32] = "";
    pthread_getname_np(pthread_self(), name, sizeof name);
    put("calling-thread", hx::cat(name, " cpus ", CPU_COUNT(&cpus), " ", hx::hash_str(std::string((const char*)&cpus, sizeof cpus)), " policy ", sched_getscheduler(0), " ", sp.sched_priority, " nice ", getpriority(PRIO_PROCESS, 0)));
    stack_t alternate{};
    sigaltstack(nullptr, &alternate);
    int death = 0;
    prctl(PR_GET_PDEATHSIG, &death);
    put("settings-of-the-thread", hx::cat("C locale ", (void*)uselocale(nullptr), " signal stack ", alternate.ss_sp, " ", alternate.ss_flags, " timer slack ", prctl(PR_GET_TIMERSLACK), " death signal ", death));
    put("process", hx::cat("group ", getpgrp(), " session ", getsid(0), " user ", getuid(), " ", geteuid(), " ", getgid(), " ", getegid(), " dumpable ", prctl(PR_GET_DUMPABLE), " no new privileges ", prctl(PR_GET_NO_NEW_PRIVS, 0, 0, 0, 0)));
    put("open-files", open_files());
    put("std::cin", settings_of(std::cin));
    put("std::cout", settings_of(std::cout));
    put("std::cerr", settings_of(std::cerr));
    put("std::clog", settings_of(std::clog));
    s.locales = {std::locale(), std::cin.getloc(), std::cout.getloc(), std::cerr.getloc(), std::clog.getloc()};
    return s;
}
enum what_t { everything, no_files, inside }; // inside: what a callback sees, on whichever thread it runs
bool counts(const char* name, what_t w)
{
    if (w == everything)
        return true;
    if (!strcmp(name, "open-files"))
        return false;
    return w == no_files || (strcmp(name, "calling-thread") && strcmp(name, "settings-of-the-thread") && strcmp(name, "signal-mask") && strcmp(name, "floating-point-modes"));
}
void compare(const snapshot& a, const snapshot& b, const std::string& what, what_t w = everything)
{
    for (size_t i = 0; i < a.items.size(); ++i)
        if (a.items[i].value != b.items[i].value && counts(a.items[i].name, w))
            hx::fail(hx::cat("changed-", a.items[i].name), hx::cat(what, " changed it from\n", a.items[i].value, "\nto\n", b.items[i].value));
    static const char* whose[] = {"C++", "std::cin", "std::cout", "std::cerr", "std::clog"};
    for (size_t i = 0; i < a.locales.size(); ++i)
        if (!(a.locales[i] == b.locales[i]))
            hx::fail(hx::cat("changed-locale-", whose[i]), hx::cat(what, " changed the locale (", whose[i], ")"));
    hx::count("states_compared");
}
snapshot start()
{
    start_random_sequences();
    (void)look();
    return look();
}

// a program with settings of its own
void on_terminate() { std::_Exit(3); }
void on_new() { throw std::bad_alloc(); }
void ignore(int) {}
struct program
{
    mode_t mask;
    sigset_t blocked;
    struct sigaction usr1, usr2;
    std::terminate_handler t;
    std::new_handler n;
    std::string c_locale;
    hx::other_locale locale;
    char name[32] = "";
    std::vector<std::string> variables;
    explicit program(hx::rng& r)
        : locale(r.chance(40))
    {
        mask = umask((mode_t)r.pick({0022, 0077, 0002, 0}));
        sigset_t b;
        sigemptyset(&b);
        if (r.chance(40))
            sigaddset(&b, SIGUSR1);
        if (r.chance(30))
            sigaddset(&b, SIGPIPE);
        pthread_sigmask(SIG_BLOCK, &b, &blocked);
        struct sigaction a;
        memset(&a, 0, sizeof a);
        a.sa_handler = r.chance(50) ? SIG_IGN : ignore;
        a.sa_flags = r.chance(50) ? SA_RESTART : 0;
        sigaction(SIGUSR1, &a, &usr1);
        sigaction(SIGUSR2, &a, &usr2);
        t = std::set_terminate(r.chance(50) ? on_terminate : std::get_terminate());
        n = std::set_new_handler(r.chance(50) ? on_new : nullptr);
        c_locale = setlocale(LC_ALL, nullptr);
        setlocale(LC_ALL, r.pick({"C", "C.UTF-8", "POSIX"}));
        pthread_getname_np(pthread_self(), name, sizeof name);
        pthread_setname_np(pthread_self(), r.pick({"state", "my-program"}));
        for (const char* v : {"TZ", "LANG", "LC_ALL", "VF45_NUMBER", "VF45_TEXT"})
            if (r.chance(50))
            {
                variables.push_back(v);
                setenv(v, r.pick({"", "UTC", "Europe/Rome", "C", "7", "some text"}), 1);
            }
        fesetround(FE_TONEAREST);
    }
    ~program()
    {
        for (auto& v : variables)
            unsetenv(v.c_str());
        pthread_setname_np(pthread_self(), name);
        setlocale(LC_ALL, c_locale.c_str());
        std::set_new_handler(n);
        std::set_terminate(t);
        sigaction(SIGUSR1, &usr1, nullptr);
        sigaction(SIGUSR2, &usr2, nullptr);
        pthread_sigmask(SIG_SETMASK, &blocked, nullptr);
        umask(mask);
    }
};

// ------------------------------------------------------------------------------------------------ texts to any stream
date any_date(hx::rng& r)
{
    return date(std::chrono::year_month_day{std::chrono::sys_days{std::chrono::days(r.in(-800000, 2900000))}});
}
template <typename T> void show(std::ostream& o, std::string& expected, const T& v)
{
    expected = v.to_string();
    o << v;
}
void text_iter(uint64_t seed)
{
    hx::rng r(seed);
    program p(r);
    streams io(r);
    const auto before = start();
    for (int k = (int)r.in(5, 40); k > 0; --k)
    {
        std::ostringstream own;
        std::ostream& o = r.chance(25) ? std::cout : own;
        if (&o == &own)
        {
            shake(o, r);
            if (r.chance(50))
                o.imbue(std::locale());
            if (r.chance(30))
                o.exceptions(std::ios::badbit | std::ios::failbit);
            if (r.chance(10))
                o.tie(&std::cout);
        }
        io.out.str("");
        const auto settings = settings_of(o);
        const auto locale = o.getloc();
        const bool wide = r.chance(20);
        if (wide)
            o.width(r.in(1, 40));
        std::string expected;
        const char* type = "";
        switch (r.below(13))
        {
        case 0:
        {
            const auto d = any_date(r);
            type = "date";
            expected = d.to_string();
            o << d;
            break;
        }
        case 1:
        {
            const auto t = tc::sdk::time(ns(r.in(0, 86399) * 1000000000ll + r.in(0, 999999999)));
            type = "time";
            expected = t.to_string();
            o << t;
            break;
        }
        case 2:
        {
            const auto t = datetime(sys_time_point{ns(r.in(-4000000000ll, 4000000000ll) * 1000000000ll + r.in(0, 999999999))});
            type = "datetime";
            expected = t.to_string();
            o << t;
            break;
        }
        case 3:
        {
            const auto t = timedelta(ns(r.in(-4000000ll, 4000000ll) * 1000000000ll + r.in(0, 999999999)));
            type = "timedelta";
            expected = t.to_string();
            o << t;
            break;
        }
        case 4:
        {
            const std::chrono::year_month_day v{std::chrono::sys_days{std::chrono::days(r.in(-800000, 2900000))}};
            type = "year_month_day";
            char b[64];
            snprintf(b, sizeof b, "%d-%02u-%02u", (int)v.year(), (unsigned)v.month(), (unsigned)v.day());
            expected = b;
            print(o, v);
            break;
        }
        case 5:
        {
            const std::chrono::year v{(int)r.in(-9999, 9999)};
            type = "year";
            char b[64];
            snprintf(b, sizeof b, (int)v < 0 ? "%05d" : "%04d", (int)v);
            expected = b;
            print(o, v);
            break;
        }
        case 6:
        {
            const std::chrono::month v{(unsigned)r.in(1, 12)};
            type = "month";
            expected = std::to_string((unsigned)v);
            print(o, v);
            break;
        }
        case 7: type = "point", show(o, expected, point<int>((int)r.in(-2000000, 2000000), (int)r.in(-9, 9))); break;
        case 8: type = "size", show(o, expected, tc::sdk::size<double>((double)r.in(0, 2000000) / 7, 1)); break;
        case 9: type = "range", show(o, expected, range<float>((float)r.in(-200000, 0) / 3, 1.5f)); break;
        case 10: type = "line", show(o, expected, line<int64_t>(point<int64_t>(r.in(-9, 9), 123456), point<int64_t>(3, r.in(-2000000, 2000000)))); break;
        case 11: type = "rectangle", show(o, expected, rectangle<double>(1.5, (double)r.in(-9, 9), 1234567, (double)r.in(1, 1000) / 3)); break;
        default:
        {
            const std::chrono::day v{(unsigned)r.in(1, 31)};
            type = "day";
            char b[64];
            snprintf(b, sizeof b, "%02u", (unsigned)v);
            expected = b;
            print(o, v);
        }
        }
        const std::string got = &o == &own ? own.str() : io.out.str();
        if (settings_of(o) != settings)
            hx::fail(hx::cat("stream-changed-by-", type), hx::cat("writing a ", type, " left the stream with ", settings_of(o), " instead of ", settings));
        if (!(o.getloc() == locale))
            hx::fail(hx::cat("stream-changed-by-", type), hx::cat("writing a ", type, " left the stream with another locale"));
        if (!wide && got != expected)
            hx::fail(hx::cat("stream-text-of-", type), hx::cat("a stream with ", settings, " received ", hx::quote(got), ", not ", hx::quote(expected)));
        if (hx::want_sample())
            hx::sample(hx::cat("text: ", type, " ", got, " on a stream with ", settings));
        hx::count("texts_written");
    }
    compare(before, look(), "writing dates and times to streams");
    hx::state(seed);
}

// ------------------------------------------------------------------------------------------------ the parser
void parser_iter(uint64_t seed)
{
    hx::rng r(seed);
    program prog(r);
    streams io(r);
    const auto before = start();
    {
        std::string name = "program", version = "1.2.3", description = r.chance(50) ? "a description" : "";
        argument_parser p(name, version, description);
        int number = 0;
        unsigned long large = 0;
        double real = 0;
        std::string text, first, second;
        std::vector<std::string> texts;
        std::vector<int> numbers;
        bool flag = false, other = false;
        const bool with_env = r.chance(60);
        p.add_option("number", 'n', number, 3, "a number", false, with_env ? "VF45_NUMBER" : "");
        p.add_option("large", large, 1000000ul, "a large number");
        p.add_option("real", 'r', real, 1.5, "a real number");
        p.add_option("text", 't', text, std::string("some"), "a text", r.chance(20), with_env ? "VF45_TEXT" : "");
        p.add_option("texts", texts, {}, "texts");
        p.add_option("numbers", 'm', numbers, {1, 2}, "numbers");
        p.add_flag("flag", 'f', flag, "a flag", with_env ? "VF45_NUMBER" : "");
        p.add_flag("other", other, "another flag");
        int positionals = (int)r.below(3);
        if (positionals > 0)
            p.add_positional("first", first, "the first");
        if (positionals > 1)
            p.add_positional("second", second, "the second");
        std::filesystem::path path;
        float small = 0;
        char letter = 0;
        short tiny = 0;
        bool yes = false;
        std::vector<double> reals;
        std::vector<std::filesystem::path> paths;
        p.add_option("path", path, std::filesystem::path("/tmp"), "a path");
        p.add_option("small", small, 0.5f, "a small number");
        p.add_option("letter", letter, 'x', "a letter");
        p.add_option("tiny", tiny, (short)3, "a tiny number");
        p.add_option("yes", yes, false, "yes or no");
        p.add_option("reals", reals, {}, "real numbers");
        p.add_option("paths", paths, {}, "paths");
        auto checked = std::make_unique<optional_argument<int>>("checked", 'c', number, 0, "a checked number");
        checked->set_validator([&](const int& v) {
            compare(before, look(), "the argument_parser calling a validator", inside);
            hx::count("validators_called");
            if (v == 13)
                throw std::runtime_error("thirteen");
            return v < 10;
        });
        p.add_option(std::move(checked));

        std::vector<std::string> a{"program"};
        const bool sound = r.chance(50);
        if (sound)
            for (int k = 0; k < positionals; ++k)
                a.push_back(hx::cat("file ", k));
        for (int k = sound ? (int)r.below(6) : 0; k > 0; --k)
            a.push_back(r.pick<std::string>({"--number=7", "-n=12", "--large=18446744073709551615", "--real=2.25", "--text=a,b=c d", "--texts=a,b,c", "--numbers=1,2,3", "-m=4", "--flag", "-f", "--other", "--checked=3", "--path=../x/./y", "--small=1e-3", "--letter=q", "--tiny=-7", "--yes=1", "--reals=1.5,2,1e300", "--paths=/a,b,../c"}));
        for (int k = sound ? 0 : (int)r.below(8); k > 0; --k)
            a.push_back(r.pick<std::string>({"--number=7", "-n=12", "-n", "9", "--large=18446744073709551615", "--real=2.25", "-r", "1e3", "--text=a,b=c d", "-t", "--texts=a,b,,c", "--numbers=1,2,3", "-m=4,x", "--flag", "-f", "--other", "--wrong", "-x", "file name", "a,b", "", "--", "-", "---", "--=", "-h", "--help", "--version", "-v", "--number=abc", "--real=none", "--checked=3", "--checked=13", "-c=11", "--path=.", "--path=/nowhere/at/all", "--small=x", "--letter=qq", "--tiny=99999", "--yes=no", "--reals=1,,x", "--paths=~", "\xff\xfe"}));
        std::vector<char*> argv;
        for (auto& s : a)
            argv.push_back(s.data());
        argv.push_back(nullptr);
        const auto words = a;
        const auto pointers = argv;
        parse_result result = parse_result::error;
        result = p.parse((int)a.size(), argv.data());
        hx::count(result == parse_result::success ? "parsed" : result == parse_result::error ? "refused" : "helped");
        if (a != words || argv != pointers)
            hx::fail("argv-changed", "parsing changed the program's argument vector");
        if (name != "program" || version != "1.2.3")
            hx::fail("argument-changed", "a text passed to the parser was changed");
        std::string words_text;
        for (auto& s : words)
            words_text += " " + hx::quote(s);
        if (hx::want_sample())
            hx::sample("parser:" + words_text);
        compare(before, look(), "the argument_parser called with" + words_text);
    }
    compare(before, look(), "an argument_parser's life");
    hx::count("parsers");
    hx::state(seed);
}

// ------------------------------------------------------------------------------------------------ values
struct one : singleton<one>
{
    int x = 1;
};
struct service_i
{
    virtual ~service_i() = default;
    virtual int f() = 0;
};
struct service_a : service_i
{
    int f() override { return 1; }
};
void values_iter(uint64_t seed)
{
    hx::rng r(seed);
    program p(r);
    streams io(r);
    (void)uuid_generator::instance().create(); // its one random device may stay open
    const auto before = start();
    std::string done;
    for (int k = (int)r.in(1, 25); k > 0; --k)
    {
        auto& g = uuid_generator::instance();
        const int kind = (int)r.below(11);
        done += hx::cat(" ", kind);
        try
        {
            switch (kind)
            {
            case 0: (void)g.create(); break;
            case 1: (void)g.from_string(r.pick<std::string>({g.create().to_string(), "not one", "", "{00000000-0000-0000-0000-000000000000}"})); break;
            case 2:
            {
                (void)datetime();
                (void)datetime::utc_now().to_string();
                (void)date::today();
                (void)tc::sdk::time::utc_now<ns>().to_string<std::chrono::microseconds>("%H-%M");
                (void)datetime::utc_now<ns>().to_string<ns>(r.pick<std::string>({"%A %d %B %Y", "%c", "%x %X", "%Ex", "%j %U"}));
                (void)timedelta(ns(r.in(-1000000, 1000000))).to_string<std::chrono::seconds>();
                (void)datetime::from_string(r.pick<std::string>({"2024-02-29T23:59:59", "2023-02-29 00:00:00", "", "1900-01-01T00:00:00.5"}));
                break;
            }
            case 9:
            {
                (void)date::from_string(r.pick<std::string>({"29 February 2024", "29 Feb 2024", "x"}), r.pick<std::string>({"%d %B %Y", "%d %b %Y"})).to_string("%A %x");
                break;
            }
            case 3: (void)date::from_string(r.pick<std::string>({"2024-02-29", "2023-02-29", "x", "-0044-03-15"})).to_string(); break;
            case 4: (void)tc::sdk::time::from_string(r.pick<std::string>({"23:59:59", "24:00:00", "1:2:3", ""})).to_string(); break;
            case 5:
            {
                (void)(any_date(r) + timedelta(ns(86400000000000ll * r.in(-1000, 1000))));
                (void)timedelta(ns(r.in(-1000000, 1000000))).to_string();
                (void)(timedelta(ns(r.in(1, 1000))) / (int)r.below(2));
                break;
            }
            case 6:
            {
                const rectangle<double> a(0.5, 1.5, 10, (double)r.in(1, 20)), b((double)r.in(-5, 5), 0, 3, 4);
                (void)a.intersects(b);
                (void)a.contains(b);
                const line<double> l(point<double>(0, 0), point<double>((double)r.in(1, 9), 3)), m(point<double>(1, (double)r.in(-3, 3)), point<double>(4, 0));
                (void)l.get_intersection(m);
                (void)point<double>(1, 2).distance(point<double>(3, (double)r.in(0, 1000000)));
                break;
            }
            case 7:
            {
                auto& s = service_locator::instance();
                (void)s.register_service<service_i, service_a>();
                (void)s.get<service_i>();
                (void)s.unregister<service_i>();
                (void)one::instance();
                break;
            }
            default:
            {
                stopwatch w;
                (void)w.elapsed();
                w.reset();
                rate_limiter l(1000000);
                l.sync();
            }
            }
        }
        catch (const std::exception&)
        {
            hx::count("exceptions");
        }
        hx::count("calls");
    }
    compare(before, look(), hx::cat("one of the calls", done));
    hx::state(seed);
}

// ------------------------------------------------------------------------------------------------ components
void components_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.clock_tick = 1;
    program p(r);
    streams io(r);
    ds::run(cfg, [&] {
        const int alive = ds::alive_count();
        const auto before = start();
        const int kind = (int)r.below(6);
        static const char* names[] = {"thread_pool", "task_scheduler", "event_dispatcher", "high_precision_timer", "blocking_queue", "observable"};
        auto check = [&](const char* call) { compare(before, look(), hx::cat(names[kind], "::", call), no_files); };
        auto within = [&] {
            compare(before, look(), hx::cat(names[kind], " calling back"), inside);
            hx::count("callbacks");
        };
        const int rounds = (int)r.in(1, 3);
        if (kind == 0)
        {
            thread_pool tp;
            for (int k = 0; k < rounds; ++k)
            {
                tp.start((unsigned)r.in(0, 5));
                check("start");
                std::vector<std::future<int>> f;
                for (int i = (int)r.in(1, 5); i > 0; --i)
                    f.push_back(tp.run([i, &within] { ds::point(); within(); if (i == 2) throw std::runtime_error("x"); return i; }));
                check("run");
                for (auto& x : f)
                    try
                    {
                        (void)x.get();
                    }
                    catch (const std::exception&)
                    {
                    }
                check("(tasks executed)");
                if (r.chance(80))
                {
                    tp.stop();
                    check("stop");
                }
            }
        }
        else if (kind == 1)
        {
            task_scheduler s;
            for (int k = 0; k < rounds; ++k)
            {
                s.start((unsigned)r.in(0, 3));
                check("start");
                s.every("a", ns(1000000 * r.in(1, 20)), [&within] { within(); });
                auto f = s.in("b", ns(1000000 * r.in(1, 20)), [] { return 1; });
                auto g = s.at(clock::now() + ns(1000000 * r.in(-5, 20)), [](int x) { return x; }, 1);
                check("at/in/every");
                if (f)
                    (void)f->get();
                if (g)
                    (void)g->get();
                s.update_interval("a", ns(1000000 * r.in(1, 20)));
                s.set_enabled("a", r.chance(50));
                check("update_interval");
                ds::sleep_for((uint64_t)r.in(0, 100) * 1000000);
                s.remove_task("a");
                check("(tasks executed)");
                if (r.chance(80))
                {
                    s.stop();
                    check("stop");
                }
            }
        }
        else if (kind == 2)
        {
            event_dispatcher d;
            for (int k = 0; k < rounds; ++k)
            {
                d.start((unsigned)r.in(0, 3));
                check("start");
                const auto id = d.add_handler<int>("a", [&within](int) { within(); });
                d.add_handler<std::string>("a", [](std::string) {});
                check("add_handler");
                d.emit("a", 1);
                d.emit("a", std::string("x"));
                d.emit("none", 1);
                check("emit");
                ds::wait_quiescent(false);
                check("(handlers called)");
                d.remove_handler(id);
                d.remove_event("a");
                check("remove_event");
                if (r.chance(80))
                {
                    d.stop();
                    check("stop");
                }
            }
        }
        else if (kind == 3)
        {
            high_precision_timer t;
            for (int k = 0; k < rounds; ++k)
            {
                t.set_callback([&within] { ds::point(); within(); });
                t.start(ns(1000000 * r.in(1, 20)));
                check("start");
                ds::sleep_for((uint64_t)r.in(0, 100) * 1000000);
                (void)t.invoked_callback_count();
                check("(ticks)");
                t.stop();
                check("stop");
            }
        }
        else if (kind == 4)
        {
            blocking_queue<std::string> q((size_t)r.in(1, 4));
            std::thread other([&] {
                for (int i = 0; i < 10; ++i)
                    q.push(std::to_string(i));
            });
            for (int i = 0; i < 10; ++i)
                (void)q.pop();
            other.join();
            check("push/pop");
            q.try_push("x");
            (void)q.try_pop();
            (void)q.try_pop();
            check("try_push/try_pop");
        }
        else
        {
            int seen = 0;
            observable<int> o(1, [&](const int& v) { seen += v; within(); });
            for (int i = 0; i < 10; ++i)
            {
                o = (int)r.below(3);
                o.callback_enabled(r.chance(50));
            }
            (void)o.value();
            check("operator=");
        }
        ds::wait_quiescent(false);
        if (ds::alive_count() != alive)
            hx::fail("threads-left", hx::cat("after a ", names[kind], "'s life ", ds::alive_count(), " threads are left, before it there were ", alive));
        compare(before, look(), hx::cat("a ", names[kind], "'s life"));
        hx::count(names[kind]);
    });
    hx::state(hx::hash64(seed, ds::trace_hash()));
}

// ------------------------------------------------------------------------------------------------ signals
void signals_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    cfg.clock_tick = 1;
    program p(r);
    streams io(r);
    struct sigaction old[3];
    const int sigs[] = {SIGINT, SIGTERM, SIGABRT};
    for (int i = 0; i < 3; ++i)
        sigaction(sigs[i], nullptr, &old[i]);
    ds::run(cfg, [&] {
        start_random_sequences();
        (void)look();
        const auto before = look(false);
        for (int k = (int)r.in(1, 4); k > 0; --k)
        {
            install_signal_handlers(r.chance(70) ? std::function<void(const char*, int)>([](const char*, int) {}) : nullptr);
            compare(before, look(false), "install_signal_handlers (but for SIGINT, SIGTERM and SIGABRT)");
            const auto installed = look();
            if (r.chance(50))
                quit("quitting", 3);
            else
                raise(r.pick({SIGINT, SIGTERM, SIGABRT}));
            compare(installed, look(), "the delivery of a signal, or quit");
            wait_for_quit();
            compare(installed, look(), "wait_for_quit");
            hx::count("signals");
        }
        install_signal_handlers();
    });
    for (int i = 0; i < 3; ++i)
        sigaction(sigs[i], &old[i], nullptr);
    hx::state(hx::hash64(seed, ds::trace_hash()));
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
        {"text", text_iter},
        {"parser", parser_iter},
        {"values", values_iter},
        {"components", components_iter},
        {"signals", signals_iter},
    });
}
