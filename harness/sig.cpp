// signal_handler: C17. "ctl": quit() and raise() against wait_for_quit() on the controlled scheduler; "proc": real
// processes, real asynchronous signals. Signals are only ever sent to the sending process itself.
#include "dsched.hpp"
#include "hx.hpp"

#include <teiacare/sdk/signal_handler.hpp>

#include <atomic>
#include <csignal>
#include <cstring>
#include <memory>
#include <pthread.h>
#include <string>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>

namespace
{
enum ek { ISSUE = 1, ISSUED, CB, CB_END, WAIT, WAITED };
const char* en[] = {"", "issue", "issued", "callback", "callback-end", "wait_for_quit", "wait_for_quit-ret"};
std::string timeline()
{
    std::string s;
    for (int i = 0; i < rec::size(); ++i)
        s += hx::cat(" ", i, ":T", rec::at(i).tid, " ", en[rec::at(i).kind], "(", rec::at(i).a, ",", rec::at(i).b, ")");
    return s;
}

const int sigs[] = {SIGINT, SIGTERM, SIGABRT};
const char* name_of(int s) { return s == SIGINT ? "SIGINT" : s == SIGTERM ? "SIGTERM" : s == SIGABRT ? "SIGABRT" : "?"; }

// what the callback is to be told; set before each issue
struct expect_t
{
    char name[64];
    int number;
};
expect_t expected[64];

// gen: which installed callback this is
void on_quit(int gen, const char* message, int number)
{
    // find the issue this belongs to: unique (name, number) pairs
    int id = -1;
    for (int i = 0; i < 64; ++i)
        if (expected[i].name[0] && !strcmp(expected[i].name, message) && expected[i].number == number)
            id = i;
    rec::add(CB, id, gen);
}

// ------------------------------------------------------------------------------------------------ controlled schedules
void ctl_iter(uint64_t seed)
{
    hx::rng r(seed);
    ds::config cfg = ds::random_config(seed);
    const int rounds = (int)r.in(1, 5);
    const bool separate = r.chance(70);
    memset(expected, 0, sizeof expected);
    ds::run(cfg, [&] {
        tc::sdk::install_signal_handlers([](const char* m, int n) {
            on_quit(1, m, n);
            ds::point();
            rec::add(CB_END);
        });
        std::thread waiter;
        std::vector<std::thread> issuers;
        if (separate)
            waiter = std::thread([&] {
                for (int i = 0; i < rounds; ++i)
                {
                    rec::add(WAIT, i);
                    tc::sdk::wait_for_quit();
                    rec::add(WAITED, i);
                    rec::set(1, i + 1);
                    if (ds::rnd() % 3 == 0)
                        ds::sleep_for(ds::rnd() % 3000);
                }
            });
        auto issue = [&](int i, int kind) {
            if (kind < 3)
            {
                strcpy(expected[i].name, name_of(sigs[kind]));
                expected[i].number = sigs[kind];
                rec::add(ISSUE, i, sigs[kind]);
                raise(sigs[kind]);
            }
            else
            {
                snprintf(expected[i].name, sizeof expected[i].name, "quit message %d", i);
                expected[i].number = kind == 3 ? 0 : i + 1000;
                rec::add(ISSUE, i, expected[i].number);
                if (kind == 3)
                    tc::sdk::quit(expected[i].name);
                else
                    tc::sdk::quit(expected[i].name, expected[i].number);
            }
            rec::add(ISSUED, i);
        };
        for (int i = 0; i < rounds; ++i)
        {
            const int kind = (int)r.below(5);
            if (r.chance(40))
                ds::sleep_for(r.below(5000));
            memset(expected, 0, sizeof expected);
            if (r.chance(50))
                issue(i, kind);
            else
                std::thread([&] { issue(i, kind); }).join();
            if (separate)
                while (rec::get(1) != i + 1) // the next one only when this one has released the wait
                    ds::sleep_for(2000);
            else
            {
                rec::add(WAIT, i);
                tc::sdk::wait_for_quit();
                rec::add(WAITED, i);
            }
        }
        if (waiter.joinable())
            waiter.join();
    });
    // judge
    int issued = 0, cbs = 0, ended = 0, waited = 0;
    uint64_t h = 0;
    for (int i = 0; i < rec::size(); ++i)
    {
        const rec::ev& e = rec::at(i);
        h = hx::hash64(h, (uint64_t)e.kind * 100 + (uint64_t)e.tid);
        switch (e.kind)
        {
        case ISSUE: ++issued; break;
        case CB:
            ++cbs;
            if (e.a != issued - 1 || cbs != issued)
                hx::fail("callback", hx::cat("callback number ", cbs, " (event ", i, ") does not report the one signal or quit being issued:", timeline()));
            hx::count("callbacks");
            break;
        case CB_END: ++ended; break;
        case ISSUED:
            if (cbs != issued)
                hx::fail("callback-missing", "quit or signal was handled without the callback:" + timeline());
            break;
        case WAITED:
            ++waited;
            if (waited > issued)
                hx::fail("wait-returned-early", "wait_for_quit returned before anything had been issued:" + timeline());
            if (waited > ended)
                hx::fail("wait-before-callback", "wait_for_quit returned before the callback had been run:" + timeline());
            hx::count("waits");
            break;
        default: break;
        }
    }
    if (waited != rounds || cbs != rounds)
        hx::fail("count", timeline());
    hx::state(h);
    if (hx::want_sample())
        hx::sample(timeline());
}

// ------------------------------------------------------------------------------------------------ real processes
void pause_us(uint64_t us)
{
    timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    nanosleep(&t, nullptr);
}

void child(uint64_t seed)
{
    hx::rng r(seed);
    memset(expected, 0, sizeof expected);
    const int gens = (int)r.in(1, 2);
    const bool no_callback = r.chance(10);
    for (int g = 1; g <= gens; ++g)
    {
        if (no_callback && g == gens)
            tc::sdk::install_signal_handlers();
        else
            tc::sdk::install_signal_handlers([g](const char* m, int n) { on_quit(g, m, n); });
    }
    const int rounds = (int)r.in(1, 4);
    std::atomic<int> released{0};
    std::atomic<bool> in_wait{false};
    const bool other_waits = r.chance(60);
    std::thread waiter;
    pthread_t wt{};
    if (other_waits)
    {
        waiter = std::thread([&] {
            for (int i = 0; i < rounds; ++i)
            {
                in_wait = true;
                rec::add(WAIT, i);
                tc::sdk::wait_for_quit();
                rec::add(WAITED, i);
                in_wait = false;
                ++released;
            }
        });
        wt = waiter.native_handle();
        if (r.chance(60))
            while (!in_wait)
                pause_us(20);
        if (r.chance(60))
            pause_us(r.below(2000)); // surely asleep in the wait
    }
    std::string log;
    int total = 0;
    for (int i = 0; i < rounds; ++i)
    {
        const int kind = (int)r.below(7);
        const int sig = sigs[r.below(3)];
        memset(expected, 0, sizeof expected);
        if (kind < 5)
        {
            strcpy(expected[i].name, name_of(sig));
            expected[i].number = sig;
        }
        else
        {
            snprintf(expected[i].name, sizeof expected[i].name, "stop, round %d", i);
            expected[i].number = kind == 5 ? 0 : (int)r.in(-5, 100);
        }
        log += hx::cat(" round ", i, ": ", expected[i].name, " by ", kind);
        rec::add(ISSUE, i, expected[i].number);
        switch (kind)
        {
        case 0: raise(sig); break;
        case 1: kill(getpid(), sig); break;
        case 2: std::thread([&] { raise(sig); }).join(); break;
        case 3: // straight into the thread that waits
            if (other_waits)
                pthread_kill(wt, sig);
            else
                raise(sig);
            break;
        case 4:
        {
            // into a bystander
            std::atomic<bool> stop{false};
            std::thread t([&] {
                while (!stop)
                    pause_us(100);
            });
            pthread_kill(t.native_handle(), sig);
            pause_us(500);
            stop = true;
            t.join();
            break;
        }
        case 5: tc::sdk::quit(expected[i].name); break;
        default: std::thread([&] { tc::sdk::quit(expected[i].name, expected[i].number); }).join();
        }
        ++total;
        if (other_waits)
            while (released != i + 1)
                pause_us(50);
        else
        {
            if (r.chance(30))
                pause_us(r.below(500));
            rec::add(WAIT, i);
            tc::sdk::wait_for_quit();
            rec::add(WAITED, i);
        }
        // the callback ran exactly once, before wait_for_quit returned
        int cbs = 0, gen_bad = 0, id_bad = 0;
        for (int k = 0; k < rec::size(); ++k)
            if (rec::at(k).kind == CB)
            {
                ++cbs;
                gen_bad += rec::at(k).b != gens;
                id_bad += rec::at(k).a != cbs - 1;
            }
        const int want = no_callback ? 0 : total;
        if (cbs != want || gen_bad || id_bad)
            hx::fail("callback", hx::cat("wait_for_quit returned after ", total, " signals/quits; the callback was run ", cbs, " times (wanted ", want, "), ", gen_bad, " times the one installed earlier, ", id_bad, " times with another name or number;", log, ";", timeline()));
    }
    if (other_waits)
        waiter.join();
    int issued = 0, waited = 0;
    for (int i = 0; i < rec::size(); ++i)
    {
        issued += rec::at(i).kind == ISSUE;
        waited += rec::at(i).kind == WAITED;
        if (waited > issued)
            hx::fail("wait-returned-early", "wait_for_quit returned before anything had been issued:" + log + timeline());
    }
    // nothing left over: a further wait blocks until a further quit
    std::atomic<bool> done{false};
    std::thread last([&] {
        tc::sdk::wait_for_quit();
        done = true;
    });
    pause_us(300);
    if (done)
        hx::fail("wait-returned-early", "a further wait_for_quit returned without a further quit:" + log);
    memset(expected, 0, sizeof expected);
    strcpy(expected[rounds].name, "the end");
    tc::sdk::quit("the end", 0);
    last.join();
    _exit(0);
}

// Several quits and signals, one after the other or at the same time, before anyone waits or while somebody does: every one is reported.
void burst_child(uint64_t seed)
{
    hx::rng r(seed);
    memset(expected, 0, sizeof expected);
    static std::atomic<int> cbs[64], ended{0};
    static std::atomic<int> unknown{0};
    static int nested_at = -1;
    const int n = (int)r.in(2, 8);
    int order[3] = {0, 1, 2}, next_sig = 0;
    for (int i = 2; i > 0; --i)
        std::swap(order[i], order[r.below((uint64_t)i + 1)]);
    std::vector<int> kind((size_t)n);
    std::string log;
    for (int i = 0; i < n; ++i)
    {
        const bool sig = next_sig < 3 && r.chance(50);
        kind[(size_t)i] = sig ? sigs[order[next_sig++]] : 0;
        if (sig)
        {
            strcpy(expected[i].name, name_of(kind[(size_t)i]));
            expected[i].number = kind[(size_t)i];
        }
        else
        {
            snprintf(expected[i].name, sizeof expected[i].name, "stop, number %d", i);
            expected[i].number = r.chance(50) ? 0 : (int)r.in(-100, 100);
        }
        log += hx::cat(" ", expected[i].name);
    }
    if (r.chance(30))
    {
        // the callback of the first one issues another
        nested_at = 0;
        snprintf(expected[n].name, sizeof expected[n].name, "from the callback");
        expected[n].number = 5;
        log += " (nested)";
    }
    const int all = n + (nested_at >= 0);
    tc::sdk::install_signal_handlers([](const char* m, int k) {
        int id = -1;
        for (int i = 0; i < 64; ++i)
            if (expected[i].name[0] && !strcmp(expected[i].name, m) && expected[i].number == k)
                id = i;
        if (id < 0)
        {
            ++unknown;
            return;
        }
        ++cbs[id];
        if (id == nested_at)
            tc::sdk::quit("from the callback", 5);
        ++ended;
    });
    auto issue = [&](int i) {
        if (kind[(size_t)i])
            raise(kind[(size_t)i]);
        else if (expected[i].number)
            tc::sdk::quit(expected[i].name, expected[i].number);
        else
            tc::sdk::quit(expected[i].name);
    };
    std::atomic<int> ended_at_return{-1};
    auto wait = [&] {
        tc::sdk::wait_for_quit();
        ended_at_return = ended.load();
    };
    const bool waits_before = r.chance(50), concurrent = r.chance(50);
    std::thread waiter;
    if (waits_before)
    {
        waiter = std::thread(wait);
        if (r.chance(50))
            pause_us(r.below(500));
    }
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i)
        if (concurrent)
            th.emplace_back([&, i] { issue(i); });
        else
        {
            issue(i);
            if (waits_before && r.chance(30))
                pause_us(r.below(100));
        }
    for (auto& t : th)
        t.join();
    if (waits_before)
        waiter.join();
    else
        wait();
    if (ended_at_return < 1)
        hx::fail("wait-before-callback", "wait_for_quit returned before any callback had been run:" + log);
    std::string bad;
    for (int i = 0; i < all; ++i)
        if (cbs[i] != 1)
            bad += hx::cat(" ", expected[i].name, " x", cbs[i].load());
    if (!bad.empty() || unknown)
        hx::fail("callback", hx::cat(all, concurrent ? " concurrent" : " consecutive", " signals/quits:", log, "; the callback was not run exactly once for", bad, ", and ", unknown.load(), " times with another name or number"));
    // and one more after all that
    strcpy(expected[all].name, "the end");
    tc::sdk::quit("the end", 0);
    tc::sdk::wait_for_quit();
    if (cbs[all] != 1)
        hx::fail("callback", hx::cat("the callback was run ", cbs[all].load(), " times for a quit after", log));
    _exit(0);
}

template <void (*CHILD)(uint64_t)>
void proc_iter(uint64_t seed)
{
    fflush(stdout);
    const pid_t p = fork();
    if (p == 0)
        CHILD(seed);
    int st = 0;
    uint64_t waited_us = 0;
    for (;;)
    {
        const pid_t w = waitpid(p, &st, WNOHANG);
        if (w == p)
            break;
        pause_us(waited_us < 20000 ? 200 : 5000);
        waited_us += waited_us < 20000 ? 200 : 5000;
        if (waited_us > 20000000)
        {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            hx::fail("wait-hangs", hx::cat("the process did not finish: a signal or quit did not release wait_for_quit (plan seed ", seed, ")"));
        }
    }
    if (WIFSIGNALED(st))
        hx::fail(hx::cat("killed-by-signal-", WTERMSIG(st)), hx::cat("the process was killed by ", strsignal(WTERMSIG(st)), " although the handlers were installed (plan seed ", seed, ")"));
    if (WEXITSTATUS(st))
        _exit(WEXITSTATUS(st)); // it has said why
    hx::count("processes");
    hx::state(seed);
}
} // namespace

int main(int argc, char** argv)
{
    return hx::main_(argc, argv, {
        {"ctl", ctl_iter},
        {"proc", proc_iter<child>},
        {"burst", proc_iter<burst_child>},
    });
}
