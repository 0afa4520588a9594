// Compiled WITHOUT sanitizers. See dsched.hpp.
#include "dsched.hpp"

#ifdef DS_NONE
// Native threads: no control over the schedule, real time.
#include <ctime>
#include <sched.h>
namespace ds
{
std::function<void(const std::string&, const std::string&)> on_stuck;
static int next_id = 0;
static thread_local int my_id = -1;
int self_id()
{
    if (my_id < 0)
        my_id = __atomic_fetch_add(&next_id, 1, __ATOMIC_RELAXED);
    return my_id;
}
uint64_t now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (uint64_t)t.tv_sec * 1000000000ull + (uint64_t)t.tv_nsec;
}
bool active() { return false; }
config random_config(uint64_t seed)
{
    config c;
    c.seed = seed;
    return c;
}
static uint64_t rnd_state = 1;
void run(const config& c, const std::function<void()>& body)
{
    rnd_state = c.seed * 2 + 1;
    body();
}
uint64_t steps() { return 0; }
uint64_t interrupts() { return 0; }
uint64_t switches() { return 0; }
uint64_t trace_hash() { return rnd_state; }
void point() { sched_yield(); }
void sleep_for(uint64_t n)
{
    timespec t{(time_t)(n / 1000000000ull), (long)(n % 1000000000ull)};
    nanosleep(&t, nullptr);
}
void advance(uint64_t n)
{
    const uint64_t e = now() + n;
    while (now() < e)
        ;
}
void wait_quiescent(bool) {}
int blocked_count() { return 0; }
int alive_count() { return 0; }
void fail_thread_creation(long) {}
uint64_t rnd()
{
    uint64_t x = __atomic_add_fetch(&rnd_state, 0x9E3779B97F4A7C15ull, __ATOMIC_RELAXED);
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    return x ^ (x >> 31);
}
} // namespace ds
#else
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace
{
long raw_futex(void* addr, int op, int val)
{
    long ret;
    register void* r10 __asm__("r10") = nullptr;
    register long r8 __asm__("r8") = 0;
    register long r9 __asm__("r9") = 0;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_futex), "D"(addr), "S"(op), "d"(val), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

template <typename F>
F next_sym(const char* name, const char* version = nullptr)
{
    void* p = nullptr;
    if (version)
        p = dlvsym(RTLD_NEXT, name, version);
    if (!p)
        p = dlsym(RTLD_NEXT, name);
    return reinterpret_cast<F>(p);
}
#define REAL(ret, name, ...)                                \
    static ret (*real)(__VA_ARGS__) = nullptr;              \
    if (!real)                                              \
        real = next_sym<ret (*)(__VA_ARGS__)>(#name);
#define REALV(ver, ret, name, ...)                          \
    static ret (*real)(__VA_ARGS__) = nullptr;              \
    if (!real)                                              \
        real = next_sym<ret (*)(__VA_ARGS__)>(#name, ver);

enum st_t
{
    RUNNABLE,
    BLOCKED,
    FINISHED
};
enum kind_t
{
    K_NONE,
    K_MUTEX,
    K_RW,
    K_COND,
    K_FUTEX,
    K_JOIN,
    K_SLEEP,
    K_ONCE,
    K_SEM,
    K_QUIESCE,   // wait_quiescent(false)
    K_QUIESCE_T, // wait_quiescent(true)
};
const char* kind_name[] = {"none", "mutex", "rwlock", "cond", "futex", "join", "sleep", "once", "sem", "quiesce", "quiesce"};

constexpr uint64_t NEVER = ~0ull;
constexpr int MAXT = 1024;

struct thr
{
    int id = 0;
    int go = 0; // futex word: 1 = may run
    st_t st = RUNNABLE;
    kind_t kind = K_NONE;
    const void* addr = nullptr;
    uint64_t deadline = NEVER;
    bool on_wall = false; // the deadline is a time of the system clock
    bool timed_out = false;
    bool signalled = false;
    uint64_t block_seq = 0;
    int64_t prio = 0;
    pthread_t pt{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    bool detached = false;
    const void* tag = nullptr;
};

struct sched
{
    ds::config cfg;
    thr* t[MAXT];
    int n = 0;
    int cur = 0;
    uint64_t now = 0;
    int64_t wall = 0; // how far the system clock has been set from where it started
    uint64_t steps = 0, switches = 0, interrupts = 0, hash = 0, seq = 0;
    uint64_t rng = 1, user_rng = 1;
    int starve_victim = -1;
    uint64_t pct_points[16];
    int pct_n = 0;
    int64_t low_prio = -1;
    bool on = false;
    long fail_create = -1; // so many more threads are created, the next one is not
} S;

// not through operator new: a harness may let that fail
thr* new_thr() { return new (calloc(1, sizeof(thr))) thr; }

thread_local thr* self = nullptr;

// in-progress once controls and static guards
struct inprog
{
    const void* addr;
    int owner;
} IP[64];
int ip_n = 0;
int ip_find(const void* a)
{
    for (int i = 0; i < ip_n; ++i)
        if (IP[i].addr == a)
            return i;
    return -1;
}

uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t rn(uint64_t n)
{
    return n ? splitmix(S.rng) % n : 0;
}

std::string dump()
{
    std::string s;
    char b[160];
    for (int i = 0; i < S.n; ++i)
    {
        thr* t = S.t[i];
        if (t->st == FINISHED)
            continue;
        snprintf(b, sizeof b, "T%d:%s%s%s ", t->id, t->st == RUNNABLE ? "runnable" : "blocked-on-", t->st == BLOCKED ? kind_name[t->kind] : "", t->deadline != NEVER ? "(timed)" : "");
        s += b;
    }
    snprintf(b, sizeof b, "steps=%llu vtime=%llu", (unsigned long long)S.steps, (unsigned long long)S.now);
    return s + b;
}

[[noreturn]] void stuck(const char* kind)
{
    std::string d = dump();
    thr* me = self;
    self = nullptr; // everything from here on is unmanaged
    (void)me;
    if (ds::on_stuck)
        ds::on_stuck(kind, d);
    fprintf(stderr, "DS_STUCK %s %s\n", kind, d.c_str());
    _exit(99);
}

void make_runnable(thr* t)
{
    t->st = RUNNABLE;
    t->kind = K_NONE;
    t->deadline = NEVER;
}

void expire_timers()
{
    for (int i = 0; i < S.n; ++i)
    {
        thr* t = S.t[i];
        if (t->st == BLOCKED && t->deadline <= S.now)
        {
            t->timed_out = true;
            make_runnable(t);
        }
    }
}

uint64_t min_deadline()
{
    uint64_t m = NEVER;
    for (int i = 0; i < S.n; ++i)
        if (S.t[i]->st == BLOCKED && S.t[i]->deadline < m)
            m = S.t[i]->deadline;
    return m;
}

void jump_to(uint64_t t)
{
    if (t == NEVER)
        return;
    if (S.now < t)
        S.now = t;
    if (S.cfg.oversleep_max)
        S.now += rn(S.cfg.oversleep_max + 1);
    expire_timers();
}

int pick()
{
    for (;;)
    {
        int cand[MAXT];
        int n = 0;
        for (int i = 0; i < S.n; ++i)
            if (S.t[i]->st == RUNNABLE)
                cand[n++] = i;
        if (n == 0)
        {
            // idle: quiescence waiters that do not want timers come first, then time, then the others
            for (int i = 0; i < S.n; ++i)
                if (S.t[i]->st == BLOCKED && S.t[i]->kind == K_QUIESCE)
                {
                    make_runnable(S.t[i]);
                    return i;
                }
            uint64_t m = min_deadline();
            if (m != NEVER)
            {
                jump_to(m);
                continue;
            }
            for (int i = 0; i < S.n; ++i)
                if (S.t[i]->st == BLOCKED && S.t[i]->kind == K_QUIESCE_T)
                {
                    make_runnable(S.t[i]);
                    return i;
                }
            return -1;
        }
        switch (S.cfg.policy)
        {
        case ds::POL_STICKY:
            if (S.t[S.cur]->st == RUNNABLE && rn(1000) >= (uint64_t)S.cfg.switch_permille)
                return S.cur;
            return cand[rn(n)];
        case ds::POL_PCT:
        {
            for (int i = 0; i < S.pct_n; ++i)
                if (S.pct_points[i] == S.steps && S.t[S.cur]->st == RUNNABLE)
                    S.t[S.cur]->prio = S.low_prio--;
            int best = cand[0];
            for (int i = 1; i < n; ++i)
                if (S.t[cand[i]]->prio > S.t[best]->prio)
                    best = cand[i];
            return best;
        }
        case ds::POL_STARVE:
        {
            if (rn(200) == 0)
                S.starve_victim = (int)rn(S.n);
            if (n > 1)
            {
                int k = 0;
                for (int i = 0; i < n; ++i)
                    if (cand[i] != S.starve_victim)
                        cand[k++] = cand[i];
                n = k;
            }
            return cand[rn(n)];
        }
        case ds::POL_RR:
        {
            for (int i = 0; i < n; ++i)
                if (cand[i] > S.cur)
                    return cand[i];
            return cand[0];
        }
        default:
            return cand[rn(n)];
        }
    }
}

void wait_go(thr* t)
{
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0)
        raw_futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}

void switch_to(int next, bool wait_back)
{
    thr* me = self;
    if (next == S.cur && me && me->id == next)
        return;
    ++S.switches;
    S.hash = (S.hash ^ (uint64_t)(next + 1)) * 0x100000001b3ull + (S.hash >> 29);
    S.cur = next;
    thr* t = S.t[next];
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    raw_futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
    if (wait_back)
        wait_go(me);
}

void reschedule()
{
    int nx = pick();
    if (nx < 0)
        stuck("deadlock");
    switch_to(nx, true);
}

// what abs_deadline() last made of a time of the system clock
thread_local uint64_t wall_deadline = NEVER;

// the system clock gets set to another time
void set_wall()
{
    static const int64_t unit[] = {1'000, 1'000'000, 1'000'000'000, 3'600'000'000'000, 86'400'000'000'000};
    int64_t by = unit[rn(5)] * (int64_t)(1 + rn(30));
    if (rn(2))
        by = -by;
    if (S.wall + by > 100'000'000'000'000'000 || S.wall + by < -100'000'000'000'000'000)
        by = -S.wall;
    S.wall += by;
    for (int i = 0; i < S.n; ++i)
        if (S.t[i]->st == BLOCKED && S.t[i]->on_wall && S.t[i]->deadline != NEVER)
            S.t[i]->deadline = by > 0 && S.t[i]->deadline < (uint64_t)by ? 0 : S.t[i]->deadline - (uint64_t)by;
    expire_timers();
}

void step()
{
    if (++S.steps > S.cfg.max_steps)
        stuck("livelock");
    if (S.cfg.point_tick_max)
        S.now += rn(S.cfg.point_tick_max + 1);
    expire_timers();
    if (S.cfg.timejump_permille && rn(1000) < (uint64_t)S.cfg.timejump_permille)
        jump_to(min_deadline());
    if (S.cfg.wall_permille && rn(20000) < (uint64_t)S.cfg.wall_permille)
        set_wall();
    if (S.cfg.spurious_permille && rn(1000) < (uint64_t)S.cfg.spurious_permille)
    {
        int c[MAXT], n = 0;
        for (int i = 0; i < S.n; ++i)
            if (S.t[i]->st == BLOCKED && (S.t[i]->kind == K_COND || S.t[i]->kind == K_FUTEX))
                c[n++] = i;
        if (n)
            make_runnable(S.t[c[rn(n)]]);
    }
}

void sched_point()
{
    step();
    reschedule();
}

// returns true if timed out
bool block(kind_t k, const void* addr, uint64_t deadline)
{
    step();
    thr* me = self;
    me->timed_out = false;
    me->st = BLOCKED;
    me->kind = k;
    me->addr = addr;
    me->deadline = deadline;
    me->on_wall = deadline < NEVER - 1 && deadline == wall_deadline;
    me->block_seq = ++S.seq;
    expire_timers();
    reschedule();
    return me->timed_out;
}

int wake(kind_t k, const void* addr, int n)
{
    int woken = 0;
    while (woken < n)
    {
        int c[MAXT], m = 0;
        for (int i = 0; i < S.n; ++i)
            if (S.t[i]->st == BLOCKED && S.t[i]->kind == k && S.t[i]->addr == addr)
                c[m++] = i;
        if (!m)
            break;
        int w = c[rn(m)];
        if (S.cfg.lifo_signal)
            for (int i = 0; i < m; ++i)
                if (S.t[c[i]]->block_seq > S.t[w]->block_seq)
                    w = c[i];
        S.t[w]->signalled = true;
        make_runnable(S.t[w]);
        ++woken;
    }
    return woken;
}

constexpr uint64_t REAL_BASE = 1'700'000'000'000'000'000ull - 1'000'000'000'000ull;

uint64_t ts_ns(const timespec* ts)
{
    if (ts->tv_sec < 0)
        return 0;
    if (ts->tv_sec > 9'000'000'000ll)
        return NEVER - 1;
    return (uint64_t)ts->tv_sec * 1'000'000'000ull + (uint64_t)ts->tv_nsec;
}
uint64_t abs_deadline(clockid_t c, const timespec* ts)
{
    uint64_t v = ts_ns(ts);
    if (v == NEVER - 1)
        return v;
    if (c == CLOCK_REALTIME)
        return wall_deadline = v > REAL_BASE + (uint64_t)S.wall ? v - REAL_BASE - (uint64_t)S.wall : 0;
    return v;
}

void thread_finish()
{
    thr* me = self;
    step();
    me->st = FINISHED;
    wake(K_JOIN, me, INT_MAX);
    self = nullptr;
    int nx = pick();
    if (nx < 0)
    {
        self = me;
        stuck("deadlock");
    }
    ++S.switches;
    S.hash = (S.hash ^ (uint64_t)(nx + 1)) * 0x100000001b3ull + (S.hash >> 29);
    S.cur = nx;
    thr* t = S.t[nx];
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    raw_futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}

void* trampoline(void* p)
{
    thr* t = static_cast<thr*>(p);
    wait_go(t);
    self = t;
    void* r = t->fn(t->arg);
    thread_finish();
    return r;
}
} // namespace

namespace ds
{
std::function<void(const std::string&, const std::string&)> on_stuck;

config random_config(uint64_t seed)
{
    config c;
    uint64_t x = seed * 0x2545F4914F6CDD1Dull + 0x1234567;
    splitmix(x);
    c.seed = seed;
    c.policy = (int)(splitmix(x) % POL_COUNT);
    static const int sp[] = {20, 60, 150, 300, 500};
    c.switch_permille = sp[splitmix(x) % 5];
    c.pct_changes = 1 + (int)(splitmix(x) % 6);
    c.spurious_permille = (splitmix(x) % 3 == 0) ? 15 : 0;
    c.lifo_signal = splitmix(x) % 3 == 0;
    static const int np[] = {1, 2, 3, 4, 8};
    c.nprocs = np[splitmix(x) % 5];
    c.wall_permille = splitmix(x) % 3 == 0 ? 300 : 0;
    c.eintr_permille = splitmix(x) % 3 == 0 ? 200 : 0;
    return c;
}

void run(const config& c, const std::function<void()>& body)
{
    S.cfg = c;
    for (int i = 0; i < S.n; ++i)
        S.t[i]->~thr(), free(S.t[i]);
    S.n = 0;
    S.cur = 0;
    S.now = c.start_time;
    S.wall = 0;
    S.fail_create = -1;
    S.steps = S.switches = S.interrupts = S.seq = 0;
    S.hash = 0xcbf29ce484222325ull;
    S.rng = c.seed ^ 0xD1B54A32D192ED03ull;
    S.user_rng = c.seed * 0x9E3779B97F4A7C15ull + 77;
    splitmix(S.rng);
    S.starve_victim = (int)rn(4);
    S.low_prio = -1;
    S.pct_n = c.pct_changes > 16 ? 16 : c.pct_changes;
    for (int i = 0; i < S.pct_n; ++i)
        S.pct_points[i] = 1 + rn(600);
    ip_n = 0;
    thr* t = new_thr();
    t->id = 0;
    t->pt = pthread_self();
    t->prio = (int64_t)rn(1000000);
    S.t[S.n++] = t;
    S.on = true;
    self = t;
    body();
    // all other managed threads must have finished: let them
    for (;;)
    {
        int alive = 0;
        for (int i = 1; i < S.n; ++i)
            if (S.t[i]->st != FINISHED)
                ++alive;
        if (!alive)
            break;
        block(K_QUIESCE_T, nullptr, NEVER);
        int still = 0;
        for (int i = 1; i < S.n; ++i)
            if (S.t[i]->st != FINISHED)
                ++still;
        if (still)
            stuck("leftover-threads");
    }
    self = nullptr;
    S.on = false;
}

bool active() { return self != nullptr; }
uint64_t now() { return S.now; }
uint64_t steps() { return S.steps; }
uint64_t interrupts() { return S.interrupts; }
uint64_t switches() { return S.switches; }
uint64_t trace_hash() { return S.hash; }
int self_id() { return self ? self->id : -1; }
void point()
{
    if (self)
        sched_point();
}
void advance(uint64_t ns)
{
    if (!self)
        return;
    S.now += ns;
    sched_point();
}
void sleep_for(uint64_t ns)
{
    if (self)
        block(K_SLEEP, nullptr, S.now + ns);
}
void wait_quiescent(bool timers)
{
    if (self)
        block(timers ? K_QUIESCE_T : K_QUIESCE, nullptr, NEVER);
}
int blocked_count()
{
    int n = 0;
    for (int i = 0; i < S.n; ++i)
        if (S.t[i] != self && S.t[i]->st == BLOCKED && S.t[i]->deadline == NEVER)
            ++n;
    return n;
}
int alive_count()
{
    int n = 0;
    for (int i = 0; i < S.n; ++i)
        if (S.t[i] != self && S.t[i]->st != FINISHED)
            ++n;
    return n;
}
uint64_t rnd() { return splitmix(S.user_rng); }
void fail_thread_creation(long after) { S.fail_create = after; }
} // namespace ds

// ------------------------------------------------------------------------------------------------ interposers
#define EXP extern "C" __attribute__((visibility("default")))

EXP int pthread_create(pthread_t* pt, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
    if (!self)
        return real(pt, a, fn, arg);
    if (S.n >= MAXT)
        return EAGAIN;
    if (S.fail_create >= 0 && S.fail_create-- == 0)
        return EAGAIN;
    thr* t = new_thr();
    t->id = S.n;
    t->fn = fn;
    t->arg = arg;
    t->prio = (int64_t)rn(1000000);
    thr* me = self;
    self = nullptr;
    int r = real(pt, a, trampoline, t);
    self = me;
    if (r)
    {
        t->~thr();
        free(t);
        return r;
    }
    t->pt = *pt;
    S.t[S.n++] = t;
    sched_point();
    return 0;
}

EXP int pthread_join(pthread_t pt, void** ret)
{
    REAL(int, pthread_join, pthread_t, void**)
    if (!self)
        return real(pt, ret);
    thr* t = nullptr;
    for (int i = 0; i < S.n; ++i)
        if (S.t[i]->pt == pt && !S.t[i]->detached)
            t = S.t[i];
    if (t)
    {
        if (t == self)
            return EDEADLK;
        sched_point();
        while (t->st != FINISHED)
            block(K_JOIN, t, NEVER);
        t->detached = true; // pthread_t may be reused from now on
    }
    thr* me = self;
    self = nullptr;
    int r = real(pt, ret);
    self = me;
    return r;
}

EXP int pthread_detach(pthread_t pt)
{
    REAL(int, pthread_detach, pthread_t)
    if (self)
        for (int i = 0; i < S.n; ++i)
            if (S.t[i]->pt == pt)
                S.t[i]->detached = true;
    return real(pt);
}

static bool mtx_locked(pthread_mutex_t* m) { return __atomic_load_n(&m->__data.__lock, __ATOMIC_RELAXED) != 0; }
static int mtx_kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }

static int mtx_lock_common(pthread_mutex_t* m, uint64_t deadline)
{
    REAL(int, pthread_mutex_lock, pthread_mutex_t*)
    pid_t tid = (pid_t)syscall(SYS_gettid);
    if (mtx_locked(m) && m->__data.__owner == tid && mtx_kind(m) != PTHREAD_MUTEX_TIMED_NP)
        return real(m);
    while (mtx_locked(m))
        if (block(K_MUTEX, m, deadline))
            return ETIMEDOUT;
    return real(m);
}

EXP int pthread_mutex_lock(pthread_mutex_t* m)
{
    REAL(int, pthread_mutex_lock, pthread_mutex_t*)
    if (!self)
        return real(m);
    sched_point();
    return mtx_lock_common(m, NEVER);
}
EXP int pthread_mutex_trylock(pthread_mutex_t* m)
{
    REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
    if (!self)
        return real(m);
    sched_point();
    return real(m);
}
EXP int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts)
{
    REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const timespec*)
    if (!self)
        return real(m, ts);
    sched_point();
    return mtx_lock_common(m, abs_deadline(CLOCK_REALTIME, ts));
}
EXP int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts)
{
    REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const timespec*)
    if (!self)
        return real(m, c, ts);
    sched_point();
    return mtx_lock_common(m, abs_deadline(c, ts));
}
EXP int pthread_mutex_unlock(pthread_mutex_t* m)
{
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
    if (!self)
        return real(m);
    int r = real(m);
    if (!mtx_locked(m))
        wake(K_MUTEX, m, INT_MAX);
    sched_point();
    return r;
}

#define RWLOCK(fn, tryfn)                                     \
    EXP int fn(pthread_rwlock_t* l)                           \
    {                                                         \
        static int (*realt)(pthread_rwlock_t*) = nullptr;     \
        if (!realt)                                           \
            realt = next_sym<int (*)(pthread_rwlock_t*)>(#tryfn); \
        REAL(int, fn, pthread_rwlock_t*)                      \
        if (!self)                                            \
            return real(l);                                   \
        sched_point();                                        \
        for (;;)                                              \
        {                                                     \
            int r = realt(l);                                 \
            if (r != EBUSY)                                   \
                return r;                                     \
            block(K_RW, l, NEVER);                            \
        }                                                     \
    }
RWLOCK(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock)
RWLOCK(pthread_rwlock_wrlock, pthread_rwlock_trywrlock)
#define RWTRY(fn)                            \
    EXP int fn(pthread_rwlock_t* l)          \
    {                                        \
        REAL(int, fn, pthread_rwlock_t*)     \
        if (self)                            \
            sched_point();                   \
        return real(l);                      \
    }
RWTRY(pthread_rwlock_tryrdlock)
RWTRY(pthread_rwlock_trywrlock)
#define RWTIMED(fn, tryfn)                                        \
    EXP int fn(pthread_rwlock_t* l, clockid_t c, const timespec* ts) \
    {                                                             \
        static int (*realt)(pthread_rwlock_t*) = nullptr;         \
        if (!realt)                                               \
            realt = next_sym<int (*)(pthread_rwlock_t*)>(#tryfn); \
        REAL(int, fn, pthread_rwlock_t*, clockid_t, const timespec*) \
        if (!self)                                                \
            return real(l, c, ts);                                \
        sched_point();                                            \
        for (;;)                                                  \
        {                                                         \
            int r = realt(l);                                     \
            if (r != EBUSY)                                       \
                return r;                                         \
            if (block(K_RW, l, abs_deadline(c, ts)))              \
                return ETIMEDOUT;                                 \
        }                                                         \
    }
RWTIMED(pthread_rwlock_clockrdlock, pthread_rwlock_tryrdlock)
RWTIMED(pthread_rwlock_clockwrlock, pthread_rwlock_trywrlock)
EXP int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
    int r = real(l);
    if (self)
    {
        wake(K_RW, l, INT_MAX);
        sched_point();
    }
    return r;
}

static int cond_wait_common(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
{
    static int (*rul)(pthread_mutex_t*) = nullptr;
    if (!rul)
        rul = next_sym<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    static int (*rl)(pthread_mutex_t*) = nullptr;
    if (!rl)
        rl = next_sym<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    sched_point(); // window between the caller's test and the wait itself (the mutex is still held)
    rul(m);
    wake(K_MUTEX, m, INT_MAX);
    bool to = false;
    if (deadline != NEVER && deadline <= S.now)
    {
        to = true;
        sched_point();
    }
    else
    {
        to = block(K_COND, c, deadline);
    }
    while (mtx_locked(m))
        block(K_MUTEX, m, NEVER);
    rl(m);
    return to ? ETIMEDOUT : 0;
}
EXP int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    REALV("GLIBC_2.3.2", int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
    if (!self)
        return real(c, m);
    return cond_wait_common(c, m, NEVER);
}
EXP int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    REALV("GLIBC_2.3.2", int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const timespec*)
    if (!self)
        return real(c, m, ts);
    if (ts->tv_nsec < 0 || ts->tv_nsec > 999'999'999)
        return EINVAL;
    return cond_wait_common(c, m, abs_deadline(CLOCK_REALTIME, ts));
}
EXP int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* ts)
{
    REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)
    if (!self)
        return real(c, m, clk, ts);
    if (ts->tv_nsec < 0 || ts->tv_nsec > 999'999'999)
        return EINVAL; // what libstdc++ passes for a time point that is negative
    return cond_wait_common(c, m, abs_deadline(clk, ts));
}
EXP int pthread_cond_signal(pthread_cond_t* c)
{
    REALV("GLIBC_2.3.2", int, pthread_cond_signal, pthread_cond_t*)
    if (!self)
        return real(c);
    sched_point();
    wake(K_COND, c, 1);
    sched_point();
    return 0;
}
EXP int pthread_cond_broadcast(pthread_cond_t* c)
{
    REALV("GLIBC_2.3.2", int, pthread_cond_broadcast, pthread_cond_t*)
    if (!self)
        return real(c);
    sched_point();
    wake(K_COND, c, INT_MAX);
    sched_point();
    return 0;
}

static void ip_enter(const void* a)
{
    sched_point();
    while (ip_find(a) >= 0 && IP[ip_find(a)].owner != self->id)
        block(K_ONCE, a, NEVER);
    if (ip_n < 64)
        IP[ip_n++] = {a, self->id};
}
static void ip_leave(const void* a)
{
    int i = ip_find(a);
    if (i >= 0)
        IP[i] = IP[--ip_n];
    wake(K_ONCE, a, INT_MAX);
}
struct ip_scope
{
    const void* a;
    ~ip_scope() { ip_leave(a); }
};
#ifdef DS_TSAN
extern "C" void __tsan_acquire(void*);
extern "C" void __tsan_release(void*);
#endif
EXP int pthread_once(pthread_once_t* o, void (*f)())
{
    REAL(int, pthread_once, pthread_once_t*, void (*)())
    if (!self)
        return real(o, f);
    // ThreadSanitizer's own version never ends when f throws. Its word for "done" is 1, the one of libc is 2.
#ifdef DS_TSAN
    const int done = 1;
#else
    const int done = 2;
#endif
    ip_enter(o);
    ip_scope s{o};
#ifdef DS_TSAN
    __tsan_acquire(o);
#endif
    if (*o == done)
        return 0;
    struct leave
    {
        void* o;
        ~leave()
        {
#ifdef DS_TSAN
            __tsan_release(o);
#endif
        }
    } l{o};
    f();
    *o = done;
    return 0;
}
EXP int __cxa_guard_acquire(uint64_t* g)
{
    REAL(int, __cxa_guard_acquire, uint64_t*)
    if (!self)
        return real(g);
    ip_enter(g);
    int r = real(g);
    if (!r)
        ip_leave(g);
#ifdef DS_TSAN
    else
        __tsan_acquire(g); // ThreadSanitizer does not know that an aborted initialisation happens before the next attempt
#endif
    return r;
}
EXP void __cxa_guard_release(uint64_t* g)
{
    REAL(void, __cxa_guard_release, uint64_t*)
    real(g);
    if (self)
        ip_leave(g);
}
EXP void __cxa_guard_abort(uint64_t* g)
{
    REAL(void, __cxa_guard_abort, uint64_t*)
#ifdef DS_TSAN
    if (self)
        __tsan_release(g);
#endif
    real(g);
    if (self)
        ip_leave(g);
}

// does a signal interrupt the system call the thread is about to block in?
static bool interrupted()
{
    if (!S.cfg.eintr_permille || rn(1000) >= (uint64_t)S.cfg.eintr_permille)
        return false;
    ++S.interrupts;
    return true;
}
static int eintr()
{
    errno = EINTR;
    return -1;
}

EXP int sem_wait(sem_t* s)
{
    REAL(int, sem_wait, sem_t*)
    if (!self)
        return real(s);
    sched_point();
    while (sem_trywait(s) != 0)
    {
        if (interrupted())
            return eintr();
        block(K_SEM, s, NEVER);
    }
    return 0;
}
EXP int sem_timedwait(sem_t* s, const timespec* ts)
{
    REAL(int, sem_timedwait, sem_t*, const timespec*)
    if (!self)
        return real(s, ts);
    sched_point();
    while (sem_trywait(s) != 0)
    {
        if (interrupted())
            return eintr();
        if (block(K_SEM, s, abs_deadline(CLOCK_REALTIME, ts)))
        {
            errno = ETIMEDOUT;
            return -1;
        }
    }
    return 0;
}
EXP int sem_clockwait(sem_t* s, clockid_t c, const timespec* ts)
{
    REAL(int, sem_clockwait, sem_t*, clockid_t, const timespec*)
    if (!self)
        return real(s, c, ts);
    sched_point();
    while (sem_trywait(s) != 0)
    {
        if (interrupted())
            return eintr();
        if (block(K_SEM, s, abs_deadline(c, ts)))
        {
            errno = ETIMEDOUT;
            return -1;
        }
    }
    return 0;
}
EXP int sem_post(sem_t* s)
{
    REAL(int, sem_post, sem_t*)
    int r = real(s);
    if (self)
    {
        wake(K_SEM, s, 1);
        sched_point();
    }
    return r;
}

EXP long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; ++i)
        a[i] = va_arg(ap, long);
    va_end(ap);
    static long (*real)(long, ...) = nullptr;
    if (!real)
        real = next_sym<long (*)(long, ...)>("syscall");
    if (n == SYS_futex && self)
    {
        int op = (int)a[1];
        int cmd = op & FUTEX_CMD_MASK;
        int* addr = reinterpret_cast<int*>(a[0]);
        const timespec* ts = reinterpret_cast<const timespec*>(a[3]);
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
        {
            sched_point();
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)a[2])
            {
                errno = EAGAIN;
                return -1;
            }
            uint64_t dl = NEVER;
            if (ts)
                dl = cmd == FUTEX_WAIT ? S.now + ts_ns(ts) : abs_deadline((op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            if (dl != NEVER && dl <= S.now)
            {
                errno = ETIMEDOUT;
                return -1;
            }
            if (block(K_FUTEX, addr, dl))
            {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
        {
            sched_point();
            int w = wake(K_FUTEX, addr, (int)a[2]);
            sched_point();
            return w;
        }
    }
    return real(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

EXP int sched_yield()
{
    REAL(int, sched_yield)
    if (!self)
        return real();
    if (S.cfg.policy == ds::POL_PCT)
        self->prio = S.low_prio--; // a yielding thread lets the others go first
    step();
    // prefer another thread if there is one
    int c[MAXT], n = 0;
    for (int i = 0; i < S.n; ++i)
        if (S.t[i]->st == RUNNABLE && i != S.cur)
            c[n++] = i;
    if (n)
        switch_to(c[rn(n)], true);
    return 0;
}

// returns what is left of the sleep: 0, unless a signal ended it early
static uint64_t vsleep(uint64_t dl)
{
    // the deadline is hit even with spurious wake-ups: only timers and signals end a sleep
    if (dl <= S.now)
    {
        sched_point();
        return 0;
    }
    if (interrupted())
    {
        const uint64_t until = S.now + rn(dl - S.now);
        if (until > S.now)
            block(K_SLEEP, nullptr, until);
        if (S.now < dl)
            return dl - S.now;
        return 0;
    }
    block(K_SLEEP, nullptr, dl);
    return 0;
}
EXP int nanosleep(const timespec* ts, timespec* rem)
{
    REAL(int, nanosleep, const timespec*, timespec*)
    if (!self)
        return real(ts, rem);
    const uint64_t left = vsleep(S.now + ts_ns(ts));
    if (!left)
        return 0;
    if (rem)
        *rem = {(time_t)(left / 1000000000), (long)(left % 1000000000)};
    return eintr();
}
EXP int clock_nanosleep(clockid_t c, int flags, const timespec* ts, timespec* rem)
{
    REAL(int, clock_nanosleep, clockid_t, int, const timespec*, timespec*)
    if (!self)
        return real(c, flags, ts, rem);
    const uint64_t left = vsleep((flags & TIMER_ABSTIME) ? abs_deadline(c, ts) : S.now + ts_ns(ts));
    if (!left)
        return 0;
    if (rem && !(flags & TIMER_ABSTIME))
        *rem = {(time_t)(left / 1000000000), (long)(left % 1000000000)};
    return EINTR;
}
EXP int usleep(useconds_t us)
{
    REAL(int, usleep, useconds_t)
    if (!self)
        return real(us);
    return vsleep(S.now + (uint64_t)us * 1000) ? eintr() : 0;
}
EXP unsigned sleep(unsigned s)
{
    REAL(unsigned, sleep, unsigned)
    if (!self)
        return real(s);
    return (unsigned)((vsleep(S.now + (uint64_t)s * 1000000000ull) + 999999999) / 1000000000);
}

static uint64_t read_clock(clockid_t c)
{
    S.now += S.cfg.clock_tick;
    sched_point();
    if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)
        return S.now;
    if (S.cfg.wall_permille && rn(1000) < (uint64_t)S.cfg.wall_permille)
        set_wall();
    return S.now + REAL_BASE + (uint64_t)S.wall;
}
EXP int clock_gettime(clockid_t c, timespec* ts)
{
    REAL(int, clock_gettime, clockid_t, timespec*)
    if (!self || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID)
        return real(c, ts);
    uint64_t v = read_clock(c);
    ts->tv_sec = (time_t)(v / 1000000000ull);
    ts->tv_nsec = (long)(v % 1000000000ull);
    return 0;
}
EXP int gettimeofday(timeval* tv, void* tz)
{
    REAL(int, gettimeofday, timeval*, void*)
    if (!self)
        return real(tv, tz);
    uint64_t v = read_clock(CLOCK_REALTIME);
    tv->tv_sec = (time_t)(v / 1000000000ull);
    tv->tv_usec = (long)(v % 1000000000ull / 1000);
    return 0;
}
EXP time_t time(time_t* out)
{
    REAL(time_t, time, time_t*)
    if (!self)
        return real(out);
    time_t r = (time_t)(read_clock(CLOCK_REALTIME) / 1000000000ull);
    if (out)
        *out = r;
    return r;
}

EXP int get_nprocs()
{
    REAL(int, get_nprocs)
    return S.on ? S.cfg.nprocs : real();
}
EXP long sysconf(int name)
{
    REAL(long, sysconf, int)
    if (S.on && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF))
        return S.cfg.nprocs;
    return real(name);
}

// ------------------------------------------------------------------------------------------------ atomics (TSan build)
#ifdef DS_TSAN
typedef int morder;
#define A1(sz, T)                                                                                                         \
    EXP T __tsan_atomic##sz##_load(const volatile T* a, morder m)                                                         \
    {                                                                                                                     \
        REAL(T, __tsan_atomic##sz##_load, const volatile T*, morder)                                                      \
        if (self)                                                                                                         \
            sched_point();                                                                                                \
        return real(a, m);                                                                                                \
    }                                                                                                                     \
    EXP void __tsan_atomic##sz##_store(volatile T* a, T v, morder m)                                                      \
    {                                                                                                                     \
        REAL(void, __tsan_atomic##sz##_store, volatile T*, T, morder)                                                     \
        if (self)                                                                                                         \
            sched_point();                                                                                                \
        real(a, v, m);                                                                                                    \
    }                                                                                                                     \
    A2(sz, T, exchange) A2(sz, T, fetch_add) A2(sz, T, fetch_sub) A2(sz, T, fetch_and) A2(sz, T, fetch_or)                \
        A2(sz, T, fetch_xor) A3(sz, T, strong) A3(sz, T, weak)
#define A2(sz, T, op)                                                    \
    EXP T __tsan_atomic##sz##_##op(volatile T* a, T v, morder m)         \
    {                                                                    \
        REAL(T, __tsan_atomic##sz##_##op, volatile T*, T, morder)        \
        if (self)                                                        \
            sched_point();                                               \
        return real(a, v, m);                                            \
    }
#define A3(sz, T, op)                                                                                            \
    EXP int __tsan_atomic##sz##_compare_exchange_##op(volatile T* a, T* c, T v, morder m, morder fm)             \
    {                                                                                                            \
        REAL(int, __tsan_atomic##sz##_compare_exchange_##op, volatile T*, T*, T, morder, morder)                 \
        if (self)                                                                                                \
            sched_point();                                                                                       \
        return real(a, c, v, m, fm);                                                                             \
    }
A1(8, unsigned char)
A1(16, unsigned short)
A1(32, unsigned int)
A1(64, unsigned long)
#endif
#endif // DS_NONE
