// Controlled scheduler with virtual time ("dsched").
//
// Linked into a harness executable it interposes the pthread / futex / clock entry points that the C++ library under
// test reaches through libstdc++, so that real, unmodified library code runs with exactly one thread at a time, in an
// order chosen from a seed, with time that only moves when the scheduler says so. Nothing in /repo is hooked.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace ds
{
enum policy_t
{
    POL_RANDOM = 0, // uniform choice at every point
    POL_STICKY,     // keep running the same thread, switch with small probability
    POL_PCT,        // random priorities with a few change points
    POL_STARVE,     // one victim thread only runs when nobody else can
    POL_RR,         // round robin
    POL_COUNT
};

struct config
{
    uint64_t seed = 1;
    int policy = POL_RANDOM;
    int switch_permille = 100;    // POL_STICKY
    int pct_changes = 3;          // POL_PCT
    int spurious_permille = 0;    // probability of a spurious condition-variable wake-up per schedule point
    int timejump_permille = 0;    // probability of moving the clock to the next deadline although threads are runnable
    uint64_t clock_tick = 1;      // clock advance per clock read, ns
    uint64_t point_tick_max = 0;  // random clock advance per schedule point, ns (0: none)
    uint64_t oversleep_max = 0;   // random extra delay added when sleeping threads are woken, ns
    int wall_permille = 0;        // probability that a read of the system (wall) clock finds it set to another time
    int eintr_permille = 0;       // probability that a signal handler runs in a sleeping or waiting system call, which then ends with EINTR
    bool lifo_signal = false;     // which waiter notify_one picks: random unless set
    int nprocs = 4;               // value reported as number of processors
    uint64_t max_steps = 400000;  // schedule points per run before it is reported as a livelock
    uint64_t start_time = 1'000'000'000'000ull; // initial monotonic clock, ns
};

config random_config(uint64_t seed); // a varied configuration without time noise: clock only moves on reads and idling

// Run body on the calling thread as managed thread 0. All threads it creates are managed too.
void run(const config& c, const std::function<void()>& body);

bool active();             // called from a managed thread
uint64_t now();            // virtual monotonic clock, ns; does not advance it
uint64_t steps();          // schedule points so far in this run
uint64_t interrupts();     // waiting system calls ended by a signal so far in this run
uint64_t switches();       // context switches so far in this run
uint64_t trace_hash();     // hash of the schedule so far (which thread ran at each switch)
int self_id();             // managed thread number
void point();              // explicit schedule point
void advance(uint64_t ns); // simulate the calling thread computing for ns (clock moves, other deadlines may expire)
void sleep_for(uint64_t ns);
// Block until no other managed thread can run. With timers=false threads in timed waits count as unable to run (and the
// clock stands still), with timers=true they are allowed to time out first.
void wait_quiescent(bool timers);
// Number of other managed threads blocked without a timeout / alive.
int blocked_count();
int alive_count();
void fail_thread_creation(long after); // thread creation fails (EAGAIN) once after so many successes; -1: never
uint64_t rnd(); // scheduler-independent random numbers (from the seed)
// Called (on the stuck thread) when a deadlock or livelock is found; must not return normally.
extern std::function<void(const std::string& kind, const std::string& detail)> on_stuck;
} // namespace ds
