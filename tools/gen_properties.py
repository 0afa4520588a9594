#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run it after editing; it rewrites the file)."""
import json, os

I = "sdk/include/teiacare/sdk/"
S = "sdk/src/"
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (pid, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


BQ = I + "blocking_queue.hpp"
prop("C01", "blocking_queue is a linearizable bounded FIFO queue",
     "Under any number of concurrent callers, the completed push, try_push, pop, try_pop and size calls on one blocking_queue are linearizable with respect to a sequential FIFO queue of capacity max(1, requested capacity). "
     "In particular every pushed item is popped at most once and in FIFO order, items are neither lost nor invented nor altered, size() never exceeds capacity(), try_push fails exactly when the queue is full and try_pop is empty exactly when the queue is empty.",
     ["schedules", "histories", "configurations"], "every interleaving of any set of producer/consumer threads, every capacity, every mix of copy and move overloads",
     "The tests use a few fixed producer/consumer loops on whatever interleaving the OS picks and check only totals; linearizability quantifies over all schedules and operation mixes.",
     [BQ], [("one mutex around the queue", BQ + ": push, try_push, pop, try_pop, size"), ("capacity clamp", BQ + ": constructor")],
     ["call/return of push, try_push, pop, try_pop, size, capacity"],
     [("queue contents", "items pushed and not yet popped", BQ + ": _queue")])

prop("C02", "blocking_queue never strands a blocked caller",
     "A thread blocked in push() returns once the queue has room for it and a thread blocked in pop() returns once an item is available for it, in every schedule and with spurious wake-ups. "
     "Equivalently, no execution reaches a state where every caller is blocked while some blocked push() has free room or some blocked pop() has an item to take; push() blocks only while the queue is full and pop() only while it is empty.",
     ["schedules", "configurations"], "every interleaving, number of blocked producers/consumers, capacity, and placement of spurious wake-ups",
     "A lost wake-up needs one precise interleaving among several waiters; tests run with at most a couple of threads and a natural schedule, and a hang just looks like a slow test.",
     [BQ], [("notify on empty->non-empty and full->non-full transitions", BQ + ": push_impl, pop_impl"), ("predicate waits", BQ + ": push, pop")],
     ["call/return of push and pop, blocked threads at quiescence"])

prop("C03", "blocking_queue keeps its contents when copying an item throws",
     "If copying an item throws during push, try_push, pop or try_pop, the exception reaches that caller and the queue behaves as if that call had never happened: no item is lost, duplicated or reordered, the queue is not left locked, and other callers keep making progress.",
     ["fault_sequences", "schedules"], "every position of a throwing element copy/move in every operation, alone and with concurrent callers",
     "No test uses an item type that can throw, so no test ever reaches the exceptional exits of the four operations.",
     [BQ], [("scoped locks and copy-before-pop ordering", BQ + ": pop, try_pop, push, try_push")],
     ["exceptions leaving push/try_push/pop/try_pop, later contents of the queue"])

TP_H, TP_C = I + "thread_pool.hpp", S + "thread_pool.cpp"
prop("C04", "thread_pool runs every accepted task exactly once and delivers its result",
     "Every callable passed to run() on a pool that stays running is executed exactly once, on a pool thread, with copies of the arguments given at the run() call (references only through std::ref), whatever the number of submitting threads and workers. "
     "The returned future yields exactly that call's return value or rethrows exactly the exception it threw, an exception in one task does not affect any other task, and everything a task wrote happens-before its future becoming ready.",
     ["schedules", "histories", "programs"], "every interleaving of submitters and workers, pool size, task mix (values, void, throwing, nested submissions)",
     "Tests submit a handful of tasks from one thread; exactly-once and no-lost-wake-up are claims about all interleavings of submitters with workers going to sleep.",
     [TP_H, TP_C], [("task queue + condition variable hand-off", TP_C + ": worker, enqueue_task"), ("packaged_task/future", TP_H + ": run")],
     ["task start/finish events, future results"])

prop("C05", "thread_pool starts tasks in submission order with bounded concurrency",
     "Tasks are taken in the order in which their run() calls were serialised: with one worker they execute strictly one after another in submission order, and with N workers a task never starts while N or more tasks whose run() call completed before its own run() call began have not started yet. "
     "At any moment at most N tasks are executing, where N is the number of threads the pool was started with (clamped to [1, hardware concurrency]) and equals threads_count() while it runs, and N ready tasks do get to execute simultaneously, so tasks that wait for each other finish as long as at most N of them are pending.",
     ["schedules", "configurations"], "every interleaving of submitters and workers, every pool size and hardware concurrency",
     "Ordering and simultaneous-progress claims quantify over schedules; tests only ever compare final counters.",
     [TP_H, TP_C], [("FIFO queue under a mutex", TP_C + ": worker"), ("thread count clamp", TP_C + ": start")],
     ["task start/finish events, threads_count()"])

prop("C06", "thread_pool start/stop protocol is safe and restartable",
     "start() and stop() return true exactly when they change the pool from stopped to running or from running to stopped, even when called concurrently, and is_running() reports that state. "
     "stop() and the destructor always terminate once the tasks already executing have finished, no task executes after stop() has returned until the next start(), and tasks still queued when stop() ran are never executed, their futures failing with broken_promise rather than hanging. "
     "A task submitted while the pool is stopped is kept and runs exactly once after the next start(), and start() after stop() yields a fully working pool.",
     ["schedules", "histories"], "every sequence of start/stop/run/destroy from several threads, every interleaving with workers",
     "Tests call start and stop from one thread with idle workers; the hazards are stop racing with workers that are about to sleep, with submitters and with other stop/start calls.",
     [TP_H, TP_C], [("running flag + lifecycle mutex, queue cleared under the task mutex, notify_all, join", TP_C + ": start, stop"), ("latch rendezvous of workers", TP_C + ": start, worker")],
     ["return values of start/stop/is_running, task start events, future states, blocked threads at quiescence"])

TS_H, TS_C = I + "task_scheduler.hpp", S + "task_scheduler.cpp"
prop("C07", "task_scheduler one-shot tasks run exactly once, on time, never early",
     "A task accepted by at() or in() starts exactly once, never before its time point as read from the library clock, and gets started as soon as the clock reaches it and a pool thread is free - including time points in the past, equal time points, tasks added later than, but due before, tasks already waiting, and delays that the clock can never reach (up to the longest duration), whose tasks stay scheduled and never start. "
     "Its future delivers exactly the callable's result or exception, with the arguments captured at scheduling time. Setting the system (wall) clock has no influence on any of this.",
     ["schedules", "histories", "configurations"], "every set of time points, order of insertion, pool size and interleaving of the scheduling thread with callers, with spurious wake-ups",
     "Tests schedule one or two tasks milliseconds ahead and cannot observe a wake-up lost while the scheduling thread is about to sleep until a later time point.",
     [TS_H, TS_C], [("tasks ordered by time, timed wait until the first, re-evaluated on notify", TS_C + ": start, add_task, update_tasks"), ("future plumbing", TS_H + ": at, in")],
     ["clock value at task start, number of starts, futures"])

prop("C08", "task_scheduler periodic tasks follow their time grid",
     "A task accepted by every(interval[, delay]) becomes due at the fixed times first + k*interval, where first is the time of the call (plus delay); no occurrence starts before its due time, one due time starts at most one execution, and due times that have already passed when an occurrence is dispatched are skipped, not replayed, however many they are, so the grid never drifts, whatever happens to the system (wall) clock. "
     "While the scheduler keeps up, every due time is executed, every execution being called with the arguments given to every() at the time of that call, whatever an earlier occurrence did with its own or if it threw; an interval or delay that the clock can never reach (up to the longest duration) makes no further occurrence due. "
     "After update_interval(I) the following due times are spaced exactly I apart, the next one being at most I after the update (or at the still pending first due time minus the old interval plus a multiple of I, whichever is later).",
     ["schedules", "histories", "inputs"], "every interval/delay/update sequence, number of concurrent periodic tasks, pool size and interleaving",
     "Tests wait a few milliseconds of wall time and accept a tolerance, so an off-by-one interval, drift, or a double execution in one schedule is invisible.",
     [TS_H, TS_C], [("re-scheduling from the previous due time in interval steps until not in the past", TS_C + ": update_tasks, update_interval")],
     ["clock value at every task start"])

prop("C09", "task_scheduler management calls act on exactly the named task",
     "Calls that name a task id (is_scheduled, is_enabled, set_enabled, remove_task, get_interval, update_interval, at, in, every) agree with a model map of scheduled tasks: scheduling an id that is still scheduled, or with an interval that is not positive, is refused without side effects, ids become free again when a one-shot task has been dispatched or a task is removed, and tasks_size() counts every scheduled task, enabled or not. "
     "After remove_task or set_enabled(false) has returned true no occurrence with a due time later than that moment runs (disabled occurrences are skipped, not postponed; a disabled one-shot expires), set_enabled(true) resumes the following occurrences, and tasks other than the named one are unaffected.",
     ["histories", "schedules", "inputs"], "every sequence of management calls from several threads over several ids, interleaved with dispatching",
     "Tests exercise each call once in isolation on a scheduler with one task; mix-ups between tasks and races with dispatching need multi-step, multi-task histories.",
     [TS_H, TS_C], [("lookup by id (compared as text) under the scheduler mutex", TS_C + ": get_task_iterator, already_exists, set_enabled, remove_task, update_interval"), ("enabled flag checked at dispatch", TS_C + ": update_tasks")],
     ["return values of the management calls, task start events"])

prop("C10", "task_scheduler start/stop always terminates and is leak-free",
     "start() and stop() return true exactly when they change the scheduler from stopped to running or from running to stopped; stop() and the destructor always return once the tasks already executing have finished, regardless of what the scheduling thread and concurrent callers are doing. "
     "When stop() has returned no scheduled task runs any more - not even after a later start() - tasks_size() is 0, futures of tasks that did not run fail with broken_promise, and scheduling on a stopped scheduler is refused. "
     "A restarted scheduler works like a new one.",
     ["schedules", "histories"], "every interleaving of start/stop/destroy with the scheduling thread, pool workers and callers adding tasks",
     "A lost shutdown notification or a task slipping in between the running check and the insertion needs one precise interleaving that a handful of test runs will not produce.",
     [TS_H, TS_C], [("running flag, condition variable notification and join", TS_C + ": stop, start, add_task")],
     ["return values, tasks_size(), future states, task start events, blocked threads at quiescence"])

ED_H, ED_C = I + "event_dispatcher.hpp", S + "event_dispatcher.cpp"
prop("C11", "event_dispatcher delivers each event exactly once to each matching handler",
     "emit(name, args...) invokes, exactly once each and on the dispatcher's threads, the handlers that are registered for that very event name and that very argument type list when emit runs, passing them values equal to args and private to each handler; handlers of other names or of other argument lists (including the same types in another order) are not invoked. "
     "It returns true iff at least one handler matched, and with a single dispatcher thread deliveries happen in emission order and, within one emission, in registration order. "
     "A handler that throws affects no other delivery.",
     ["schedules", "histories", "inputs"], "every set of names, type lists and handlers, every interleaving of emitters, registrations, removals and dispatcher threads",
     "Tests use one name and one type list at a time, so confusions between names/type lists that collide and deliveries racing with registration are never exercised.",
     [ED_H, ED_C], [("handlers keyed by name and argument types", ED_H + ": get_event_handler_id, add_handler, emit"), ("delivery through the thread pool", ED_H + ": emit")],
     ["handler invocations with their argument values, return value of emit"])

prop("C12", "event_dispatcher registry: unique ids, removals hit exactly their target",
     "Every handler registered on a dispatcher gets an id that is unique within that dispatcher, counting up from 1 for a new dispatcher regardless of other dispatchers being created, used or destroyed, also under concurrent registration. "
     "remove_handler(id) removes exactly that handler and remove_event(name) exactly the handlers of that event name (all argument lists), both returning whether something was removed; after they return, emissions that begin later do not invoke the removed handlers while all other handlers stay registered. "
     "stop() forgets all handlers, and start()/stop() return true exactly on a state change.",
     ["histories", "schedules", "inputs"], "every sequence of registrations and removals over several names (including prefixes of one another), several dispatchers and several threads",
     "Tests never register two names where one is a prefix of the other, nor use two dispatchers at once, nor register from several threads.",
     [ED_H, ED_C], [("handler table under a mutex and id counter", ED_H + ": add_handler; " + ED_C + ": remove_handler, remove_event, stop")],
     ["ids, return values, handler invocations"])

OB = I + "observable.hpp"
prop("C13", "observable notifies exactly once per effective change, in order",
     "Under concurrent assignments, value() and callback_enabled calls, an observable behaves as an atomic register: assigning a value that compares equal to the current one does nothing, and every other assignment made while the callback is enabled invokes the callback exactly once with the newly assigned value. "
     "Callback invocations never overlap, their order is the order in which the assignments took effect, and each assignment returns only after its own callback has completed; an exception thrown by the callback reaches that assignment's caller, the assignment having taken effect.",
     ["schedules", "histories"], "every interleaving of setters, getters and enable/disable calls",
     "The tests assign from one thread; the sequence of callbacks versus the sequence of stored values is only interesting when setters race.",
     [OB], [("comparison, store and callback under one lock", OB + ": set, value, callback_enabled")],
     ["callback begin/end with value, call/return of assignment, value() and callback_enabled"])

HT_H, HT_C = I + "high_precision_timer.hpp", S + "high_precision_timer.cpp"
prop("C14", "high_precision_timer ticks stay on the grid and are fully accounted for",
     "After start(I), for any positive interval I (up to the longest duration, whose first tick never comes), the n-th callback never begins before the library clock reaches start + n*I, every callback is invoked for a distinct time start + k*I with strictly increasing k, and callbacks never overlap. "
     "A tick is skipped only because a callback was still running when its time had passed: at every moment between callbacks invoked_callback_count() equals the number of callbacks completed since start, and invoked plus missed equals the number of grid times accounted for, so no overrun, and no change of the system (wall) clock, ever drifts the grid or corrupts a counter.",
     ["schedules", "inputs", "histories"], "every interval, every callback duration pattern (including overruns of many intervals), clock granularity and wake-up jitter",
     "Tests use real milliseconds with tolerances and at most a couple of overruns, so drift of one interval, double ticks or counter underflow go unnoticed.",
     [HT_H, HT_C], [("next due time advanced by whole intervals", HT_C + ": update_next_start_time, worker"), ("invoked/missed counters", HT_C + ": worker, update_next_start_time")],
     ["clock value at callback begin/end, both counters"])

prop("C15", "high_precision_timer start/stop/restart is prompt and safe",
     "start() without a callback, or with an interval that is not positive, returns false and starts nothing; start() with a callback returns true with the timer running, restarting it with reset counters if it already was. "
     "stop() and the destructor always return without waiting for the next tick (only for a callback in progress), after stop() has returned no callback runs until the next start(), and set_callback() may be called at any time, including while the timer runs, every tick invoking exactly one complete callback object, the old or the new one, with the arguments given along with it.",
     ["schedules", "histories"], "every sequence of set_callback/start/stop/destroy and every interleaving with the timer thread",
     "The tests stop idle timers on a natural schedule; a stop that is lost, or waits for a long interval, or a callback replaced in mid-tick needs a particular interleaving.",
     [HT_H, HT_C], [("predicate wait on the running flag, join", HT_C + ": worker, stop, start"), ("callback object replaced by set_callback", HT_H + ": set_callback")],
     ["return values, callback begin/end, virtual time spent in stop()"])

RL_H, RL_C = I + "rate_limiter.hpp", S + "rate_limiter.cpp"
prop("C16", "rate_limiter.sync never returns early and never drifts",
     "For a rate_limiter created at time T with rate r > 0, the n-th sync() call returns no earlier than T + n/r, up to one clock tick of rounding, and when the caller is ahead of schedule it returns as soon as the clock reaches that time. "
     "When the caller is late it returns immediately without sleeping, the lost time being caught up, so the long-run rate is exactly r whatever the frame durations, whatever happens to the system (wall) clock and whichever signal handlers run meanwhile.",
     ["inputs", "schedules"], "every rate, every sequence of frame durations (shorter and longer than the period)",
     "Tests measure a few real frames with a tolerance; drift and early return need long or irregular sequences with an exact clock.",
     [RL_H, RL_C], [("absolute deadlines accumulated by a fixed step", RL_C + ": sync, rate_limiter")],
     ["clock value at return of sync"])

SG_H, SG_C = I + "signal_handler.hpp", S + "signal_handler.cpp"
prop("C17", "quit and shutdown signals release wait_for_quit and report once",
     "After install_signal_handlers(callback), delivery of SIGINT, SIGTERM or SIGABRT - in any thread, before or while wait_for_quit() is being called - invokes the callback exactly once with that signal's name and number and lets wait_for_quit() return; quit(message, n) does the same with the given message and number. "
     "wait_for_quit() returns only after that callback has been run, no more waits return than quits and signals have been issued, a quit issued before the wait is not lost, and several of them issued before the wait, or at the same time, are all reported.",
     ["schedules", "fault_sequences", "inputs"], "every ordering of install, wait, quit and signal delivery, every thread receiving the signal",
     "Tests raise one signal at a time in the waiting program order; they do not explore a signal arriving before, during or after the wait or in another thread.",
     [SG_H, SG_C], [("semaphore released by quit, acquired by wait_for_quit", SG_C + ": quit, wait_for_quit"), ("signal number to name mapping", SG_C + ": signal_handler, install_signal_handlers")],
     ["callback invocations, return of wait_for_quit"])

prop("C18", "concurrent use of the thread-safe components is free of data races",
     "No data race, use-after-free, deadlock-prone lock inversion or other undefined behaviour occurs inside the library when blocking_queue, thread_pool, task_scheduler, event_dispatcher and observable are used concurrently from any number of threads through their whole public interface, including start, stop and status queries, when uuids are created concurrently, and when a high_precision_timer's callback is replaced or its counters are read while it runs.",
     ["schedules", "programs"], "every interleaving of every mix of public calls from several threads",
     "A data race is a property of all schedules: tests without a race detector pass even when every run races.",
     [BQ, TP_H, TP_C, TS_H, TS_C, ED_H, ED_C, OB, HT_H, HT_C, I + "uuid_generator.hpp", S + "uuid_generator.cpp"],
     [("mutexes and atomics of each component", "the files above")],
     ["ThreadSanitizer / AddressSanitizer reports"])

UG_H, UG_C = I + "uuid_generator.hpp", S + "uuid_generator.cpp"
prop("C19", "created uuids are valid, distinct version-4 uuids",
     "Every uuid created by the generator has version 4 and RFC 4122 variant bits, is accepted as valid in its text form, and is different from every other uuid created in the process, also when several threads create uuids concurrently. "
     "Every one of the remaining 122 bits takes both values, and no two of them are tied to one another, over a large sample; and already the first uuid of a process depends on at least 122 bits of the randomness of the system, so that uuids of different processes are distinct too.",
     ["schedules", "histories"], "every number of creations by every number of threads",
     "The test compares a few hundred uuids created by one thread; duplicates and corrupted state come from unsynchronised concurrent creation, and stuck or copied bits need a statistical oracle.",
     [UG_H, UG_C, I + "uuid.hpp"], [("mt19937 words with version/variant masks", UG_C + ": create")],
     ["text form of created uuids"])

prop("C20", "uuid parsing, printing and ordering agree with the byte value",
     "to_string() prints 36 characters in the 8-4-4-4-12 lower-case form, and from_string(to_string(u)) == u for every uuid. "
     "from_string accepts exactly the texts is_valid() accepts - 32 hexadecimal digits of either case, with any number of '-' anywhere, optionally enclosed in one pair of braces - yielding the bytes those digits spell, and throws std::runtime_error for every other text. "
     "==, !=, <, >, <=, >= form a strict total order identical to the order of the text forms.",
     ["inputs"], "every byte value, every text",
     "Tests try a dozen texts; the accept/reject boundary and byte placement range over all strings.",
     [UG_H, UG_C, I + "uuid.hpp", S + "uuid.cpp"], [("digit loop", UG_C + ": from_string, is_valid"), ("formatting loop", S + "uuid.cpp: to_string"), ("array comparison", I + "uuid.hpp")],
     ["results and exceptions of from_string, is_valid, to_string, comparison operators"])

AP_H, AP_C = I + "argparse/argument_parser.hpp", S + "argparse/argument_parser.cpp"
AB, AO, APo, AF = I + "argparse/argument_base.hpp", I + "argparse/optional_argument.hpp", I + "argparse/positional_argument.hpp", I + "argparse/flag_argument.hpp"
prop("C21", "argparse binds every command-line token to the right variable",
     "For every set of declared positionals, options and flags and every argument vector made of well-formed tokens (values, -s/--long flags, and options written '--long value', '--long=value', '-s value' or '-s=value'), parse() succeeds iff every token matches a declaration with a convertible, validated value and every positional and required option got a value; positionals are filled in declaration order, a repeated option keeps its last value, and every variable that received no value keeps its declared default. "
     "The value stored is the conversion of exactly the text given: strings and paths verbatim (only the first '=' separates), int, float and double as the longest numeric prefix, other types from the whole text, lists element by element between commas (a trailing comma adds none), and an empty value given as '--long=' is an empty value; the number punctuation of the program's global C++ locale plays no part in it. "
     "The first -h/--help/-v/--version token reached in option position yields quit, and any failure yields error; TC_PARSE_CLI goes on exactly after success, returns EXIT_SUCCESS after quit and EXIT_FAILURE after error, and an argument object the program keeps a pointer to says is_parsed() exactly when it got a value.",
     ["inputs", "programs"], "every declaration set, every argument vector in that grammar",
     "The tests try one fixed declaration set with about twenty command lines; binding mistakes depend on combinations of order, repetition and spelling.",
     [AP_H, AP_C, AB, AO, APo, AF], [("token loop", AP_C + ": parse"), ("key/value split and lookup", AP_C + ": split_key_value, find_argument"), ("conversion", AB + ": convert")],
     ["parse result, values of the bound variables"])

prop("C22", "argparse survives arbitrary input: it reports an error, it never crashes",
     "parse() returns success, error or quit for every argument vector and every environment content - any bytes, lone dashes, empty arguments, empty keys or values, unconvertible or out-of-range numbers, values rejected or thrown on by a validator - without terminating the process, throwing, or touching memory out of bounds. "
     "A token that starts with '-' but names no declared argument (such as '-', '--', '---x' or '--=v') is an error and never binds to a declaration, and a value that is rejected leaves its variable unchanged.",
     ["inputs", "fault_sequences"], "every argument vector and every environment",
     "Tests use well-behaved command lines only and never an invalid environment value.",
     [AP_H, AP_C, AB, AO], [("exceptions turned into parse_result::error", AP_C + ": parse"), ("conversion errors", AB + ": convert, parse_from_env")],
     ["parse result, process survival, bound variables, sanitizer reports"])

prop("C23", "argparse value precedence: command line over environment over default",
     "An option declared with an environment variable takes the command-line value if one is given, else the environment value if that variable is set, else its default (a flag is on iff it is given or its variable is set); a required option is satisfied by either source. "
     "Arguments without an environment variable, and variables that are not declared, are never influenced by the environment, and each argument reads only its own variable.",
     ["inputs", "configurations"], "every combination of declared options/flags, command line and environment",
     "Tests cover the environment on a single stand-alone argument object, never through the parser with several arguments and both sources present.",
     [AP_C, AB, AO, AF], [("environment pass before the token loop", AP_C + ": parse; " + AB + ": parse_from_env"), ("required check", AP_C + ": check_parsed_arguments")],
     ["parse result, values of the bound variables"])

DT, TM, DTM, TD = (I + "datetime/%s.hpp" % n for n in ("date", "time", "datetime", "timedelta"))
DTc, TMc, DTMc, TDc = (S + "datetime/%s.cpp" % n for n in ("date", "time", "datetime", "timedelta"))
prop("C24", "date arithmetic and ordering agree with the proleptic Gregorian calendar",
     "For every valid date in years -32767..32767, year/month/day, weekday (Sunday = 0) and ISO weekday (Monday = 1 .. Sunday = 7) are those of the proleptic Gregorian calendar, == < > order dates chronologically, and is_valid() holds exactly for existing calendar days. "
     "Adding or subtracting a timedelta moves the date's midnight by exactly that amount and takes the day it falls in (rounding towards the past), and whenever the difference of two dates is representable d1 - d2 is their exact distance, so that d2 + (d1 - d2) == d1.",
     ["inputs"], "every date and every timedelta",
     "Tests use a dozen hand-picked dates around 2024; calendar errors live at leap-year, century, negative-time and far-range boundaries.",
     [DT, DTc], [("year_month_day / sys_days conversions", DT)], ["getters, operators"])

prop("C25", "time of day is normalised and its components recompose it",
     "A time built from any list of durations whose partial sums and exact sum S are representable in nanoseconds holds S reduced modulo 24 hours towards zero (so it is always strictly within one day and keeps the sign of S); hours, minutes, seconds and the sub-second getters are the components of its absolute value, and ==, !=, <, > and the differences/sums of two times are those of the stored durations. "
     "Adding or subtracting a timedelta adds or subtracts its exact duration and normalises again, and every time so built is valid while a default-constructed one is not.",
     ["inputs"], "every list of durations and every timedelta",
     "Tests use a few round values; carry, rounding and sign errors appear at component boundaries.",
     [TM, TMc], [("hh_mm_ss of the sum modulo 24h", TM)], ["getters, operators"])

prop("C26", "datetime decomposes into and recomposes from date and time",
     "For every instant representable in nanoseconds (the whole days 1677-09-22..2262-04-11), date() and time() are its UTC calendar day and its non-negative offset within that day, and datetime(date(), time()) is the same instant; construction from components whose partial sums are representable adds them exactly. "
     "Adding/subtracting timedeltas and the difference of datetimes are exact whenever representable, ==, !=, <, > are chronological, and is_valid() is false exactly for the two extreme sentinel instants (a default datetime is invalid). utc_now<D>() of datetime and time and date::today() are the system clock's UTC instant cut down to D, its time of day cut down to D, and its day, whatever time zone the process has.",
     ["inputs"], "every instant and every timedelta",
     "Tests use instants in 2024 only; floor-versus-truncate errors only show for instants before 1970 or at day boundaries.",
     [DTM, DTMc], [("floor to days", DTM + ": date, time")], ["getters, operators"])

prop("C27", "timedelta is exact integer nanosecond arithmetic",
     "A timedelta built from any list of durations with representable partial sums equals their exact sum; +, -, *, / (truncating towards zero) and ==, != are those of the nanosecond count whenever the result is representable, and dividing by zero throws std::domain_error. "
     "total_X() is the nanosecond count truncated towards zero to X, and the component getters recompose the value exactly: hours + minutes + seconds + milliseconds + microseconds + nanoseconds equals it, with each component below hours in its natural non-negative range.",
     ["inputs"], "every nanosecond count and scalar",
     "Tests use small positive values; negative and boundary values and the documented error are never exercised.",
     [TD, TDc], [("nanosecond representation", TD)], ["getters, operators, exceptions"])

prop("C28", "date/time text conversion round-trips and rejects invalid text",
     "to_string of a date (years 0..9999), non-negative time, datetime or timedelta at precision P prints the ISO-style text of the value cut to P - for datetimes towards the past, for timedeltas towards zero - or the requested format built from %Y %m %d %b %B %a %A %F %D %T %R %H %M %S, and for dates, non-negative times and datetimes, from_string of that text at precision P gives that cut value back. "
     "from_string returns the value the text denotes, for every well-formed text including dates outside the nanosecond range, or throws std::runtime_error when the text does not match the format, does not denote an existing day or time of day, or denotes an instant a datetime cannot represent. All this is the same in every time zone, and a global C++ locale with its own number punctuation changes no timedelta text, no text in a default format without fraction digits, and no round trip.",
     ["inputs"], "every value, precision and text of the default formats",
     "Tests convert a few values of 2024; years beyond 2262, instants before 1970 and near-miss texts are never converted.",
     [DTc, TMc, DTMc, TDc], [("date::format / date::parse", DTc + ", " + TMc + ", " + DTMc), ("manual formatting", TDc + ": to_string")],
     ["results and exceptions of to_string/from_string"])

RC, LN, PT, SZ, RG = (I + "geometry/%s.hpp" % n for n in ("rectangle", "line", "point", "size", "range"))
prop("C29", "rectangle predicates and set operations agree with plane geometry",
     "For rectangles of positive width and height, intersects() holds iff their open interiors meet, get_intersection() is exactly the common rectangle when they do and has zero area otherwise, get_union() is the smallest enclosing rectangle, null rectangles being ignored, and both operations are commutative. "
     "contains(point) holds iff the point is in the open interior, contains(rectangle) iff the other rectangle lies strictly inside on all four sides, and intersects(line) holds whenever the segment meets the open interior and fails whenever it misses the closed rectangle. "
     "Corners, size, area, center, equality, translate and translated are those of the position and dimensions.",
     ["inputs"], "every pair of rectangles and every point whose coordinates the type has, up to its ends and for unsigned types too, and every segment whose coordinate products are exact in double, for integer and floating coordinate types",
     "The existing tests never call intersects, contains, get_intersection, get_union or translated at all.",
     [RC], [("coordinate comparisons", RC)], ["results of the public member functions"])

prop("C30", "line intersection agrees with exact segment geometry",
     "For two non-parallel segments, get_intersection() returns a point iff the closed segments share a point, and the point returned is the exact intersection up to floating-point rounding; for parallel segments (including degenerate ones) it returns nothing. "
     "intersects() agrees with get_intersection() and both are symmetric in their arguments, and equality ignores direction while is_null, is_vertical and is_horizontal describe the endpoints.",
     ["inputs"], "every pair of segments with coordinates exactly representable in the computation",
     "Tests use about ten hand-made pairs; sign and boundary mistakes show only for particular orientations or touching endpoints.",
     [LN], [("determinant formula with unit-range tests", LN + ": get_intersection")], ["results of the public member functions"])

prop("C31", "point and size arithmetic is exact and distances do not overflow",
     "Point +, -, +=, -=, add_delta, sub_delta, scalar *, /, *=, /=, equality and the setters act on each coordinate as the coordinate type's own arithmetic does, the compound forms agreeing with the binary ones. "
     "distance() and distance_from_origin() equal the Euclidean distance (truncated for integer types), symmetric, whenever that result is representable, without overflowing on the way. "
     "Size compares, sets and reports its two dimensions independently and is null iff both are zero, and text forms list both values.",
     ["inputs"], "every coordinate value for int, unsigned, long, float and double",
     "Tests use coordinates up to 9, where intermediate overflow cannot occur and swapped coordinates are often invisible.",
     [PT, SZ], [("coordinate arithmetic", PT), ("sqrt of the sum of squares", PT + ": distance, distance_from_origin")], ["results of the public member functions, sanitizer reports"])

prop("C32", "range operations agree with half-open interval arithmetic",
     "For ranges with min <= max, contains(value) holds iff min <= value < max, contains(range) iff the other's bounds lie within, and intersects() iff the half-open intervals overlap (each minimum below the other's maximum); get_intersection() is the common interval or the default range when there is none, get_union() the smallest enclosing range, both commutative. "
     "clamp(v) is the value of [min, max] nearest to v, map(t) is min + t*(max - min), lenght() is max - min (where the type has that value; map() needs no such condition), and set_min/set_max keep min <= max by collapsing onto the new bound.",
     ["inputs", "histories"], "every pair of ranges, values and setter sequences for int, unsigned, long, float and double",
     "Tests use three fixed ranges.",
     [RG], [("bound comparisons", RG)], ["results of the public member functions"])

prop("C33", "min/max return the extreme of two, three and four values",
     "max and min of two, three or four values return an argument that no other argument exceeds (respectively, undercuts), for every order and every pattern of ties.",
     ["inputs"], "every ordering and tie pattern of two, three and four values of any ordered type",
     "Tests cover selected orderings; each nested branch is reached only by particular orderings and ties.",
     [I + "math.hpp"], [("nested comparisons", I + "math.hpp")], ["return values"])

SL_H = I + "service_locator.hpp"
prop("C34", "service_locator returns exactly the registered object",
     "Across any sequence of register_service, register_instance, unregister, is_registered and get over any set of types, the locator agrees with a map from type to shared object: registering a type that is already registered returns false and leaves the first object in place, get returns that very object - usable through the interface it was registered under, also with multiple or virtual inheritance - or null, and unregister releases it. "
     "The locator shares ownership: an object lives while registered or held by a caller, is destroyed exactly once after that, and its constructor receives the given arguments.",
     ["histories", "programs"], "every call sequence over any set of interface/implementation types",
     "Tests register single-inheritance services only, where a wrong pointer conversion is invisible.",
     [SL_H, S + "service_locator.cpp"], [("type-indexed map of shared pointers", SL_H)], ["return values, virtual calls through the returned pointer, constructor/destructor counts"])

prop("C35", "stopwatch measures from its last reset and never goes backwards",
     "elapsed() is the library clock's advance since construction or the last reset(), hence non-negative and non-decreasing between resets; elapsed<D>() is that duration truncated to D, and start_time() is the clock value of the construction or last reset. Setting the system (wall) clock has no influence on any of this.",
     ["histories", "inputs"], "every sequence of advances, reads and resets",
     "Tests sleep and compare with a tolerance.",
     [I + "stopwatch.hpp"], [("monotonic clock difference", I + "stopwatch.hpp")], ["return values under a controlled clock"])

prop("C36", "task owns its callable and invokes it exactly once per call",
     "A task built from any callable - temporary, moved, copied from a named or const object, with or without captured state - owns its own copy: invoking it after the original is gone is valid, each invoke() or operator() call runs the callable exactly once and propagates its exception, and moving a task moves that ownership. "
     "The callable is destroyed exactly once, with the task that owns it.",
     ["programs", "histories"], "every callable category and every sequence of moves, invocations and destructions",
     "Tests keep the original callable alive for the whole test, so a task that merely refers to it passes.",
     [I + "task.hpp"], [("type-erased owned callable", I + "task.hpp: task_impl")], ["invocation/copy/destruction counts, sanitizer reports"])

prop("C37", "argparse help, version and error output describe exactly what is declared",
     "-h or --help prints on standard output the program name and version, its description, a usage line and a list in which every declared positional, option and flag - help and version included - appears exactly once, with its names, its description and its environment variable, in declaration order within each kind, and nothing else; -v or --version prints exactly the name and version. "
     "When parsing fails the same help is printed and the message on standard error names the argument at fault: the unknown option as written, the one that lacks a value, whose value does not convert or is rejected by its validator, the surplus positional value, or every missing positional, else every missing required option. A successful parse prints nothing.",
     ["inputs", "programs"], "every declaration set and every command line in the grammar of C21",
     "The tests never look at the printed text of more than one fixed parser; an entry missing, doubled or misattributed depends on the declaration set.",
     [AP_H, AP_C, AB, AO, APo, AF], [("help text assembled from the declared arguments", AP_C + ": print_help, print_version"), ("diagnostics", AP_C + ": parse")],
     ["bytes written on standard output and standard error"])

prop("C38", "singletons are built once, completely, before anyone can use them",
     "singleton<T>::instance() returns one and the same completely constructed object to every caller in every thread: the constructor runs exactly once even when the first uses are concurrent or when one singleton's constructor uses another singleton, and everything the constructor wrote is visible to every caller. "
     "If a constructor throws, the exception reaches the caller that ran it, the other callers keep waiting for or try a construction of their own, and the next use tries again. The built-in singletons behave likewise.",
     ["schedules", "histories"], "every interleaving of first uses by any number of threads, with constructors that yield, throw or use other singletons",
     "A process reaches the first use of a singleton once; the tests reach it on one thread.",
     [I + "singleton.hpp", I + "service_locator.hpp", I + "uuid_generator.hpp"], [("function-local static", I + "singleton.hpp: instance")],
     ["address and contents of the returned object, constructor runs, race reports"])

prop("C39", "components release what they are given as soon as it cannot be used any more",
     "thread_pool, task_scheduler, event_dispatcher, blocking_queue, observable and high_precision_timer keep the callables, arguments and items they are given alive while they can still be used and destroy each of them exactly once: once the task has been executed, dropped or removed (and its future is gone), the handler removed, the callback replaced or the item taken, and at the latest when the component is stopped or destroyed as documented. "
     "An idle component therefore holds only what is still queued, scheduled or registered, however long it has been running, and a component that is never started or never stopped leaks nothing.",
     ["histories", "schedules"], "every history of submissions, removals, stops and destructions, in every schedule",
     "Functional tests pass whether captured objects are released early, late or never; leaks show only after long histories and use-after-destruction only under particular interleavings.",
     [TP_H, TP_C, TS_H, TS_C, I + "event_dispatcher.hpp", I + "observable.hpp", I + "high_precision_timer.hpp", BQ], [("owned callables and items", "the containers of each component")],
     ["live-object registry, sanitizer reports"])

prop("C40", "waiting costs no processor time",
     "A thread that waits - a caller blocked in blocking_queue push or pop, rate_limiter.sync or wait_for_quit, an idle worker of a thread_pool or event_dispatcher, the scheduling thread of a task_scheduler, the thread of a high_precision_timer, whoever stops or destroys a component while a task or callback is still executing - sleeps until there is something for it to do: however long nothing is due, no component wakes up, polls or spins, whatever it was used for before, and each due time of a task or tick costs a bounded amount of work. "
     "A stopped or never started component does nothing at all.",
     ["histories", "schedules", "configurations"], "every idle state a component can be brought into (never used, used before, full, empty, stopped, restarted, waiting for something far away) and any length of idleness",
     "Functional tests pass whether a component sleeps or polls; the cost only shows as processor time and wake-ups while nothing happens.",
     [TP_H, TP_C, TS_H, TS_C, I + "event_dispatcher.hpp", BQ, HT_H, HT_C, RL_C, SG_C], [("condition variable and timed waits until the next due time", "the worker loops of each component")],
     ["schedule points (locks, waits, wake-ups, clock reads, atomic accesses) per idle period"])

prop("C41", "instances of a component are independent of each other",
     "Whatever is done to one thread_pool, task_scheduler, event_dispatcher, blocking_queue, observable, high_precision_timer, rate_limiter, stopwatch or argument_parser - using, filling, stopping, restarting or destroying it, from any thread and with the same names and ids - has no effect on what another instance does: its results, its state, which of its callables run and when. The same holds of the value types (dates, times, durations, uuids, geometry): values of one's own can be computed with, written as text and read from text by any number of threads at once, and a value that nobody changes can be read by all. "
     "Several instances can be used at the same time, each from a thread of its own or one from the callbacks of another, without any synchronisation between them.",
     ["histories", "schedules"], "every pair of histories of two instances, of the same or different kinds, in every schedule",
     "Tests use one instance at a time; state shared by accident (static members, globals, common locks) shows only when two are busy at once.",
     [TP_H, TP_C, TS_H, TS_C, I + "event_dispatcher.hpp", BQ, I + "observable.hpp", HT_H, HT_C, RL_H, AP_H, AP_C, S + "uuid.cpp", S + "datetime/timedelta.cpp", S + "datetime/datetime.cpp", S + "datetime/date.cpp", S + "datetime/time.cpp"], [("all state in non-static members", "the private sections of each component"), ("no state kept between conversions", "to_string and from_string of each value type")],
     ["results and exact times of callables, alone and beside another instance; race reports"])

prop("C42", "a call that runs out of memory or threads, or whose copies throw, fails cleanly",
     "When an allocation, the creation of a thread or the copying of a callable, argument or item fails during a call of blocking_queue, thread_pool, task_scheduler, event_dispatcher, high_precision_timer, observable or service_locator, the call completes or throws (std::bad_alloc, std::system_error or the copy's exception) to its caller, and one that throws has had no effect: nothing is queued, scheduled, registered, removed or changed by it, no lock stays held, no thread is left behind, nothing leaks, what was accepted before and every later call work as if it had not been made, and a component whose start() threw is stopped and can be started later. "
     "stop() and destructors never fail for lack of memory (breaking the promises of dropped tasks whose futures are still held apart). "
     "Only emit() may have reached the first of the handlers, starting a high_precision_timer again may have ended its previous run, and an observable may have taken the value without calling back.",
     ["histories", "fault_sequences"], "every call, at every allocation, copy and thread creation it makes, after every history",
     "No test makes an allocation or a thread creation fail; half-done calls are invisible otherwise.",
     [TP_H, TP_C, TS_H, TS_C, I + "event_dispatcher.hpp", BQ, HT_H, HT_C, I + "observable.hpp", I + "service_locator.hpp"], [("start, stop, update_interval, add_handler, enqueue_task", TP_C), ("start, update_interval, add_task", TS_C)],
     ["results, state, threads alive, executions, objects held after calls with an injected failure"])

prop("C43", "tasks, handlers and callbacks may use the component that runs them",
     "Pool tasks may submit any number of tasks to their own pool and query it; scheduled tasks may schedule others, schedule themselves again under their own id (which is free once a one-shot task starts), and remove, disable, re-time or replace themselves and each other; event handlers may emit events and add or remove handlers, themselves included; timer callbacks may set another callback and read the counters; service constructors may use and extend the service_locator. "
     "Such a call never waits for the task that makes it, however few threads the component has and whether or not stop() is in progress, returns and has exactly the effect it would have if made from outside at that moment, and never destroys the callable that is running; components that feed each other lose and duplicate nothing. "
     "Excepted are calls that have to wait for their own caller: start, stop and destruction from within, and an observable used by its own callback.",
     ["histories", "schedules"], "every program of calls made from tasks, handlers and callbacks, at any depth and number, on any number of threads",
     "Tests call components from outside; a lock held, or an entry not yet removed, while user code runs shows only when that code calls back.",
     [TP_H, TP_C, TS_H, TS_C, I + "event_dispatcher.hpp", HT_H, HT_C, I + "observable.hpp", I + "service_locator.hpp"], [("user code runs without any lock of the component", TP_C + ": worker; " + HT_C + ": worker; " + I + "event_dispatcher.hpp: emit")],
     ["results of calls made from within, times and order of later executions and deliveries, deadlocks"])

prop("C44", "what a component occupies depends on what it holds, not on its history",
     "However long a program runs, what thread_pool, task_scheduler, event_dispatcher, blocking_queue, observable, high_precision_timer, rate_limiter, stopwatch, service_locator, the signal handlers, singletons, uuid_generator, argument_parser and the date and time texts occupy is bounded by what they currently hold plus a constant. "
     "After any sequence of calls that leads back to an earlier state - tasks executed, dropped or removed, handlers, events and services removed, items taken, values and callbacks replaced, periodic tasks and timers gone on ticking, pools, schedulers, dispatchers and timers stopped and started again, instances destroyed and made anew - they use no more memory, threads or open files than before, however often it is repeated and whatever names and ids were used on the way.",
     ["histories", "schedules"], "every cycle of calls that returns to the state it began in, repeated any number of times",
     "Tests use a component a few times; what every use leaves behind is seen only after many of them, and no leak checker reports what is still reachable.",
     [TP_H, TP_C, TS_H, TS_C, I + "event_dispatcher.hpp", BQ, I + "observable.hpp", HT_H, HT_C, RL_C, SG_C, AP_C, I + "service_locator.hpp"], [("containers of threads, tasks, handlers, services and items", "the private sections of each component")],
     ["allocated blocks and bytes, threads and open files after every cycle"])

prop("C45", "calls leave the process and its streams as they found them",
     "No call of the library changes what belongs to the program that makes it: environment variables, the C and the global C++ locale, working directory, umask, the sequences of rand() and drand48(), floating point modes, signal dispositions and masks, terminate and new handlers, resource limits, interval timers, name, affinity, priority, locale, signal stack and timer slack of the calling thread, users and groups, open files, the argument vector given to argument_parser, and the format settings, locale, exception mask, tie and buffer of std::cin, cout, cerr and clog and of every stream a value is written to, whether the call succeeds or throws. "
     "install_signal_handlers changes the dispositions of SIGINT, SIGTERM and SIGABRT and nothing else. When a component's life ends neither threads nor open files are left. "
     "Dates, times and the std::chrono calendar types write the same text to every stream, whatever its settings (field width apart).",
     ["histories", "configurations"], "every call in every program, whatever it has set beforehand",
     "Tests look at results; what a call leaves behind in the process shows in unrelated code, and only in programs that had settings of their own.",
     [AP_C, I + "argparse/argument_base.hpp", I + "datetime/timedelta.hpp", S + "datetime/date.cpp", S + "datetime/datetime.cpp", SG_C, TP_C, TS_C, HT_C, S + "uuid_generator.cpp"], [("help on std::cout", AP_C + ": print_arguments"), ("stream output", I + "datetime/timedelta.hpp: operator<<"), ("signal dispositions", SG_C + ": install_signal_handlers")],
     ["the process's settings, std streams and user streams before and after every call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
