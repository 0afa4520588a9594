"""What each check runs. quick/thorough: number of executions."""

DS = "the real library code runs on the controlled scheduler: one thread at a time, preemption points at every pthread/futex/clock call and every atomic access"

HARNESS = {
    "bq": dict(),
    "tp": dict(),
    "sched": dict(),
    "ev": dict(),
    "obs": dict(),
    "ht": dict(),
    "rl": dict(),
    "sig": dict(),
    "race": dict(),
    "uuid": dict(),
    "arg": dict(),
    "single": dict(),
    "own": dict(),
    "idle": dict(),
    "indep": dict(),
    "oom": dict(),
    "reent": dict(),
    "grow": dict(),
    "state": dict(),
    "scale": dict(),
    "dt24": dict(src="dt", flags=["-DONLY=24"]),
    "dt25": dict(src="dt", flags=["-DONLY=25"]),
    "dt26": dict(src="dt", flags=["-DONLY=26"]),
    "dt27": dict(src="dt", flags=["-DONLY=27"]),
    "dt28": dict(src="dt", flags=["-DONLY=28"]),
    "geo29": dict(src="geo", flags=["-DONLY=29"]),
    "geo30": dict(src="geo", flags=["-DONLY=30"]),
    "geo31": dict(src="geo", flags=["-DONLY=31"]),
    "geo32": dict(src="geo", flags=["-DONLY=32"]),
    "geo33": dict(src="geo", flags=["-DONLY=33"]),
    "svc34": dict(src="svc", flags=["-DONLY=34"], extra=["svc34_unit2"]),
    "svc35": dict(src="svc", flags=["-DONLY=35"]),
    "svc36": dict(src="svc", flags=["-DONLY=36"]),
}

CHECKS = {
    "C01": dict(
        jobs=[dict(bin="bq", build="tsan", mode="lin", quick=24000, thorough=400000),
              dict(bin="bq", build="tsan", mode="bulk", quick=2400, thorough=40000),
              dict(bin="scale", build="tsan", mode="queue", quick=64, thorough=1000, chunk=4, hang_s=240)],
        rule="a random plan of push/try_push/pop/try_pop/size/capacity calls on 2-7 threads, capacity 0..12, item types int/string/shared_ptr/heap-owning, run under a seeded schedule; lin: the complete call/return history is checked by a Wing-Gong search against a bounded FIFO model; bulk: unique-value FIFO/conservation/bounds oracles; queue: capacities up to 70000 (and up to the largest size_t) filled to the last place, drained, wrapped, and crossed by a producer and a consumer. Distinct non-trivial: distinct histories with at least one overlapping pair of calls (lin), distinct schedules (bulk)",
        require=["queue.items", "lin.overlapping_pairs", "bulk.ordered_pairs_checked"]),
    "C02": dict(
        jobs=[dict(bin="bq", build="tsan", mode="block", quick=48000, thorough=300000)],
        rule="random blocking producers/consumers (2-6 threads); whenever no thread can run a monitor compares who is blocked with the queue's size and then releases somebody. Distinct: distinct schedules",
        require=["block.quiescent_with_blocked_push", "block.quiescent_with_blocked_pop"]),
    "C03": dict(
        jobs=[dict(bin="bq", build="tsan", mode="fault", quick=120000, thorough=400000)],
        rule="as C01 lin, with item copies throwing at the first, second or third copy of randomly chosen calls; a call that threw must have had no effect in the linearised history. Distinct non-trivial: distinct histories with at least one throw",
        require=["fault.injected_throws"]),
    "C04": dict(
        jobs=[dict(bin="tp", build="tsan", mode="once", quick=16000, thorough=200000),
              dict(bin="scale", build="tsan", mode="pool", quick=64, thorough=1500, chunk=4, hang_s=240)],
        rule="1-4 threads submit tasks of nine kinds (copied/ref arguments, functions, methods, functors, exceptions, nested submissions) to a pool of 1-8 workers and overwrite their own arguments afterwards; every future's value or exception is compared with the expected one and every task's execution count with 1; writes made by tasks are plain memory read after get(), so a missing happens-before edge is a ThreadSanitizer report; pool: up to 70000 tasks, mostly all queued before the first is executed. Distinct: distinct schedules",
        require=["pool.tasks", "once.tasks"]),
    "C05": dict(
        jobs=[dict(bin="tp", build="tsan", mode="order", quick=80000, thorough=200000),
              dict(bin="scale", build="tsan", mode="pool", quick=64, thorough=1500, chunk=4, hang_s=240)],
        rule="tasks from 1-4 submitters on 1-8 workers (requested 0..1000, hardware concurrency 1..8), begin/end events logged; oracle: overtaking bound N, concurrency bound N, threads_count, groups of N mutually waiting tasks complete; pool: up to 70000 tasks, mostly all queued before the first is executed, in order for one worker and overtaking by no more than the number of workers. Distinct: distinct schedules",
        require=["pool.tasks", "order.ordered_pairs_checked", "order.rendezvous_groups"]),
    "C06": dict(
        jobs=[dict(bin="tp", build="tsan", mode="life", quick=96000, thorough=300000),
              dict(bin="scale", build="tsan", mode="poolstop", quick=96, thorough=2000, chunk=4, hang_s=240)],
        rule="1-3 threads start/stop/query a pool while others submit; results linearised against a two-state model, every task judged against the stop() calls around it, all futures must settle, deadlock is detected by the scheduler; poolstop: up to 40000 queued tasks dropped by stop(), and up to 100 lives of one pool. Distinct: distinct schedules",
        require=["poolstop.dropped", "life.stops", "life.dropped_by_stop", "life.executed", "life.start_stop_histories"]),
    "C07": dict(
        jobs=[dict(bin="sched", build="tsan", mode="oneshot", quick=24000, thorough=200000),
              dict(bin="sched", build="tsan", mode="forever", quick=4000, thorough=60000),
              dict(bin="scale", build="tsan", mode="many", quick=200, thorough=4000, chunk=4, hang_s=240)],
        rule="1-3 threads schedule one-shot tasks by at()/in(), with and without id and arguments, at past, equal, present and future times on 1-4 pool threads; every start time is compared with the virtual clock (never early; late only while all pool threads were executing), futures with the expected result. A quarter of the runs adds late wake-ups and clock jumps (never-early and exactly-once only); forever: the same next to tasks whose delay, added to the clock, is more than the clock can represent (or nearly so): those must stay scheduled, never run, and be dropped by stop(); many: up to 20000 tasks scheduled at once (all for one instant, in order, in reverse, anywhere), with and without ids. Distinct: distinct schedules",
        require=["many.one_shots", "oneshot.one_shots", "oneshot.waited_for_a_thread", "forever.never_due", "forever.one_shots"]),
    "C08": dict(
        jobs=[dict(bin="sched", build="tsan", mode="periodic", quick=32000, thorough=100000),
              dict(bin="sched", build="tsan", mode="pause", quick=4000, thorough=60000),
              dict(bin="sched", build="tsan", mode="leap", quick=4000, thorough=60000),
              dict(bin="scale", build="tsan", mode="many_periodic", quick=200, thorough=4000, chunk=4, hang_s=240)],
        rule="1-3 periodic tasks in five call forms plus scheduling noise for 10-60 virtual ms; start times compared with the exact grid: keeping up (with interval updates), overloaded pool, and late wake-ups longer than the interval; pause: intervals and delays that the clock cannot represent: the task runs at its first due time (if that can be reached) and never again, until update_interval() gives it a shorter one; leap: intervals, delays (also negative ones), updates and lateness from nanoseconds to decades, every start time known exactly, any number of due times skipped at no cost; many_periodic: up to 600 periodic tasks at once, and up to 70000 occurrences of one. Distinct: distinct schedules",
        require=["many_periodic.occurrences", "periodic.occurrences_on_grid", "periodic.due_times_skipped", "periodic.interval_updates", "pause.paused", "pause.resumed", "pause.ran_once", "leap.occurrences", "leap.due_times_skipped", "leap.updates_before_the_first", "leap.first_due_in_the_past", "leap.late_wake_ups"]),
    "C09": dict(
        jobs=[dict(bin="sched", build="tsan", mode="mgmt", quick=12000, thorough=60000),
              dict(bin="sched", build="tsan", mode="mgmtc", quick=32000, thorough=200000),
              dict(bin="scale", build="tsan", mode="ids", quick=200, thorough=4000, chunk=4, hang_s=240)],
        rule="mgmt: random sequences of all management calls on five ids, one call at a time at quiescence, every result, tasks_size and every execution time compared with a model map in virtual time; mgmtc: concurrent calls whose results must be explained by some order (linearisation); ids: up to 3000 ids (long ones, prefixes of one another, with NUL bytes) managed at once. Distinct: distinct call sequences / histories",
        require=["ids.calls", "mgmt.occurrences_compared", "mgmtc.calls"]),
    "C10": dict(
        jobs=[dict(bin="sched", build="tsan", mode="life", quick=80000, thorough=300000)],
        rule="1-3 threads start/stop/schedule while others schedule; results linearised against a two-state model, every execution judged against the stop() calls, a named task being disabled, re-enabled, updated or removed now and then; what is known of every task, tasks_size and futures judged after stop() and after the next start(), where every id is free again, deadlocks found by the scheduler. Distinct: distinct schedules",
        require=["life.stops", "life.one_shots_run", "life.one_shots_dropped", "life.ids_used_again"]),
    "C11": dict(
        jobs=[dict(bin="ev", build="tsan", mode="seq", quick=6000, thorough=200000),
              dict(bin="ev", build="tsan", mode="conc", quick=12000, thorough=300000),
              dict(bin="scale", build="tsan", mode="events", quick=200, thorough=4000, chunk=4, hang_s=240)],
        rule="seq: random sequences of add_handler/emit/remove/start/stop/destroy on 1-3 dispatchers of 1-3 threads over 19 colliding names and 14 argument lists (permutations, prefixes, values emitted by value, const&, & and && and spoilt by the caller afterwards, handlers by value, const&, & and &&, handlers that spoil or throw), deliveries with their values compared with a model, in order for one thread; conc: 2-4 concurrent callers plus handlers that emit, ids, results and delivered sets linearised against the same model; events: up to 20000 handlers of one event, 10000 events, 70000 waiting emissions. Distinct: operation sequences / histories",
        require=["events.many_emissions", "seq.ordered_deliveries", "conc.deliveries", "conc.histories", "conc.ordered_emissions"]),
    "C12": dict(
        jobs=[dict(bin="ev", build="tsan", mode="seq", quick=32000, thorough=200000),
              dict(bin="ev", build="tsan", mode="conc", quick=32000, thorough=200000),
              dict(bin="scale", build="tsan", mode="events", quick=200, thorough=4000, chunk=4, hang_s=240)],
        rule="the executions of C11 judged for handler ids (1, 2, ... per dispatcher, whatever other dispatchers do), results of remove_handler, remove_event, start and stop, and the effect of removals on later emissions; events: up to 70000 handler ids, most of them removed again",
        require=["events.many_ids", "seq.handlers_removed", "seq.events_removed", "seq.dispatchers_destroyed", "seq.stops", "conc.histories"]),
    "C13": dict(
        jobs=[dict(bin="obs", build="tsan", mode="obs", quick=90000, thorough=600000),
              dict(bin="scale", build="tsan", mode="assign", quick=200, thorough=4000, chunk=4, hang_s=240)],
        rule="1-4 threads assign (copy and move), read, enable and disable one observable of int/double (with both zeros and NaN)/string/shared_ptr/a type whose equality ignores part of the value; callbacks yield, sleep and sometimes throw (the very exception must reach the caller of that assignment); the history with its callbacks is linearised against a (value, enabled) register in which notifications appear in callback order; assign: up to 70000 assignments by one thread. Distinct non-trivial: histories with at least one overlapping pair of calls",
        require=["assign.notifications", "obs.overlapping_pairs", "obs.callbacks", "obs.silent_assignments", "obs.callback_throws"]),
    "C14": dict(
        jobs=[dict(bin="ht", build="tsan", mode="grid", quick=24000, thorough=300000),
              dict(bin="ht", build="tsan", mode="jitter", quick=12000, thorough=100000),
              dict(bin="ht", build="tsan", mode="forever", quick=4000, thorough=40000),
              dict(bin="scale", build="tsan", mode="ticks", quick=200, thorough=4000, chunk=4, hang_s=240)],
        rule="grid: intervals from 1 ns to 1 h, callbacks that are instantaneous, keep up, end exactly on a tick or overrun by up to 40 intervals or by days, in virtual time that moves only while somebody waits; every begin time and both counters (inside every callback and after stop) compared with the exact grid; jitter: clock granularity up to 5 us, late and spurious wake-ups, clock jumps, intervals shorter than a look at the clock takes: never early, distinct increasing ticks, counters consistent; forever: intervals whose first tick the clock cannot represent (or hardly): no callback, nothing counted, prompt stop and restart; ticks: up to 70000 ticks, and callbacks that overrun up to 70000 intervals. Distinct: duration plans / schedules",
        require=["ticks.callbacks", "grid.ticks_missed", "grid.ended_exactly_on_a_tick", "grid.instantaneous_callbacks", "jitter.callbacks", "jitter.intervals_too_short_for_the_clock", "forever.never_due", "forever.ordinary"]),
    "C15": dict(
        jobs=[dict(bin="ht", build="tsan", mode="ctl", quick=24000, thorough=200000),
              dict(bin="ht", build="dasan", mode="ctl", quick=12000, thorough=100000)],
        rule="random sequences of start/stop/restart/set_callback/destroy by one controlling thread while up to two others replace the callback (and callbacks replace themselves) and one reads the counters; virtual time spent in every start and stop, callbacks outside a run, which callback object each tick used and whether it was whole, and its destruction are judged from the event log; two builds (ThreadSanitizer, AddressSanitizer). Distinct: schedules",
        require=["ctl.callbacks", "ctl.prompt_stops", "ctl.stops_waiting_for_a_callback", "ctl.restarts", "ctl.replaced_by_itself", "ctl.starts_without_callback"]),
    "C16": dict(
        jobs=[dict(bin="rl", build="tsan", mode="exact", quick=18000, thorough=100000),
              dict(bin="rl", build="tsan", mode="jitter", quick=9000, thorough=50000),
              dict(bin="scale", build="tsan", mode="frames", quick=200, thorough=4000, chunk=4, hang_s=240)],
        rule="rates 1 .. 4e9 and powers of two, limiters created 1 s .. 1 year after boot, up to 3000 frames that are instantaneous, shorter, longer or exactly the period, with hiccups and suspensions of up to days, in a third of the runs with signal handlers interrupting the sleeps; every return of sync compared with the exact rational deadline in virtual time; frames: up to 6000000 frames. Distinct: (rate, frame durations)",
        require=["frames.frames", "exact.late_frames", "exact.frames_ahead", "jitter.frames", "exact.interrupted_sleeps", "jitter.interrupted_sleeps"]),
    "C17": dict(
        jobs=[dict(bin="sig", build="dasan", mode="ctl", quick=4000, thorough=100000),
              dict(bin="sig", build="asan", mode="proc", quick=1200, thorough=40000, unpinned=True),
              dict(bin="sig", build="asan", mode="burst", quick=1200, thorough=40000, unpinned=True)],
        rule="ctl: rounds of raise()/quit() against wait_for_quit() in the same or another thread under controlled schedules; proc: a forked process per plan with real asynchronous delivery (raise, kill of the own process, pthread_kill into the waiting thread or a bystander, before and during the wait, handlers installed once or twice, with and without callback); burst: 2-8 signals and quits one after the other or from as many threads at once, before or during a wait, the callback issuing another one now and then. Oracle: one callback per signal/quit with its name and number, run before the wait returns, no wait released early, none left hanging, process not killed. Distinct: event orders / plans",
        require=["ctl.callbacks", "ctl.waits", "proc.processes", "burst.processes"]),
    "C18": dict(
        jobs=[dict(bin="race", build="tsan", mode="all", quick=36000, thorough=400000),
              dict(bin="race", build="nat", mode="all", quick=2100, thorough=20000, unpinned=True),
              dict(bin="race", build="dasan", mode="all", quick=12000, thorough=100000)],
        rule="2-5 threads call the whole public interface of one component (blocking_queue, thread_pool, task_scheduler, event_dispatcher, observable, uuid_generator, high_precision_timer) including start, stop and status queries, from callers and from tasks, handlers and callbacks; ThreadSanitizer and UndefinedBehaviorSanitizer on controlled schedules and on real threads, AddressSanitizer on controlled schedules, deadlock and lock-order-inversion detection. Distinct: schedules",
        require=["all.%s_calls" % c for c in ("blocking_queue", "thread_pool", "task_scheduler", "event_dispatcher", "observable", "uuid_generator", "high_precision_timer")]),
    "C19": dict(
        jobs=[dict(bin="uuid", build="asan", mode="create", quick=1200, thorough=20000),
              dict(bin="uuid", build="asan", mode="entropy", quick=40, thorough=2000),
              dict(bin="uuid", build="tsan", mode="conc", quick=18000, thorough=200000)],
        rule="create: samples of 1024 uuids from the singleton and from copies of it, each checked for version, variant, validity, round trip and distinctness within the process, all bit columns and all pairs of bit columns compared; conc: 2-5 threads create under controlled schedules; entropy: the first uuid of processes whose random device (interposed) delivers sequences that differ in one bit of one of the first four words. Distinct: samples / schedules",
        require=["create.bit_pairs", "conc.created", "entropy.words_varied"]),
    "C20": dict(
        jobs=[dict(bin="uuid", build="asan", mode="text", quick=120000, thorough=2000000)],
        rule="20 generated texts per execution (valid ones with dashes anywhere, both cases and braces; wrong lengths, mismatched braces, foreign characters next to the hexadecimal ones, NUL and high bytes) compared with an independent parser, in heap blocks of exactly their size; 49 ordered pairs sharing prefixes compared with the order of their texts. Distinct: texts",
        require=["text.accepted", "text.rejected", "text.pairs_compared"]),
    "C21": dict(
        jobs=[dict(bin="arg", build="asan", mode="bind", quick=100000, thorough=2000000)],
        rule="random declarations (0-4 positionals, 0-6 options, 0-4 flags of 16 types, names that are prefixes of each other) and command lines generated together with their meaning (every spelling, repeated options, values with '=', dashes, commas, limits; sometimes one wrong token, a missing or extra argument, or help/version), a quarter of them under a global locale with other number punctuation; result and every variable compared. Distinct: command lines",
        require=["bind.values_compared", "bind.error", "bind.quit", "bind.runs_in_another_locale", "bind.programs_using_the_macro", "bind.arguments_asked_about_themselves"]),
    "C22": dict(
        jobs=[dict(bin="arg", build="asan", mode="junk", quick=150000, thorough=1000000),
              dict(bin="arg", build="asan", mode="bytes", quick=150000, thorough=2000000)],
        rule="junk: command lines with exactly one bad thing (junk option names, unconvertible or rejected values, throwing validators, bad environment values) must give error and leave no stray value; bytes: arbitrary bytes, numbers out of range, huge tokens, arbitrary environments, in exactly sized buffers under AddressSanitizer and UndefinedBehaviorSanitizer. Distinct: command lines",
        require=["junk.error", "junk.bad_environment_values", "bytes.error", "bytes.success"]),
    "C23": dict(
        jobs=[dict(bin="arg", build="asan", mode="env", quick=200000, thorough=1000000)],
        rule="declarations with environment variables, environments that set some of them and similarly named decoys, command lines that give some of the same arguments; result and every variable compared with command line > environment > default. Distinct: command lines",
        require=["env.options_from_environment", "env.flags_from_environment", "env.both_sources"]),
    "C24": dict(
        jobs=[dict(bin="dt24", build="asan", mode="cal", quick=1024, thorough=16384)],
        rule="every day of the years -32767..32767 (1024 chunks): components, weekday, ISO weekday, validity, order of neighbours, compared with a calendar that only knows the leap rule and month lengths; on a sixteenth of the days and on all month and year boundaries also timedelta arithmetic (nanosecond counts of every magnitude), differences, comparison with a far date, instants, non-existing days. Distinct: chunks (the day count is in 'observed')",
        require=["cal.days", "cal.additions", "cal.differences", "cal.days_from_instants"]),
    "C25": dict(
        jobs=[dict(bin="dt25", build="asan", mode="tod", quick=200000, thorough=2000000)],
        rule="20 times per execution built from 14 argument lists of positive, negative, boundary and many-day durations; value, components, relations, sums, differences and timedelta arithmetic compared with 128-bit integer arithmetic. Distinct: values",
        require=["tod.negative_times", "tod.wrapped"]),
    "C26": dict(
        jobs=[dict(bin="dt26", build="asan", mode="inst", quick=600000, thorough=2000000)],
        rule="10 instants per execution over the whole nanosecond range, at day boundaries, around the epoch and at the ends: decomposition, recomposition, component construction, arithmetic, relations, sentinels compared with 128-bit arithmetic and the counting calendar; the clock readers against a clock set by the harness; the process in one of eight time zones. Distinct: instants",
        require=["inst.from_components", "inst.before_1970", "inst.differences", "inst.clock_readings", "inst.runs_in_another_zone"]),
    "C27": dict(
        jobs=[dict(bin="dt27", build="asan", mode="delta", quick=300000, thorough=2000000)],
        rule="20 timedeltas per execution, nanosecond counts of every magnitude and at every unit boundary: totals, components, sums, differences, products, quotients compared with 128-bit arithmetic, division by zero. Distinct: values",
        require=["delta.negative_decomposed", "delta.products", "delta.quotients", "delta.divisions_by_zero"]),
    "C28": dict(
        jobs=[dict(bin="dt28", build="asan", mode="text", quick=40000, thorough=400000)],
        rule="dates, times, datetimes and timedeltas at every precision and in 15 formats rendered by an independent formatter and compared, read back, read with finer digits, in other formats, plus texts that denote no existing or no representable value (wrong fields, broken separators, cut texts, digit-free bytes, contradicting weekdays); in one of eight time zones, and on a quarter of the executions also under a global locale with other number punctuation. Distinct: timedelta texts",
        require=["text.date_texts", "text.dates_outside_nanosecond_range", "text.time_texts", "text.datetime_texts", "text.texts_before_1970", "text.unrepresentable_datetimes", "text.timedelta_texts", "text.rejected", "text.runs_in_another_zone", "text.runs_in_another_locale"]),
    "C29": dict(
        jobs=[dict(bin="geo29", build="asan", mode="rect", quick=80000, thorough=1000000)],
        rule="24 pairs of rectangles per execution over six coordinate types (tiny grids where every touching, nesting and sharing relation occurs, coordinates at the ends of the type, gaps it has no value for), null rectangles; all predicates, set operations in both orders, points on and around the sides, segments through, touching and missing, compared with exact integer geometry and on the grids with a count of unit cells. Distinct: rectangle pairs",
        require=["rect.overlapping", "rect.disjoint", "rect.cell_counts", "rect.nested", "rect.points_inside", "rect.segments_through", "rect.segments_missing", "rect.translations", "rect.null_rectangles", "rect.gaps_the_type_does_not_have"]),
    "C30": dict(
        jobs=[dict(bin="geo30", build="asan", mode="line", quick=200000, thorough=1000000)],
        rule="48 pairs of segments per execution over six coordinate types: crossing, touching at ends and inside, apart, parallel, collinear, degenerate, vertical, horizontal; five combinations of order and direction compared with exact rational intersection. Distinct: segment pairs",
        require=["line.crossing", "line.touching", "line.apart", "line.parallel", "line.points_compared"]),
    "C31": dict(
        jobs=[dict(bin="geo31", build="asan", mode="point", quick=150000, thorough=1000000)],
        rule="48 pairs of points per execution over six coordinate types and the whole range of each (small, huge, extreme values); every operation whose result is defined compared with the scalar arithmetic of the type, distances with an exact integer square root / long double; overflow on the way reported by UndefinedBehaviorSanitizer. Distinct: point pairs",
        require=["point.sums", "point.products", "point.quotients", "point.mixed_products", "point.distances", "point.distances_beyond_the_square"]),
    "C32": dict(
        jobs=[dict(bin="geo32", build="asan", mode="range", quick=150000, thorough=1000000)],
        rule="48 pairs of ranges per execution over six types (touching, nested, equal, empty, up to the ends of the type), 8 values on and around the bounds, and a sequence of 1-8 setter calls, compared with exact interval arithmetic. Distinct: range pairs",
        require=["range.overlapping", "range.apart", "range.at_minimum", "range.at_maximum", "range.setter_calls", "range.mapped", "range.lengths_the_type_does_not_have"]),
    "C33": dict(
        jobs=[dict(bin="geo33", build="asan", mode="math", quick=30000, thorough=100000)],
        rule="every order and tie pattern of two, three and four keys (objects that know which argument they were) in every execution, plus random int, unsigned, long, float, double and string arguments of every magnitude. Distinct: random argument lists",
        require=["math.order_patterns", "math.maxima", "math.minima"]),
    "C34": dict(
        jobs=[dict(bin="svc34", build="asan", mode="locator", quick=60000, thorough=600000),
              dict(bin="svc34", build="asan", mode="many", quick=1000, thorough=20000)],
        rule="5-40 random calls per execution over five interface/own types and six services (interface as first, second, virtual and diamond base, without virtual destructor, with move-only and throwing constructors, null instances, one object under three types); after every call registered types, live objects, virtual calls and arguments through every held pointer are compared with a map of shared objects; many: 200 types at once. Distinct: operation sequences",
        require=["many.types_compared", "locator.registrations", "locator.registered_again", "locator.calls_through_interface", "locator.null_gets", "locator.unregistered", "locator.same_named_types", "locator.throwing_constructors"]),
    "C35": dict(
        jobs=[dict(bin="svc35", build="asan", mode="stopwatch", quick=600000, thorough=2000000)],
        rule="up to four stopwatches on a monotonic clock set by the harness (1 ns .. years per step, from 0 to 4e18 ns, the wall clock jumping independently): elapsed in seven units, start_time, reset compared exactly. Distinct: sequences",
        require=["stopwatch.advances", "stopwatch.resets", "stopwatch.reads"]),
    "C36": dict(
        jobs=[dict(bin="svc36", build="asan", mode="task", quick=200000, thorough=1000000)],
        rule="4-30 random operations per execution: tasks from temporaries, moved, named and const objects, lambdas, std::function, functions and move-only callables (mutable, const, large, value-returning, throwing), moved, invoked, destroyed while originals change or go; every construction, destruction and call of the callables is recorded and judged (one call per invoke with the task's own state, exceptions, exactly the expected live objects), AddressSanitizer. Distinct: operation sequences",
        require=["task.calls", "task.throwing_calls", "task.from_named", "task.from_const", "task.moves", "task.move_only", "task.functions", "task.sized_and_aligned"]),
    "C37": dict(
        jobs=[dict(bin="arg", build="asan", mode="help", quick=100000, thorough=1000000)],
        rule="random declarations with names, descriptions and environment variables of every kind; what -h/--help, -v/--version, print_help(), a wrong, unconvertible, rejected or surplus argument and missing arguments print on standard output and standard error is parsed and compared with the declarations (white space apart). Distinct: declarations",
        require=["help.help_printed", "help.version_printed", "help.arguments_listed", "help.errors_named", "help.missing_named", "help.silent_successes"]),
    "C38": dict(
        jobs=[dict(bin="single", build="tsan", mode="first", quick=16000, thorough=200000, chunk=250)],
        rule="2-5 threads make the first (and later) uses of a singleton class that no execution before has used; its constructor yields, sleeps, uses another singleton and sometimes throws; every object returned must be the same one, completely constructed, built once, exceptions reaching the caller that ran the constructor; ThreadSanitizer. Distinct: schedules",
        require=["first.first_uses", "first.constructor_exceptions", "first.uses"]),
    "C39": dict(
        jobs=[dict(bin="own", build="dasan", mode=m, quick=q, thorough=q * 10) for m, q in (("pool", 12000), ("scheduler", 12000), ("dispatcher", 12000), ("queue", 8000), ("observable", 8000), ("timer", 8000))],
        rule="random operations on one component whose callables, arguments, handlers and items carry tokens counted by identity (with canaries and a heap block each); whenever nobody can run, and after stop (also with work still waiting for a thread) and destruction, the tokens alive are compared with what is still queued, scheduled, registered or held by a future, and the number of copies is bounded; AddressSanitizer and LeakSanitizer. Distinct: schedules",
        require=["%s.idle_states_compared" % m for m in ("pool", "scheduler", "dispatcher", "queue", "observable", "timer")] + ["pool.tasks_waiting_at_stop", "scheduler.tasks_waiting_at_stop", "dispatcher.deliveries_waiting_at_stop"]),
    "C40": dict(
        jobs=[dict(bin="idle", build="tsan", mode=m, quick=4000, thorough=60000) for m in ("pool", "queue", "scheduler", "dispatcher", "timer", "limiter", "quit", "stopping")],
        rule="each component is brought into a random state in which nothing is due (idle, empty, full, stopped, being stopped or destroyed or assigned to while a task or callback is in progress, waiting for a task far away, tasks that wait for one another), then 0.1 s to a day of virtual time pass: the schedule points (lock, wait, wake-up, clock read, atomic access) of all other threads in that time are counted and may be no more than a constant per thread plus a constant per due time. Distinct: schedules x schedule points used",
        require=["%s.idle_periods" % m for m in ("pool", "queue", "scheduler", "dispatcher", "timer", "limiter", "quit", "stopping")]),
    "C41": dict(
        jobs=[dict(bin="indep", build="tsan", mode=m, quick=q, thorough=q * 15) for m, q in (("pool", 3000), ("queue", 3000), ("scheduler", 4000), ("dispatcher", 3000), ("observable", 3000), ("timer", 3000), ("limiter", 3000), ("parser", 3000), ("values", 3000), ("mixed", 4000))],
        rule="a random script of operations is run against an instance that is alone and against two instances at once (same kind, same names and ids, or different kinds), each driven by its own thread under a random schedule in virtual time; every result and the exact time at which each callable ran must be the same for each instance in both settings; values: texts written and read, geometry and uuid operations on values of each thread's own and on constant ones in common; ThreadSanitizer. Distinct: sets of observations",
        require=["%s.pairs" % m for m in ("pool", "queue", "scheduler", "dispatcher", "observable", "timer", "limiter", "parser", "values", "mixed")] + ["values.values_written_and_read", "values.common_values_read"]),
    "C42": dict(
        jobs=[dict(bin="oom", build="dasan", mode=m, quick=q, thorough=q * 12) for m, q in (("queue", 8000), ("pool", 12000), ("scheduler", 12000), ("dispatcher", 12000), ("timer", 8000), ("observable", 8000), ("locator", 8000))],
        rule="random operations on one component, driven by one thread, during most of which one chosen allocation or copy of a user's object of that thread, or the creation of one thread, fails; every call must complete or throw, and results, state, threads alive, executions, deliveries and objects held are compared with a sequential model in which a failed call did nothing; deadlocks (a lock left locked, threads waiting for others that do not exist) are found by the scheduler; AddressSanitizer and LeakSanitizer. Distinct: sequences of operations and failures x schedules",
        require=["%s.calls_failed" % m for m in ("queue", "pool", "scheduler", "dispatcher", "timer", "observable", "locator")] + ["%s.copies_failed" % m for m in ("queue", "pool", "scheduler", "dispatcher", "timer", "locator")] + ["pool.thread_creations_failed", "scheduler.thread_creations_failed", "timer.thread_creations_failed", "dispatcher.thread_creations_failed"]),
    "C43": dict(
        jobs=[dict(bin="reent", build="tsan", mode=m, quick=q, thorough=q * 10) for m, q in (("pool", 12000), ("burst", 600), ("sched", 12000), ("disp", 12000), ("timer", 8000), ("chain", 6000), ("wiring", 4000))],
        rule="tasks that submit tasks and query their pool; scheduled tasks that schedule themselves again under their own name, schedule others, remove, disable, replace or re-time themselves; handlers that emit, add and remove handlers (themselves too) and events; timer callbacks that replace themselves; services that register services; and all components chained (timer and scheduler -> pool -> dispatcher -> observable -> observable -> queue). Every call's result and every later execution is compared with a model in which it makes no difference who called, also while stop() is going on; deadlocks are found by the scheduler. Distinct: distinct schedules",
        require=["pool.tasks_submitted_by_tasks", "burst.bursts", "pool.stops_while_tasks_submit", "sched.tasks_scheduling_themselves", "sched.tasks_scheduled_by_tasks", "sched.tasks_removing_themselves", "sched.tasks_updating_themselves", "sched.tasks_disabling_themselves", "sched.tasks_replacing_themselves", "sched.stops_while_tasks_schedule", "disp.emissions_by_handlers", "disp.handlers_added_by_handlers", "disp.handlers_removing_themselves", "disp.events_removed_by_handlers", "timer.callbacks_replacing_themselves", "chain.values_through_the_chain", "wiring.services_registering_services"]),
    "C44": dict(
        jobs=[dict(bin="grow", build="dasan", mode=m, quick=q, thorough=q * 15) for m, q in (("pool", 600), ("scheduler", 600), ("dispatcher", 600), ("timer", 600), ("queue", 300), ("observable", 600), ("plain", 600))],
        rule="a random cycle of calls on one component that ends in the state it began in (everything submitted, scheduled, registered, emitted, pushed or set is over, removed, taken or replaced; fresh names every time; with restarts, or with a new instance every cycle, and beside standing tasks and handlers that go on working) is repeated 60-900 times on the controlled scheduler; memory allocated by operator new, threads and open files at the end of the first cycles and of the last ones are compared: more than 16 blocks or 1536 bytes more, one thread or one file is a violation; all components, the signal handlers, the parser and the date texts included; AddressSanitizer and LeakSanitizer. Distinct: schedules",
        require=["%s.repetitions_compared" % m for m in ("pool", "scheduler", "dispatcher", "timer", "queue", "observable", "plain")]),
    "C45": dict(
        jobs=[dict(bin="state", build="dasan", mode=m, quick=q, thorough=q * 15) for m, q in (("text", 8000), ("parser", 16000), ("values", 6000), ("components", 8000), ("signals", 3000))],
        rule="a snapshot of what belongs to the program (environment, C and C++ locale, working directory, umask, rand() sequence, floating point modes, every signal's disposition, signal mask, terminate and new handlers, resource limits, interval timers, name, affinity, priority, locale, signal stack and timer slack of the calling thread, users, groups and session of the process, drand48() sequence, open files, and the flags, fill, precision, width, exceptions, tie, buffer, state and locale of std::cin, cout, cerr and clog) is compared before and after calls of a program that has set all of these to its own liking: dates, times and chrono values written to streams of any settings (the stream's settings and the text that arrived are compared too), parsers on sound and broken command lines (argv compared too), value types, text conversions, uuids, geometry, services; life cycles of all components on the controlled scheduler, after every call and inside every callback (there without what belongs to the thread), with open files and threads at the end; signal handlers, which may change three dispositions and nothing else. Distinct: seeds/schedules",
        require=["text.texts_written", "parser.parsed", "parser.refused", "parser.helped", "parser.validators_called", "components.callbacks", "values.calls", "values.exceptions"] + ["components." + c for c in ("thread_pool", "task_scheduler", "event_dispatcher", "high_precision_timer", "blocking_queue", "observable")] + ["signals.signals"]),
}
