"""Per-property configuration of the checks."""

ASSUMPTIONS = [
    "g++ 13 -O1 code generation of the sources in /repo is the implementation; yamc interposes every atomic access, lock, "
    "condition variable, thread, sleep and clock operation of that code and decides their order",
    "interleavings are sequentially consistent; weaker C++ orderings are covered through the happens-before race detector, "
    "which honours the memory_order arguments actually compiled, and, in the tests counted in tests_exhausted_with_stale_loads, by "
    "additionally letting every thread read up to that many overwritten stores wherever happens-before and coherence allow it",
    "partial-order reduction (source sets + sleep sets) is sound for the dependence relation in mc/rt.cpp",
]


def real(*harness, **kw):
    return dict(dict(name="real", config="real", harness=list(harness)), **kw)


def nosym(*harness, **kw):
    return dict(dict(name="nosym", config="nosym", harness=list(harness)), **kw)


def pipe(prop, *flags):
    """The pipeline enumerator (one executable built from 14 translation units)."""
    fl = list(flags)
    return ([("pipe.cpp", [f"-DPROP={prop}"] + fl)] + [("pipe_step.cpp", [f"-DPIPE_H={i}"] + fl) for i in range(1, 11)] +
            [("pipe_head.cpp", [f"-DPIPE_HEAD={i}"] + fl) for i in range(3)])


MASK_MEM = "-DMC_MASK=(mc::V_LEAK|mc::V_FREE|mc::V_UAF|mc::V_CRASH)"
MASK_RACE = "-DMC_MASK=(mc::V_RACE|mc::V_FREE|mc::V_UAF|mc::V_CRASH)"


def masked(mask, *names, **kw):
    """The concurrency harnesses again, one executable each, judged by another oracle."""
    out = []
    for n in names:
        parts = n.split()
        out.append(dict(name=n.replace(" -DONLY_", "-").replace(" -D", "-").lower(), config="real", harness=[(parts[0] + ".cpp", parts[1:] + [mask])], **kw))
    return out


CONC = ["c01", "c05", "c06", "c07", "c08", "c09 -DONLY_ALL", "c09 -DONLY_ANY", "c11", "c13", "c14", "c15", "c16"]
CONC_LITE = ["c01", "c05", "c06", "c07", "c08", "c09 -DONLY_ALL", "c09 -DONLY_ANY", "c11", "c13 -DLITE", "c16"]

PIPE = ("every pipeline built by the enumerator: 12 heads (Make*, contracts, Run/Schedule forms, lazy contracts, coroutines), then up to {d} "
        "steps over every handle type (Future/FutureOn/SharedFuture/SharedFutureOn/Task and their conversions), attachment point (inline, "
        "inherited executor, explicit executor), callback parameter (value, Result, error, exception), return shape (value, void, Result, "
        "throwing, error, Future/FutureOn/SharedFuture/Task of every outcome, ready or completed later), and every way to consume the last "
        "handle, compared step by step with the sequential reading; ")

PROPS = {
    "C01": dict(
        variants=lambda th: [real("c01.cpp")],
        bounds="1 producer x 1 consumer thread (+ up to 2 executor threads), every producer kind x consumer kind, unbounded "
               "interleavings at every atomic/lock operation, at most one spurious weak-CAS failure per thread",
        weak=1, weak_thorough=2,
    ),
    "C02": dict(
        variants=lambda th: [real(*pipe(2)), dict(real("pipe_param.cpp"), name="param"), dict(real(*pipe(2, "-DPIPE_STOP")), name="stop")][:3 if th else 2],
        bounds=PIPE.format(d="2 (3 in the thorough tier)") + "parameter, functor and value type variants (63 programs); error type StopError "
               "as well as a user error type in the thorough tier",
        quick_test_s=45, quick_s=500, thorough_test_s=600, thorough_s=7200,
    ),
    "C03": dict(
        variants=lambda th: [real(*pipe(3))] + masked(
            MASK_MEM, *(CONC if th else CONC_LITE), skip=r"^event|3x1|twins|pool2/.*(2x1|nested)|strand\^3|x2$|2x2$|ThenSharedAsync|Await2"),
        bounds=PIPE.format(d="2 (3 in the thorough tier)") + "every allocation, construction and destruction of values, errors and functors "
               "is counted; refusing executors and dropped handles included",
        quick_test_s=45, quick_s=500, thorough_test_s=600, thorough_s=7200,
    ),
    "C04": dict(
        variants=lambda th: masked(MASK_RACE, *CONC),
        bounds="all the concurrent programs of the other checks (promise/future, executors, SharedFuture, strands, thread pools, WhenAll/WhenAny/"
               "Join, waits, coroutines, Mutex, SharedMutex, WaitGroup/OneShotEvent), judged by the happens-before race detector (honouring "
               "the memory_order of every atomic operation) and the lifetime checker instead of their functional oracles; unbounded interleavings",
        quick_test_s=3, quick_s=450, thorough_test_s=60, thorough_s=7200,
        weak_thorough=1,
    ),
    "C05": dict(
        variants=lambda th: [real(*pipe(5)), dict(real("c05.cpp"), name="conc"), dict(real("fan.cpp"), name="fan")],
        bounds=PIPE.format(d="2 (3 in the thorough tier)") + "queueing executors drained at every point and executors refusing from the k-th "
               "submission for every k; the library's own MakeInline, stopped inline and Strand executors as well; "
               "plus jobs and chains on the real executors (inline, stopped inline, manual, 1/2-thread pools, strands, "
               "strand over strand) submitted by 1-2 threads and racing Stop/SoftStop/HardStop; "
               "up to 3 continuations (15 kinds) on one SharedFutureOn (4 origins), refusals included; unbounded interleavings",
        quick_test_s=45, quick_s=500, thorough_test_s=600, thorough_s=7200,
        weak=1, weak_thorough=2,
    ),
    "C12": dict(
        variants=lambda th: [real(*pipe(12))],
        bounds=PIPE.format(d="2 (3 in the thorough tier)") + "lazy heads; every way to start, cancel, drop or never start",
        quick_test_s=45, quick_s=500, thorough_test_s=600, thorough_s=7200,
    ),
    "C20": dict(
        variants=lambda th: [real(*pipe(20, "-DPIPE_PLAIN")), dict(real("c20.cpp"), name="rest")],
        bounds=PIPE.format(d="2 (3 in the thorough tier)") + "every heap allocation counted: at most one per step.  WhenAll/WhenAny/Join x "
               "fail policy x {(it,n), (begin,end), variadic} over n = 1, 2, 3, 8, 16 (64, 150 in iterator form) inputs x completion order x "
               "failures x already ready inputs: bounded and not growing; 17 ways to wait for 1-3 futures with a concurrent completing thread "
               "and Strand submission from 1-2 threads: zero, over all interleavings",
        quick_test_s=45, quick_s=500, thorough_test_s=600, thorough_s=7200,
    ),
    "C06": dict(
        variants=lambda th: [real("c06.cpp"), dict(real("fan.cpp"), name="fan")],
        bounds="1 fulfilling thread (value, error, exception, dropped promise) x 1 or 2 observer threads (3 in the thorough tier; 2 operations "
               "per thread) over 26 kinds of observation, on own copies, on copies with one kept by the owner, and on one shared object; "
               "6 ways to obtain the shared state; observers attached through the SharedPromise; up to 3 continuations (15 kinds) on one SharedFutureOn (4 origins) attached before and "
               "after fulfilment, by one or two threads; unbounded interleavings",
        quick_test_s=4, quick_s=400, thorough_test_s=60, thorough_s=5400,
        weak=1, weak_thorough=2,
    ),
    "C07": dict(
        variants=lambda th: [real("c07.cpp")],
        bounds="up to 3 submitting threads x up to 3 jobs over a strand, strand over strand and two strands sharing a pool; base executors "
               "inline, spawn-per-job (most permissive pool) and 1- or 2-thread pools, accepting everything or rejecting from the k-th "
               "submission for every k; unbounded interleavings",
        quick_test_s=4, quick_s=300, thorough_test_s=120, thorough_s=5400,
        weak=1, weak_thorough=2,
    ),
    "C08": dict(
        variants=lambda th: [real("c08.cpp")],
        bounds="the real FairThreadPool with 1-2 workers, up to 2 submitting threads x up to 3 jobs racing Stop/SoftStop/HardStop/Wait "
               "from another thread, jobs that submit jobs; unbounded interleavings of every lock/condvar/thread operation",
        quick_test_s=4, quick_s=300, thorough_test_s=120, thorough_s=5400,
        weak=1, weak_thorough=2,
    ),
    "C09": dict(
        variants=lambda th: [real(("c09.cpp", ["-DONLY_ALL"])), dict(real(("c09w.cpp", ["-DONLY_ALL"])), name="wide")],
        bounds="WhenAll (vector and tuple output) and Join x {FirstFail, None} x {static, iterator} x {unique, shared, mixed} inputs, n=1..3 "
               "(and 0), every outcome pattern over {value, error, exception, dropped}, every number of already completed inputs, completion "
               "in every order by one thread or concurrently by one thread per input, output consumed by Get, continuation or dropped; "
               "unbounded interleavings.  Wide (one completing thread, output checked after every completion): 17 static mixtures of 3-5 inputs of "
               "types int, Box, bool and void behind Future/FutureOn/SharedFuture, iterator form of up to 5 inputs, up to 5 inputs over 1-3 "
               "shared states, all outcomes x orders x already completed prefixes; 6-100 inputs in structured orders",
        quick_test_s=4, quick_s=400, thorough_test_s=60, thorough_s=5400,
        weak=1, weak_thorough=2,
    ),
    "C10": dict(
        variants=lambda th: [real(("c09.cpp", ["-DONLY_ANY"])), dict(real(("c09w.cpp", ["-DONLY_ANY"])), name="wide")],
        bounds="WhenAny x {LastFail, FirstFail, None} x {static, iterator} x {unique, shared, mixed} inputs, n=1..3 (and 0), every outcome "
               "pattern, every number of already completed inputs, completion in every order by one thread or concurrently by one thread "
               "per input, output consumed by Get, continuation or dropped; unbounded interleavings.  Wide (one completing thread, output checked after every completion): 17 static mixtures of 3-5 inputs of "
               "types int, Box, bool and void behind Future/FutureOn/SharedFuture, iterator form of up to 5 inputs, up to 5 inputs over 1-3 "
               "shared states, all outcomes x orders x already completed prefixes; 6-100 inputs in structured orders",
        quick_test_s=4, quick_s=400, thorough_test_s=60, thorough_s=5400,
        weak=1, weak_thorough=2,
    ),
    "C11": dict(
        variants=lambda th: [real("c11.cpp")],
        bounds="Wait/WaitFor/WaitUntil over 1-3 unique or shared futures (4 in the thorough tier), variadic and iterator forms, one completing "
               "thread per future or one for all, virtual time: the timeout may fire at any point; follow-up Wait, Get or continuation; "
               "unbounded interleavings",
        quick_test_s=4, quick_s=300, thorough_test_s=60, thorough_s=5400,
        weak=1, weak_thorough=2,
    ),
    "C13": dict(
        variants=lambda th: [real("c13.cpp"), nosym("c13.cpp" if th else ("c13.cpp", ["-DLITE"]))],
        bounds="coroutines returning Future, Task and SharedFuture interpreting programs of 1-3 awaits over 43 forms (co_await of Future/FutureOn/"
               "SharedFuture/Task, Await/AwaitInline/AwaitSticky/AwaitOn of 1-3 unique/shared/mixed inputs in variadic, (it,n), (it,end) form, "
               "On, kYield, Yield(), CurrentExecutor) x outcome x already complete / completing concurrently x executor (inline, run-here, "
               "thread-per-job) x rejection from the k-th submission x 8 ways to consume the coroutine; several coroutines on one "
               "SharedFuture; with and without symmetric transfer; unbounded interleavings",
        quick_test_s=3, quick_s=300, thorough_test_s=60, thorough_s=7200,
        weak_thorough=1,
    ),
    "C16": dict(
        variants=lambda th: [real("c16.cpp")],
        bounds="WaitGroup: 1-2 count-down operations (10 kinds: Done, Add+Done, Attach/Consume of unique futures in every form, ready or not) on "
               "1-2 threads x 1-2 waiters (9 kinds), late waiters, Reset, destruction by the released waiter; OneShotEvent: Set x up to 3 "
               "actors of {TryAdd, Ready, every waiter kind}; virtual time; unbounded interleavings",
        quick_test_s=4, quick_s=300, thorough_test_s=60, thorough_s=5400,
        weak=1, weak_thorough=2,
    ),
    "C14": dict(
        variants=lambda th: [real("c14.cpp")],
        bounds="Mutex<Batching,FIFO> in all 4 combinations; every pair of the 24 acquire-release kinds (Lock/TryLock/Guard/TryGuard/GuardSticky/"
               "deferred/adopted x Unlock/UnlockOn/UnlockHere/destructor) on 2 threads, free or initially held; 3 actors and 2 actors x 2 "
               "operations over 6 kinds; queued actors with arrival order tracked in real time (FIFO); coroutine executors inline, "
               "run-here, thread-per-job and a single-thread pool; unbounded interleavings, at most one spurious weak-CAS failure",
        quick_test_s=3, quick_s=400, thorough_test_s=60, thorough_s=7200,
        weak_thorough=1,
    ),
    "C15": dict(
        variants=lambda th: [real("c15.cpp")],
        bounds="SharedMutex<FIFO,ReadersFIFO> in all 4 combinations; every pair of 22 acquire-release kinds on 2 threads, free or initially "
               "held (W, R, RR); 3 actors on 3 or 2 threads, 2 operations per actor, queued actors (4 actors and more in the thorough "
               "tier); every sequence of up to 7 (10) lock/try/release steps against a reference; single-thread pool; unbounded interleavings",
        quick_test_s=3, quick_s=400, thorough_test_s=60, thorough_s=7200,
        weak_thorough=1,
    ),
    "C19": dict(
        variants=lambda th: [dict(name=c, config=c, instrument=False, harness=[("c19.cpp", [f"-DPART={i}", "-O2", "-D_GLIBCXX_ASSERTIONS"])
                                                                                for i in range(4)]) for c in ("fiber", "thread")],
        technique="bounded exhaustive enumeration of operation sequences executed on the real types, compared step by step with std::atomic",
        bounds="both fault-injection backends x 20 types (bool, char types, every signed and unsigned width, enum, object and void pointers, float, "
               "double) x plain and volatile x 37 operation forms: every operation x operand x memory order from every state of an 8-bit type "
               "and from 19 boundary states of wider ones; every operation sequence of length 3 (4 in the thorough tier) over boundary "
               "operands, each weak compare_exchange with and without an injected failure, compared step by step with std::atomic; "
               "atomic_flag sequences up to length 5; default construction",
        assumptions=["operations are executed natively (uninstrumented -O2 build), inside one fiber / thread; the enumeration is exhaustive "
                     "within the stated alphabet and length, nothing is sampled"],
        quick_test_s=30, quick_s=300, thorough_test_s=600, thorough_s=5400,
    ),
    "C17": dict(
        variants=lambda th: [dict(name="fiber", config="fiber", instrument=False, native=True, defs=["-DYACLIB_VERIF"], harness=["c17.cpp"])],
        technique="bounded exhaustive enumeration of (program, seed, configuration, restore point), each executed on the real backend and "
                  "compared event by event with its reruns (same process, new process, restored from the recorded state)",
        bounds="FIBER backend: every program of 2 fibers x 2 operations and 3 fibers x 1 operation over 15 operations (atomics, every mutex kind, "
               "condition variables, sleeps, clocks, random_device, threads) and 10 library programs (pools, strands, timed waits, combinators, "
               "coroutines, contracts, lazy, stops, thread-locals) x seeds 1..40 x fault frequencies {1,2,5,16} x pick widths {1,2,10} x "
               "weak-CAS failure, tick and sleep settings; each case is compared with 2 reruns in the process (after another program, with a "
               "used scheduler, on another OS thread), with restoring the recorded pair at every recorded event (every n-th in long runs), "
               "with its later phases run alone, and with new processes; heap addresses, heap contents, clocks and stack position differ "
               "between the compared runs",
        assumptions=["the compared executions are native runs of the real backend with its own seeded engine; the space of (program, seed, "
                     "configuration, restore point) is enumerated, and the environment of a run (addresses, heap contents, clocks) is varied "
                     "over fixed patterns rather than exhaustively",
                     "while a library program runs, freed blocks are not handed out again: whether a pointer compare-exchange meets a recycled "
                     "address is a choice of the allocator, not of the fault injection"],
        quick_test_s=60, quick_s=300, thorough_test_s=600, thorough_s=5400,
    ),
    "C18": dict(
        variants=lambda th: [dict(name="fiber", config="fiber", instrument=False, defs=["-DYACLIB_VERIF"], harness=["c18.cpp"])],
        technique="explicit-state stateless model checking of the compiled backend: every scheduler choice (run queue pick, wait queue pick, "
                  "injected yield, random sleep) of bounded programs enumerated through the YACLIB_VERIF hooks",
        bounds="FIBER backend; mutex, timed_mutex, recursive_mutex, recursive_timed_mutex, shared_mutex, shared_timed_mutex: 2 fibers x 1-2 "
               "and 3 fibers x 1 sections (4x1, 3x2, 2x3 in the thorough tier) over every acquisition form (lock, try, for, until, shared "
               "forms), recursion, fibers that end holding the lock, tick lengths 0/1/5/10/25 ns, random extra sleep, raw pick positions, up "
               "to 2 (3) injected yields; condition_variable: 1-3 waiters (7 forms) x 1-2 notifiers (7 forms); threads: 1-3 joined / "
               "detached / moved; thread-local pointers of 2-3 fibers; run-queue list operations; every scheduler choice enumerated",
        assumptions=["fibers switch only at the scheduler's suspension points (that is the backend's design), so an execution is determined by the "
                     "enumerated choices; the explorer decides them through the YACLIB_VERIF hooks in place of the seeded engine"],
        quick_test_s=30, quick_s=300, thorough_test_s=200, thorough_s=7200,
    ),
}

HOOK_COMMITS = ["7b491089cbadadae16b575dc9a85997a240d6b61"]
NOT_APPLICABLE = {}
