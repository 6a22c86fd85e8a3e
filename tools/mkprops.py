#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
TP = ["include/gul14/ThreadPool.h", "src/ThreadPool.cc"]
TR = ["include/gul14/Trigger.h", "src/Trigger.cc"]
def p(id, title, st, over, text, why, files, mech, obs, state=()):
    P.append(dict(id=id, title=title, statement=st,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=obs, hook_needed=None)))

p("C01", "An accepted task runs exactly once",
  "Every task whose submission to a thread pool returned a handle is executed exactly once, unless it is cancelled while still waiting or the pool is destroyed before it starts, in which case it is not executed at all. A submission that throws never executes its task. Each submitted function object is destroyed exactly once.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of any number of submitting, cancelling and worker threads, spurious wake-ups, stalls and clock jumps.",
  "The tests run a handful of tasks on lightly loaded pools under whatever interleaving the OS happens to pick; a double dequeue or a dropped task needs a specific interleaving.",
  TP, [("queue guarded by one mutex; dequeue moves the task out before unlocking", "ThreadPool::perform_work, ThreadPool::add_task")],
  ["executions of the task body", "handles returned by add_task()"],
  [("pending_tasks_", "tasks not yet started", "include/gul14/ThreadPool.h")])

p("C02", "Tasks start in the order they were added",
  "Among tasks whose start time has been reached, a thread pool starts tasks in the order in which they were added: a task is never started while an earlier-added task that is also due is still waiting. With a single thread the pool is a serial queue, so due tasks never overlap and run strictly in order.",
  ["schedules", "histories", "configurations"],
  "All interleavings, thread counts, mixes of delayed and immediate tasks and cancellations in the middle of the queue.",
  "Tests check one order on a one-thread pool; reordering that depends on mixed start times, cancellations or several workers is not sampled.",
  TP, [("first due task in insertion order is taken", "ThreadPool::perform_work")],
  ["order of task starts", "waiting-task list seen after a later task started"])

p("C03", "A task never starts before its start time",
  "A task submitted with a start time or a delay is never started before the system clock has reached that time point (for a delay: submission time plus delay). This holds whatever other tasks are added, cancelled or run meanwhile, and despite spurious wake-ups and wall-clock jumps.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings, mixes of start times, early wake-ups and clock adjustments in both directions.",
  "Tests use one or two delays on a real clock, and no test makes the clock jump or the condition variable wake spuriously.",
  TP, [("due test against system clock on every wake-up", "ThreadPool::perform_work"), ("delay to time point conversion", "ThreadPool::add_task overloads")],
  ["simulated system clock at task start"])

p("C04", "A due task starts while a worker is idle; workers run in parallel",
  "Whenever a task is due and at least one worker thread is idle, the task is started without waiting for any other task to finish or become due, so that a pool of N threads runs up to N tasks at the same time, and never more than N. No wake-up is ever lost: once no new work or disturbances arrive, all due tasks get done.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of submissions, cancellations and worker sleeps, with several immediate and delayed tasks outstanding.",
  "A lost or misdirected wake-up needs a submission or expiry inside a window of a few instructions; tests cannot place it there.",
  TP, [("condition variable notifications and timed waits", "ThreadPool::add_task, ThreadPool::perform_work")],
  ["task starts at quiescence", "number of tasks inside their bodies"])

p("C05", "Queue capacity is enforced exactly",
  "A submission is rejected with std::runtime_error if and only if as many tasks as the capacity are waiting at that moment; a rejected submission changes nothing. The number of waiting tasks never exceeds the capacity, and the fullness query and waiting-task count agree with it at every instant, under any concurrent use. A pool whose capacity or number of threads is zero or above the documented maximum cannot be created. Submitting never waits for room in the queue or for a task to run.",
  ["schedules", "histories", "configurations"],
  "All interleavings of submitters, workers, cancellers and observers for all capacities.",
  "The test fills one queue from one thread; check-then-act windows between several submitters are never hit.",
  TP, [("capacity check and insertion in one critical section", "ThreadPool::add_task")],
  ["return or exception of add_task()", "count_pending()", "is_full()"])

p("C06", "Results and exceptions reach the handle unchanged",
  "Asking a handle for its result blocks until the task has finished and then yields exactly the value the task returned, or rethrows exactly the exception it threw, with all of the task's side effects visible to the caller. A task that throws never harms its worker thread, the pool or any other task.",
  ["schedules", "inputs", "histories"],
  "All interleavings of the waiting and the executing thread, result types (void, value, move-only) and thrown exception types.",
  "Tests retrieve a few results after the task is done; the blocking, racing and visibility cases are left to chance.",
  TP, [("packaged task / future shared state", "ThreadPool::add_task, TaskHandle::get_result")],
  ["TaskHandle::get_result()"])

p("C07", "Status queries are truthful at every instant",
  "The task states, completion flags, idle flag, waiting count and lists of waiting and running task names reported by pool and handles always correspond to some single consistent state of the pool between call and return. A task is pending until started, running until its body ends, then complete for ever (also after its result was fetched), or cancelled for ever if it was removed before starting; a cancelled task is never reported complete. Queries never wait for a task to run or end.",
  ["schedules", "histories"],
  "All interleavings of observers with submissions, starts, completions and cancellations.",
  "Tests poll states at coarse times; torn or stale answers exist only inside short windows.",
  TP, [("queries under the pool mutex", "ThreadPool::get_task_state, is_idle, get_running_task_names, ..."), ("handle state from pool state plus future", "TaskHandle::get_state, is_complete")],
  ["return values of all query functions"],
  [("running_task_ids_, running_task_names_", "tasks being executed", "include/gul14/ThreadPool.h")])

p("C08", "Cancellation removes waiting tasks only, exactly and atomically",
  "Cancelling through a handle returns true exactly if the task was still waiting; then it never starts and asking for its result throws std::logic_error. Otherwise it returns false and changes nothing: a task already running or finished still delivers its result through the same handle. Cancelling everything removes all tasks waiting at one instant and returns exactly their number. Cancelling never waits for a task to run or end.",
  ["schedules", "histories"],
  "All interleavings of cancellations with starts, completions, submissions and each other.",
  "Tests cancel tasks that are certainly waiting or certainly running; the race between a starting worker and the canceller is not reached.",
  TP, [("erase under the pool mutex", "ThreadPool::cancel_pending_task(s)"), ("handle bookkeeping", "TaskHandle::cancel")],
  ["return values of cancel calls", "task starts", "results"])

p("C09", "Destroying a pool finishes running tasks, cancels the rest, and ends",
  "Destruction of a thread pool blocks until every task that had started has run to completion, starts no waiting task once the shutdown request is visible, and then returns promptly with no worker left: no task starts or is still executing after the destructor returned. It never deadlocks or crashes, whatever the workers are doing when it is called.",
  ["schedules", "crash_points", "configurations"],
  "Destruction at every point of every schedule: workers starting, idle, in a timed wait, running or finishing tasks, with full or empty queues.",
  "Tests destroy pools at two or three convenient moments.",
  TP, [("shutdown flag, broadcast and join", "ThreadPool::~ThreadPool, perform_work")],
  ["destructor return", "task starts and ends", "is_shutdown_requested()"],
  [("shutdown_requested_", "workers must stop", "include/gul14/ThreadPool.h")])

p("C10", "Handles stay safe when the pool goes away",
  "A handle may outlive its pool and may be used while the pool is being destroyed: calls that need the pool throw std::logic_error once it is gone, results and exceptions of finished tasks can still be fetched, and a task discarded by the destruction counts as cancelled (never complete) and its result request throws std::logic_error instead of blocking for ever. No such call crashes, hangs or touches freed memory.",
  ["schedules", "histories"],
  "All interleavings of handle calls with the release of the last owner of the pool.",
  "One test touches a handle after destruction; none races a handle call against destruction.",
  TP, [("weak reference to the pool", "TaskHandle, detail::lock_pool_or_throw")],
  ["all TaskHandle members"])

p("C11", "The thread pool and trigger are free of data races",
  "All public member functions of the thread pool may be called concurrently from any threads, including from within tasks, and so may all those of the trigger, without any data race or any access to freed memory. Everything a thread did before submitting a task is visible to the task.",
  ["schedules", "histories"],
  "All pairs of public calls in all interleavings.",
  "The test suite runs without a race detector and mostly from a single controlling thread.",
  TP + TR, [("every shared member accessed under one mutex", "ThreadPool, Trigger")],
  ["happens-before over every memory access of library code"])

p("C12", "Tasks may use their own pool",
  "A task, and the destructor of a submitted function object, may itself call any non-destroying operation of the pool that runs it, such as submitting, cancelling or querying, and keeps every guarantee doing so. This never deadlocks, and no task body or function-object destructor is ever run while the pool prevents other threads from using it, even if a submission fails.",
  ["schedules", "programs", "fault_sequences"],
  "All nestings of pool calls in task bodies and function-object destructors, in all interleavings, with failing memory allocations in submissions.",
  "Tests add tasks from tasks once; destructors of function objects that call back are never tried.",
  TP, [("lock released around user code", "ThreadPool::perform_work, cancel_pending_task(s), add_task")],
  ["completion of re-entrant calls"])

p("C13", "The pool survives running out of memory or threads",
  "If a worker thread cannot be created, or memory runs out while a pool is constructed, a task is submitted or a query is answered, the call throws and has no other effect: construction leaves no thread behind and releases everything, and a failed submission leaves queue and handles as they were. The process is never terminated, accepted tasks are never lost, and the pool keeps working once the shortage is over.",
  ["fault_sequences", "schedules", "crash_points"],
  "A failure at every single allocation and thread creation, alone or repeated, in every interleaving.",
  "No test injects any failure.",
  TP, [("construction and add_task() exception paths", "ThreadPool::ThreadPool, add_task, perform_work")],
  ["exceptions", "live allocations and threads afterwards", "later use of the pool"])

p("C14", "Workers keep process signals blocked in every task",
  "While any task is executed by a pool, its thread has the signals SIGALRM, SIGINT, SIGPIPE, SIGTERM, SIGURG, SIGUSR1 and SIGUSR2 blocked, whatever the signal mask of the thread that created the pool, from the first to the last task of every worker. The masks of all other threads are left alone.",
  ["schedules", "configurations"],
  "All creating-thread masks, all workers, all tasks including the first one picked up right at thread start.",
  "The test suite looks at no signal masks.",
  TP, [("pthread_sigmask at worker start", "ThreadPool::perform_work")],
  ["thread signal mask inside task bodies and in callers"])

p("C15", "A trigger behaves like an atomic level signal",
  "Setting, resetting, assigning and reading a trigger from any number of threads behaves like one atomic boolean. A wait returns (and a timed wait returns true) only if the trigger was high at some instant during the call or was being destroyed, never merely because of a spurious or stale wake-up; a timed wait returns false only if the trigger was low at its end.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of setters, resetters, readers and waiters, with spurious wake-ups.",
  "Tests use two threads and real sleeps.",
  TR, [("flag and predicate waits under one mutex", "Trigger")],
  ["return values of reads and waits"])

p("C16", "A trigger that goes high releases every waiter",
  "When a trigger is set and stays high, every thread waiting on it, with or without timeout, and every thread that starts waiting later, resumes without further help. No wake-up is lost in any interleaving of waiting and setting, and all set operations are equivalent in this.",
  ["schedules", "histories"],
  "All interleavings of any number of waiters entering and setters firing.",
  "A lost wake-up needs the set to fall between a waiter's test and its sleep.",
  TR, [("flag set under mutex, then notify_all", "Trigger::trigger")],
  ["return of wait calls at quiescence"])

p("C17", "Timed trigger waits end on time, never early",
  "A timed wait on a trigger that stays low does not return before its whole time span has elapsed on a steady clock, or before its time point is reached on the clock it was given, in spite of spurious wake-ups and wall-clock jumps. It does return (false) once that time has come, and waits that are released by the trigger return true.",
  ["schedules", "inputs", "fault_sequences"],
  "All duration types and values, time points on both clocks, past and future, and clock adjustments during the wait.",
  "Tests use two or three durations on a real clock that never jumps.",
  TR, [("predicate overloads of wait_for / wait_until", "Trigger::wait_for, Trigger::wait_until")],
  ["simulated clocks at return of the wait"])

p("C18", "Destroying a trigger releases its waiters safely",
  "Destroying a trigger while threads are waiting on it makes all of them resume, and none of them touches the trigger after it has ceased to exist. Destruction and waits do not race with each other.",
  ["schedules", "crash_points"],
  "All interleavings of the destructor with waiters at any stage of entering or leaving a wait that began before destruction.",
  "No test destroys a trigger that is being waited on.",
  TR, [("final trigger signal in the destructor", "Trigger::~Trigger")],
  ["return of waits", "memory accesses after the end of the destructor"])

p("C19", "Sleeping lasts at least as long as asked and can be interrupted",
  "A sleep lasts at least the requested time on a steady clock, despite interrupted system calls, spurious wake-ups and wall-clock jumps, and then reports true. A sleep that watches a trigger ends as soon as the trigger goes high and then reports false, and it never reports false without that.",
  ["schedules", "inputs", "fault_sequences"],
  "All durations and units (zero, negative, fractional), interruption at every instant, EINTR at every point.",
  "Tests sleep for some milliseconds once per overload, with nothing disturbing them.",
  ["include/gul14/time_util.h"] + TR, [("delegation to timed waits on the steady clock", "sleep overloads")],
  ["simulated steady clock", "return value"])

p("C20", "Elapsed time is measured on a steady clock",
  "The elapsed time reported for a starting point equals the steady-clock time that really passed between the two calls, truncated or converted exactly to the requested unit. It is never negative, never decreases, and is unaffected by adjustments of the wall clock.",
  ["inputs", "fault_sequences", "schedules"],
  "All elapsed times and units, with wall-clock jumps of any size and sign in between and from any thread.",
  "Tests measure a few real milliseconds and never move the clock.",
  ["include/gul14/time_util.h"], [("steady_clock::now and duration_cast", "tic, toc")],
  ["return value of toc() versus the simulated clock"])

p("C21", "Utility functions are re-entrant and can be called from many threads",
  "Any of the library's free functions and const member functions can be called at the same time from several threads, on separate or on shared unmodified arguments, without a data race, and every call returns what it would return if it ran alone. This includes the very first calls made concurrently.",
  ["schedules", "inputs"],
  "All pairs of functions in all interleavings, including first-use initialisation.",
  "The tests are single-threaded for all of these functions.",
  ["src/escape.cc", "src/cat.cc", "src/string_util.cc", "src/replace.cc", "src/trim.cc", "src/case_ascii.cc", "src/to_number.cc", "include/gul14"],
  [("no mutable shared state; thread-safe function-local statics", "src/escape.cc and headers")],
  ["happens-before over library memory accesses", "return values"])

p("C22", "String functions survive running out of memory",
  "If memory runs out inside a string or conversion function, the call throws std::bad_alloc, leaks nothing, and leaves its input arguments unchanged and any in-place target valid; it never terminates the process or returns a wrong or truncated result. The same call succeeds with the right result once memory is available again.",
  ["fault_sequences", "inputs"],
  "A failure at every single allocation (and pairs) inside every string function, for generated arguments.",
  "No test makes an allocation fail.",
  ["src/cat.cc", "src/escape.cc", "src/replace.cc", "src/string_util.cc", "src/trim.cc", "src/case_ascii.cc", "include/gul14/join_split.h", "include/gul14/tokenize.h", "include/gul14/hexdump.h", "include/gul14/cat.h"],
  [("standard containers and RAII only", "string functions")],
  ["exceptions", "live allocations", "results of a retry"])

p("C23", "The small vector keeps its contract when elements or memory fail",
  "Whatever sequence of operations is applied to a small vector, and at whichever element operation or allocation an exception is thrown, the exception reaches the caller, the vector stays valid and usable, every element is destroyed exactly once and no memory is leaked. Operations that complete give exactly the contents a standard vector would have (for arguments that are not references into the vector itself). An append, reservation, growing resize or shrink-to-fit that fails leaves the contents unchanged if the elements are copyable or have non-throwing moves; other failed operations leave a valid vector.",
  ["fault_sequences", "histories", "inputs"],
  "All operation sequences with a failure injected at every element copy, move, construction or allocation, inline and on the heap.",
  "Tests use types that never throw and memory that never runs out.",
  ["include/gul14/SmallVector.h"], [("construction into uninitialised cells with size bookkeeping", "SmallVector")],
  ["contents, size and element life-cycle counters", "live allocations"])

p("C24", "The sliding buffer keeps its contract when elements or memory fail",
  "Whatever sequence of operations is applied to a sliding buffer, and whichever element copy or allocation fails, the buffer stays valid: its size, capacity, order of elements and iteration agree with a reference sequence, a failed insertion leaves the contents as they were, and a failed resize leaves the same elements in order if moving elements cannot fail, and a valid buffer otherwise. Clearing it releases the elements it held. No element or memory is leaked. Pushing into a buffer of capacity zero, popping from an empty one and using a moved-from one other than by assigning to it or destroying it are excluded.",
  ["fault_sequences", "histories", "configurations"],
  "All operation sequences and capacities with a failure injected at every element operation or allocation.",
  "Tests use types that never throw and memory that never runs out.",
  ["include/gul14/SlidingBuffer.h"], [("index bookkeeping around element assignment", "SlidingBufferBase, SlidingBuffer")],
  ["contents, size, capacity, iteration", "live allocations"])

p("C25", "Optional, variant and expected stay consistent when an operation throws",
  "If constructing, copying, moving or assigning a contained value throws, the exception reaches the caller and the wrapper keeps a consistent state: an optional or expected object holds either its old content or (for optional) nothing, a variant its old alternative or the valueless state, exactly as reported by its queries. Every contained object is destroyed exactly once.",
  ["fault_sequences", "histories"],
  "All operation sequences with a failure injected at every contained-object operation.",
  "Tests use well-behaved types almost exclusively.",
  ["include/gul14/optional.h", "include/gul14/variant.h", "include/gul14/expected.h"],
  [("reinitialisation with roll-back", "expected detail::reinit, optional assignment, variant assignment")],
  ["has_value / valueless queries", "object life-cycle counters"])

p("C26", "A final action runs exactly once on every way out of its scope",
  "The action of a scope guard is executed exactly once when the scope is left, by normal flow, return, or an exception thrown at any point, including allocation failures and thread exit, and never earlier. Constructing a guard by moving from another one transfers the obligation, so that exactly one guard runs the action; assigning to a guard replaces the action it held before.",
  ["fault_sequences", "programs"],
  "All nestings of guards and exits, with failures injected at every point inside the guarded scopes.",
  "Tests leave two or three scopes normally or by one fixed exception.",
  ["include/gul14/finalizer.h"], [("destructor with disarmed flag on move", "FinalAction")],
  ["executions of the action relative to scope exit"])

p("C27", "Hex dumps to a failing stream are never corrupted",
  "Writing a hex dump to a stream that fails at an arbitrary point delivers a prefix of the correct dump and leaves the failure visible in the stream state (or as the stream's exception); it never emits wrong bytes, crashes or loops. With memory failures the string-producing variant either returns the complete dump or throws, and a dump object that could not be copied or assigned still gives a complete dump.",
  ["fault_sequences", "inputs"],
  "A write failure, short write or exception after every possible number of bytes, and a failure at every allocation.",
  "Tests only write to string streams that never fail.",
  ["include/gul14/hexdump.h"], [("formatted output to a caller-supplied stream", "hexdump_stream, HexdumpParameterForward")],
  ["bytes accepted by the stream buffer", "stream state"])

p("C28", "Text views, buffers, dates and times survive failing streams",
  "Writing a string view, a sliding buffer, a calendar date, day, year, time of day or point in time to a stream delivers exactly the right characters (for a string view: those a std::string would give, with field width, fill character and alignment), or, if the device fails at any point, a prefix of them, and then the failure is visible in the stream state or as an exception the stream was set to throw. Reading a date or time with date::from_stream() from a device that fails, throws or ends at any point either succeeds with the value that the delivered characters stand for, or reports failure and leaves the destination as it was. In all cases the flags, fill character and precision of the stream are afterwards as before for sliding buffers, dates and times. Locale-dependent names (of months and weekdays) are excluded.",
  ["fault_sequences", "inputs"],
  "A write or read failure, short write, early end or exception after every possible number of characters.",
  "Tests only use string streams that never fail.",
  ["include/gul14/string_view.h", "include/gul14/SlidingBuffer.h", "include/gul14/date.h"], [("stream inserters", "operator<<"), ("saved and restored stream state", "date::detail::save_istream, save_ostream"), ("extraction", "date::from_stream")],
  ["characters accepted by the stream buffer", "stream state", "destination of a read"])

NAW = "Existing tests sample a few inputs; the property ranges over all inputs (no schedule, clock or fault is involved)."
def na(id, title, st, text, files, mech):
    p(id, title, st, ["inputs"], text, NAW, files, [mech], ["return values"])
na("C40", "Number parsing accepts exactly valid numbers",
   "Converting text to a number yields the correctly rounded value for every text that denotes a representable number of the target type, and no value for any other text (garbage, overflow, empty).",
   "All texts and arithmetic target types.", ["include/gul14/to_number.h", "src/to_number.cc"], ("overflow-checked digit accumulation", "to_number"))
na("C41", "Escaping is reversible",
   "Unescaping an escaped string gives back the original string for every byte sequence, and the escaped form contains only printable ASCII characters.",
   "All byte strings.", ["include/gul14/escape.h", "src/escape.cc"], ("escape table and regex based inverse", "escape, unescape"))
na("C42", "Splitting and joining are inverse",
   "Joining the parts of a split with the same delimiter restores the original string, and splitting never drops, merges or reorders parts.",
   "All strings, delimiters and container types.", ["include/gul14/join_split.h"], ("delimiter search", "split, join"))
na("C43", "Text transformations match their definition",
   "Trimming, tokenising, replacing, padding, case conversion and case-insensitive comparison return exactly what their definitions say for every input, including empty strings and embedded zero bytes.",
   "All input strings.", ["src/trim.cc", "src/replace.cc", "src/string_util.cc", "src/case_ascii.cc", "include/gul14/tokenize.h"], ("pure string algorithms", "the named functions"))
na("C44", "Numeric helpers match their mathematical definition",
   "Greatest common divisor, least common multiple, bit manipulation, clamping, comparison within tolerances and the statistics functions return the mathematically defined value for all representable arguments.",
   "All arguments.", ["include/gul14/gcd_lcm.h", "include/gul14/bit_manip.h", "include/gul14/num_util.h", "include/gul14/statistics.h"], ("pure arithmetic", "the named headers"))
na("C45", "Views, spans and substring searches stay in bounds",
   "String views, spans and the substring checks never read outside the range they were given and agree with the standard definitions for every argument.",
   "All ranges and positions.", ["include/gul14/string_view.h", "include/gul14/span.h", "include/gul14/substring_checks.h"], ("bounds arithmetic", "the named headers"))

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
