"""Which scenarios decide which property, and texts for the evidence files."""
P, T, U, C, W = "simx_pool", "simx_trigger", "simx_util", "simx_containers", "simx_wrappers"
CHECKS = {
    "C01": dict(how="seeded schedules of submitters, cancellers and workers; exactly-once check over the recorded history", scen=[(P, ["pool_once"]), (P, ["pool_once_mem"])], weights=[4, 1]),
    "C02": dict(how="seeded schedules; order check over recorded starts and status queries", scen=[(P, ["pool_fifo"])]),
    "C03": dict(how="virtual clocks with jumps, skips and spurious wake-ups; start times checked against the simulated system clock", scen=[(P, ["pool_early"])]),
    "C04": dict(how="seeded schedules; progress check at quiescence in simulated time", scen=[(P, ["pool_progress"])]),
    "C05": dict(how="seeded schedules; interval-based capacity check against a counting model", scen=[(P, ["pool_capacity"])]),
    "C06": dict(how="seeded schedules with race detection; results and exceptions compared with what the task produced", scen=[(P, ["pool_result"])]),
    "C07": dict(how="seeded schedules; every query explained by one instant of the recorded task life-cycles", scen=[(P, ["pool_status"]), (P, ["pool_many"])], weights=[6, 1]),
    "C08": dict(how="seeded schedules; cancel results checked against recorded starts and results", scen=[(P, ["pool_cancel"]), (P, ["pool_many"])], weights=[5, 1]),
    "C09": dict(how="destruction at arbitrary points of seeded schedules; history and thread accounting", scen=[(P, ["pool_shutdown"]), (P, ["pool_system"])], weights=[5, 1]),
    "C10": dict(how="handle calls racing pool destruction under seeded schedules; allowed-outcome check", scen=[(P, ["pool_handles"]), (P, ["pool_selfjoin"])], weights=[12, 1]),
    "C11": dict(how="seeded schedules with happens-before race detection and heap life-time tracking", scen=[(P, ["pool_race"]), (T, ["trig_race"])], weights=[3, 1]),
    "C12": dict(how="re-entrant calls under seeded schedules; deadlock detection and lock-free-callback probes", scen=[(P, ["pool_reentrant", "pool_reentrant_mem"])]),
    "C13": dict(how="allocation and thread creation failures at seeded points; conservation and later-use checks", scen=[(P, ["pool_resource"])]),
    "C14": dict(how="seeded schedules with simulated signal masks inspected in every task", scen=[(P, ["pool_signal"])]),
    "C15": dict(how="seeded schedules and spurious wake-ups; linearizability check against an atomic boolean", scen=[(T, ["trig_level"])]),
    "C16": dict(how="seeded schedules; all waiters released at quiescence", scen=[(T, ["trig_wake"]), (P, ["pool_system"])], weights=[5, 1]),
    "C17": dict(how="virtual clocks with jumps and spurious wake-ups; lower and upper bounds on every wait", scen=[(T, ["trig_timed"])]),
    "C18": dict(how="destruction at seeded points with heap life-time tracking and happens-before race detection", scen=[(T, ["trig_destroy"])]),
    "C19": dict(how="virtual clocks with EINTR, jumps and spurious wake-ups; bounds on every sleep", scen=[(T, ["sleep"])]),
    "C20": dict(how="virtual steady and wall clocks with jumps; exact comparison with simulated time", scen=[(T, ["tictoc"])]),
    "C21": dict(how="concurrent calls under seeded schedules with happens-before race detection; results compared with the same calls made alone", scen=[(U, ["util_threads"])]),
    "C22": dict(how="allocation and callback failures at seeded points; results compared with a reference, leak accounting, retry", scen=[(U, ["util_memory"])]),
    "C23": dict(how="seeded operation histories with element and allocation failures at seeded points; refinement against a reference vector, life-cycle conservation", scen=[(C, ["smallvec_copy", "smallvec_move"]), (C, ["smallvec_noexcept"])], weights=[9, 1]),
    "C24": dict(how="seeded operation histories with element and allocation failures at seeded points; refinement against a reference deque, life-cycle conservation", scen=[(C, ["slidebuf"])]),
    "C25": dict(how="seeded operation histories with element failures at seeded points; old-content-or-new check against a reference, life-cycle conservation", scen=[(W, ["optional", "variant", "expected"]), (W, ["expected_copy", "expected_emplace"])], weights=[5, 1]),
    "C26": dict(how="seeded nestings of guards, threads and exits with failures at seeded points; exactly-once check over the history", scen=[(W, ["final_action"])]),
    "C27": dict(how="stream devices failing at seeded points (refused, short and throwing writes) and failing allocations; output checked to be a prefix of a reference dump", scen=[(U, ["hexdump_streams"])]),
    "C28": dict(how="stream devices failing at seeded points (refused, short and throwing reads and writes, early end); output checked to be a prefix of a reference, input against the characters delivered, stream state and formatting afterwards", scen=[(U, ["stream_io"])]),
}
FAULT_TEXT = {
    "preempt_memory": "preemption at a memory access of library or scenario code",
    "preempt_sync": "preemption at a synchronisation operation",
    "thread_stall": "one thread does not run for a while although it could",
    "time_skip": "the whole machine stalls: clocks move on, nobody runs",
    "clock_jump": "the wall clock is adjusted forwards or backwards",
    "pick": "the scheduler picks another than the default next thread",
    "wake_order": "a notification or unlock wakes another than the first waiter",
    "spurious_wakeup": "a condition variable wait returns without a notification",
    "alloc_failure": "operator new throws std::bad_alloc",
    "thread_create_failure": "pthread_create returns EAGAIN",
    "eintr": "a sleep is interrupted by a signal",
    "user_fault": "an element operation throws or a stream refuses output",
}
REAL = ["all of /repo/src and the headers of /repo/include as instantiated by the scenarios", "libstdc++ templates (mutex, condition_variable, future, containers)"]
STUB = ["operating system scheduler (real threads, but parked and released one at a time; the simulator chooses who runs)", "pthread mutexes, condition variables, thread creation and join", "clocks, sleeps and timeouts (virtual time)", "heap (bump arena with life-time tracking)", "futex waits", "signal masks (per simulated thread)"]
RULE = ("One case is one complete simulated execution of a generated workload (threads, operations, arguments) under a seeded schedule with seeded faults. "
        "It is non-trivial if at least one preemption or fault was injected into it, and distinct if the hash over its whole event sequence "
        "(thread, event kind, object and result of every synchronisation step, record and fault) was not seen before.")
LEVEL_NOTE = ("Seeded sampling of schedules and fault sequences on the real code: a clean batch is evidence, not proof. Every reported violation repeats from its seed, "
              "from its recorded trace and from the minimised replay file in a fresh process. Trusted: the simulator's model of pthreads, clocks and the heap, and sequential consistency.")
PURE = "A pure function of its arguments: no schedule, clock, I/O, fault or shared state takes part, so simulation would only be input generation under another name. "
NOT_APPLICABLE = {
    "C40": PURE + "(Allocation failures and concurrent calls of these functions are covered by C21 and C22.)",
    "C41": PURE + "(Allocation failures and concurrent calls of these functions are covered by C21 and C22.)",
    "C42": PURE + "(Allocation failures and concurrent calls of these functions are covered by C21 and C22.)",
    "C43": PURE + "(Allocation failures and concurrent calls of these functions are covered by C21 and C22.)",
    "C44": PURE,
    "C45": PURE,
}
