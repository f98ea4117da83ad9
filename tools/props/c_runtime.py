RT = "crates/revmc-runtime/src/runtime/"
BE, MOD, WK = RT + "backend.rs", RT + "mod.rs", RT + "worker.rs"
TECH = ("static analysis: path-sensitive abstract interpretation of the type-checked MIR of the event handlers over an abstract heap (shape analysis: keyed maps, queues, counters; "
        "code, programs, waiters and libraries opaque), over every bounded history of a family, compared with a reference transition system")
LN = ("Bounded: every history of up to 3-5 events over two contracts and two forks per configuration family (one longer in the thorough tier); handlers are interpreted completely on each. "
      "No execution of the code and no solver. std/dashmap containers, channels, clock and dynamic loading are modelled.")


def P(id, title, statement, over, text, why, mech, files, tech=TECH, ln=LN):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech]), technique=tech, level_note=ln)


PROPS = [
    P("P16", "Resident code is always the code compiled for exactly that contract and fork",
      "For every history of requests, lookups, compilation results, failures, clears and evictions, the programs available to lookups are exactly those whose compilation (or load) finished successfully and was neither cleared nor evicted since. "
      "Each is published under the code hash and fork it was compiled for, together with the backing that keeps its own machine code alive; a failed compilation, link or load publishes nothing.",
      ["histories", "fault_sequences", "configurations"], "for every history of coordinator events, with any subset of compilations, links, stores and loads failing",
      "Publishing the wrong program needs several keys in flight at once, or a result arriving after the state it belonged to is gone; tests run one contract at a time.",
      [("publication", BE + ": handle_worker_result, insert_resident"), ("link", BE + ": handle_jit_object_success"), ("load", BE + ": handle_aot_success, try_load_persisted_aot"), ("identity", RT + "api.rs: CompiledProgram")], (BE, RT + "api.rs")),
    P("P17", "Jobs are handed out once, within limits, with the right inputs",
      "For every history, a contract is handed to the workers only if it is not resident, not already being compiled, eligible, explicitly requested or seen often enough, and the number of outstanding jobs is below the limit; the job carries that contract's code and key, the kind and its configured optimisation level, and the requester's notification. "
      "The number of outstanding jobs is tracked exactly, also across failures, refused submissions and clears, so that the limit neither leaks away nor is exceeded, and a failed compilation can be requested again.",
      ["histories", "fault_sequences", "configurations"], "for every history of observations, requests, results, refusals and clears, thresholds and limits",
      "A leaked or double-counted slot shows up only after a particular order of failures, refusals and clears; tests see short successful histories.",
      [("admission", BE + ": try_admit"), ("accounting", BE + ": handle_worker_result"), ("observation", BE + ": handle_lookup_observed, tick")], (BE,)),
    P("P18", "Every waiting caller is told exactly once, after the outcome is visible",
      "For every history, a caller waiting for a compilation is released exactly when its request is settled: at once if the program is resident, ineligible, over the limit or refused; otherwise when the compilation it joined or started ends, successfully or not; or when a clear discards it. "
      "It is never released twice or for another contract's compilation, never forgotten, and on success not before the program can be looked up.",
      ["histories", "fault_sequences", "schedules"], "for every history of overlapping requests for the same and different contracts, results in any order, failures, refusals, clears and sweeps",
      "A lost waiter needs several callers joined on one compilation and an interleaved failure or clear; a test would hang rather than report.",
      [("join", BE + ": try_admit, EntryState"), ("release", BE + ": handle_worker_result"), ("notifier", WK + ": SyncNotifier")], (BE, WK)),
    P("P19", "Eviction removes exactly the idle or least recently used programs",
      "For every history, a sweep happens when it is due or as soon as compiled code exceeds its budget; it removes programs unused for longer than the idle limit, observations unused for as long that are not being compiled, and then, while over budget, compiled (not loaded) programs from the least recently used on. "
      "Use of a program by a lookup counts as use, every removal is complete (a removed program is neither found nor accounted any more, and can be compiled again) and counted, and the hit, miss, dispatch, success, failure and eviction counters equal what happened.",
      ["histories", "configurations"], "for every history of uses, compilations and waiting times, idle limits, sweep intervals and size budgets",
      "Which program is evicted depends on relative ages and on bookkeeping kept in two maps that must agree; tests evict a single program.",
      [("sweep", BE + ": run_eviction_sweep, should_sweep"), ("bookkeeping", BE + ": insert_resident, remove_resident, handle_lookup_observed"), ("counters", RT + "stats.rs")], (BE, RT + "stats.rs")),
    P("P20", "After a clear nothing from before it comes back",
      "For every history, once resident code is cleared no program compiled, dispatched or observed before the clear becomes available afterwards unless it is requested again: results of earlier jobs are discarded, queued observations forgotten, running jobs cancelled and their waiters released. "
      "Work requested after the clear is unaffected by late results from before it; clearing persisted artifacts empties the store and nothing else, and clearing all does both.",
      ["histories", "schedules"], "for every position of a clear relative to requests, dispatches and results, repeated clears, same and different contracts",
      "The window between dispatch and result is closed in tests; a stale result must meet a re-requested contract to do harm.",
      [("clears", BE + ": clear_resident, clear_persisted, clear_all"), ("generation", BE + ": handle_worker_result")], (BE,)),
    P("P21", "Stored artifacts are found again only for what they were compiled for",
      "For every history, a finished ahead-of-time compilation is stored under its contract, fork, backend and optimisation level with a matching description before it is used, and only a stored artifact for that same combination is ever loaded; the function taken from it is the one its description names. "
      "Any failure to store, find or load leaves the program unavailable and the request settled as failed.",
      ["histories", "fault_sequences", "configurations"], "for every history of preparations, requests, results, store and load faults, and clears",
      "Mixing up artifacts needs several contracts or forks in one store, or a fault between storing and loading.",
      [("store", BE + ": handle_aot_success"), ("load", BE + ": try_load_persisted_aot"), ("key", RT + "storage.rs: ArtifactKey")], (BE, RT + "storage.rs")),
    P("P22", "Lookups answer at once, truthfully, and are recorded; controls do what they say",
      "For every state of the runtime, a lookup returns the compiled program of exactly that contract and fork if it is resident and compilation is enabled, and otherwise the interpreter with the reason; it records each hit and miss once while there is room and never waits, except that in blocking mode an eligible miss requests the compilation and answers only once it has ended. "
      "Requests, clears, nested pauses and resumes reach the coordinator exactly once each, with their own contents; enabling starts the coordinator once, with exactly the loadable stored artifacts preloaded, and reports a failed start; shutdown asks, waits no longer than the limit, and happens once. "
      "The statistics reported are the counters.",
      ["inputs", "histories", "configurations"], "for every combination of enabled, blocking, started, paused depth, queue full or closed, resident set, eligibility, preload and start-up outcome",
      "Most combinations need a full queue, a stopped backend or a failed start; tests use a running backend and one contract.",
      [("lookup", MOD + ": JitBackend::lookup, lookup_blocking, get_compiled"), ("controls", MOD + ": pause, resume, set_enabled, ensure_started"), ("preload", MOD + ": preload_aot"), ("shutdown", MOD + ": shutdown_inner")],
      (MOD, RT + "stats.rs"), ln="Every case class of the front end's inputs and shared state, and short histories of pauses. Threads, channels and the artifact store's answers are modelled; no execution and no solver."),
    P("P23", "Configuration and eligibility rules are applied exactly",
      "For every contract, it is eligible for automatic compilation if and only if its code is non-empty and no longer than the size limit, where a limit of zero means none. "
      "For every environment, each recognised override variable changes exactly its own setting, to the parsed value; a malformed value is reported as an error, an unset variable changes nothing, and exactly the documented mode names are recognised.",
      ["inputs", "configurations"], "for every code length class, limit, environment assignment and mode name",
      "Boundary lengths and the full cross product of override variables are not enumerated by tests.",
      [("eligibility", RT + "config.rs: should_compile"), ("overrides", RT + "config.rs"), ("modes", RT + "config.rs: JitMode")], (RT + "config.rs",),
      ln="Every case class of length against limit, each variable absent, valid and malformed. Parsing of numbers is std's and modelled."),
    P("P24", "The worker pool runs each accepted job once, or refuses it",
      "For every interleaving of submissions with task starts and shutdown, a job is accepted only while the pool is running and its queue is below capacity, an accepted job is compiled and its result sent exactly once, and a refused job is handed back with its notification; the queue count never exceeds the capacity and returns to zero. "
      "A compilation translates exactly the job's code under its fork, symbol, optimisation level and configured options, from a compiler state in which nothing of an earlier job remains, and any failure becomes that job's failure.",
      ["schedules", "histories", "fault_sequences", "configurations"], "for every interleaving of the queue counter's updates, every failing step of a compilation, fresh and reused compilers, and every setting",
      "Races on the queue counter and state left over by a failed compilation do not show in sequential tests, and without a code generator no job is compiled at all.",
      [("queue", WK + ": WorkerPool::try_send, WorkerPool::shutdown"), ("compile", WK + ": compile_with_state, create_compiler")], (WK,),
      ln="Every case class of queue level, capacity, shutdown flag and lost update; every step failing in turn. Atomics, thread pool and code generator are modelled."),
    P("P25", "The EVM wrappers run the code compiled for the frame's own contract",
      "For every sequence of transactions and system calls, fork changes and backend replacements, a frame runs compiled code only if that code was compiled for its own contract under the current fork by the current backend, and otherwise is interpreted; its outcome is processed exactly once and the frame is finished exactly when it has a result. "
      "An observed run additionally reports every log, self-destruct and frame end to the observer, and every entry point runs the transaction it was given.",
      ["histories", "inputs", "configurations"], "for every interleaving of frames, transactions, fork changes and backend replacements, with and without an observer",
      "A cached decision surviving a fork change or a backend replacement needs a multi-transaction history over two forks that tests do not sample.",
      [("runtime wrapper", "crates/revmc-runtime/src/revm_evm.rs: JitEvm"), ("static wrapper", "crates/revmc-context/src/jit_evm.rs: JitEvm")],
      ("crates/revmc-runtime/src/revm_evm.rs", "crates/revmc-context/src/jit_evm.rs"),
      ln="Every history of up to five steps over two contracts, two forks and two backends, and every case class of one frame. The inner EVM, handler and inspector are modelled."),
    P("P26", "Entering and leaving compiled code hands the frame's state over exactly",
      "Compiled code is entered with the frame's own gas, stack, memory, input, static flag, fork and resume point, and return data is cleared exactly when the caller drops it; on leaving, gas, resume point and pending action are handed back, running out of gas spends all of it, and the action returned is the pending one or else the result code with empty output. "
      "Word conversions keep numeric value and byte order in both directions, and stack helpers reach exactly the slot named.",
      ["inputs", "programs"], "for every result code, gas amount, resume point, pending action and return-data state",
      "Compiled functions in tests return few result codes and seldom suspend, so a lost resume point or gas mismatch on one exit path stays unseen.",
      [("hand-over", "crates/revmc-context/src/lib.rs: EvmCompilerFn, EvmContext"), ("words", "crates/revmc-context/src/lib.rs: EvmWord"), ("stack", "crates/revmc-context/src/lib.rs: EvmStack")],
      ("crates/revmc-context/src/lib.rs",),
      ln="Every result code class crossed with pending action, gas and return-data states. The architecture-specific trampoline is not analysed."),
]
