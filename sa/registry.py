"""property -> (module, function, facts level, rule)."""
_B = ("Path-sensitive dataflow over the compiler's MIR of every runtime-library entry point, helpers inlined: each path's ordered effects "
      "(charges, memory growth, host accesses, result and request stores, exit code) and branch conditions must be accepted by the entry "
      "point's reference specification; this property takes the findings about ")
_C = ("The coordinator's request, result and maintenance handlers, abstractly interpreted over an abstract heap (keyed maps, counters, opaque code and waiters) along every "
      "history up to a bound in a family of configurations, with scripted answers of worker pool, linker, store and clock, must have the effects of the reference coordinator; "
      "this property takes the differences in ")
_T = ("The translator, abstractly interpreted on a family of analysed programs with a recording code builder; the recorded control-flow graph, evaluated over provenance terms from an arbitrary "
      "stack, gas and memory state, must have on every path the effects and exit of the EVM's meaning of the section; this property takes ")
REGISTRY = {
    "P01": ("p_builtins", "static", "builtins", _B + "the static-call flag dominating every state change."),
    "P02": ("p_builtins", "gas", "builtins", _B + "what is charged, to which counter, and before which effect."),
    "P03": ("p_builtins", "memory", "builtins", _B + "memory growth before access and refresh of the cached view."),
    "P04": ("p_builtins", "host", "builtins", _B + "which operand reaches which host access and which value reaches the result slot."),
    "P05": ("p_builtins", "exits", "builtins", _B + "every failure branch leaving the frame with its own result code."),
    "P06": ("p_builtins", "frame", "builtins", _B + "the call, create and return requests handed to the caller."),
    "P07": ("p_tables", "table", "codegen", "The static opcode tables and the table accessors, evaluated by constant propagation for every fork, opcode byte and deep immediate, must equal the reference EVM table."),
    "P08": ("p_tables", "parse", "codegen", "One step of the parsing loop and of the opcode iterator, analysed for every opcode, availability class and immediate class on every path, must record the instruction, flags, costs, immediates, position maps and destinations of the reference decoder."),
    "P09": ("p_sections", "sections", "codegen", "The per-instruction transfer of the section pass, for every opcode, flag combination and prior section state class, must equal the reference batching; boundary predicates are evaluated for every opcode."),
    "P10": ("p_memory", "memory", "codegen", "The access derivation of every opcode, the block summary, join, edge propagation and fixpoint seeds must equal the reference forward must-analysis."),
    "P11": ("p_fold", "fold", "codegen", "The folded expression of every opcode, extracted on every path from the MIR, must equal the EVM's function; unknown operands must yield no value; budget per opcode; interning round trip."),
    "P12": ("p_blocks", "blocks", "codegen", "The stack transfer of every opcode, the lattice join, jump resolution, edge discovery, the fixpoint worklist on a family of control-flow graphs, withdrawal of facts under unresolved jumps, and the commit of resolutions must each equal the reference abstract interpretation."),
    "P13": ("p_cfg", "cfg", "codegen", "Graph construction, reachability, dead-code marking and redirect compression, abstractly interpreted together on a family of instruction-class sequences, must be sound for the reference step relation of each sequence; the pass order must refresh the graph before each consumer."),
    "P14": ("p_dse", "dse", "codegen", "The elimination pass, abstractly interpreted on a family of instruction blocks (every opcode, and mixed sequences of arithmetic, shuffles, effects, suspensions and terminators, alone and together), must drop only instructions whose slots stay unread under a slot-definedness oracle."),
    "P15": ("p_dedup", "merging", "codegen", "Block merging with graph refresh, abstractly interpreted on a family of programs built from repeated block templates, must yield a program that simulates the original from every entry, with facts implied by those of every original it stands for."),
    "P16": ("p_coord", "identity", "runtime", _C + "which code is resident under which key."),
    "P17": ("p_coord", "dispatch", "runtime", _C + "the jobs handed to workers and the pending count."),
    "P18": ("p_coord", "waiters", "runtime", _C + "which waiters are told, and when."),
    "P19": ("p_coord", "evict", "runtime", _C + "eviction, last-use data and counters under idle and size limits."),
    "P20": ("p_coord", "clear", "runtime", _C + "histories with a clear."),
    "P21": ("p_store", "store", "runtime", _C + "the artifact store and programs loaded from it; the store itself over a modelled file system."),
    "P22": ("p_front", "front", "runtime", "The front end's operations, abstractly interpreted for every case class of inputs and shared state, must have the reference decision, recorded events, commands and flags."),
    "P23": ("p_worker", "config", "runtime", "Eligibility, environment overrides and mode parsing, abstractly interpreted for every case class of their inputs, must equal the documented rules."),
    "P24": ("p_worker", "pools", "runtime", "Job submission, the task body, shutdown and one compilation, abstractly interpreted for every case class of the queue state, interleaved update and failing step, must keep the queue count, answer each job once and compile exactly the job."),
    "P25": ("p_evm", "evm", "runtime", "Frame dispatch, entry points and the lookup cache of both EVM wrappers, abstractly interpreted for every case class of a frame and every short history of transactions, fork changes and backend replacements."),
    "P26": ("p_entry", "entry", "builtins", "Entry and exit of compiled code, word conversions and stack helpers, abstractly interpreted with a scripted compiled function for every case class of its outcome."),
    "P27": ("p_translate", "straight", "codegen", _T + "what a section computes: values, stack, memory accesses, runtime calls, gas and bound checks, failures."),
    "P28": ("p_translate", "control", "codegen", _T + "where control goes and what is handed over: entry, jumps, merged blocks, halts, suspension and resumption."),
}

import os  # noqa: E402
if os.environ.get("VERIF_DEV"):
    REGISTRY["PX"] = ("p_coord", "everything", "runtime", _C + "anything.")
