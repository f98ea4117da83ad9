BL = "crates/revmc-builtins/src/lib.rs"
UT = "crates/revmc-builtins/src/utils.rs"
TECH = ("static analysis: path-sensitive interprocedural dataflow over rustc MIR (branch conditions as path facts, effects as typestate events), "
        "checked against a per-entry-point specification")
LN = ("Sound over the analysed MIR paths up to the listed models of std/host calls; no execution and no solver. Values are compared as terms over the "
      "operands, so arithmetic inside external crates (gas schedule, big integers) is assumed.")


def P(id, title, statement, over, text, why, mech, files=(BL, UT)):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech]), technique=TECH, level_note=LN)


PROPS = [
    P("P01", "Static calls never change state",
      "Inside a static call, every state-changing runtime operation (storage and transient-storage writes, logs, contract creation, self-destruct, "
      "value-bearing calls) ends the frame with the interpreter's own static-violation result before it charges for, requests or performs the change. "
      "A call issued from a static frame is itself static, and a static call makes its callee static.",
      ["inputs", "programs"], "for every operand, fork and gas amount, on every path through the operation",
      "Tests run a few static calls with fixed operands; a guard that is skipped for one operand shape, fork or call kind, or that is consulted after the change, passes them.",
      [("static-call guard", BL + ": ensure_non_staticcall! users"), ("call kinds", BL + ": __revmc_builtin_call"), ("storage writes", BL + ": __revmc_builtin_sstore / tstore")]),
    P("P02", "Dynamic gas is the fork's price, charged once, before the effect",
      "Every runtime operation charges exactly the dynamic cost the gas schedule of the frame prescribes for its operands (cold access, copy words, log bytes, "
      "storage transitions, init code, forwarded call gas, exponent bytes), to the frame's own gas counter, before the effect it pays for. "
      "Running out of gas stops the operation before that effect, and refunds, stipends and the 63/64 rule follow the fork.",
      ["inputs", "programs", "configurations"], "for every operand, account/slot state, fork and remaining gas",
      "Gas tests compare totals for sampled programs; a charge missing on one branch (cold account, value transfer, a single fork) or moved after the effect is invisible to them.",
      [("regular/state gas charges", BL + ": gas!, state_gas!"), ("account loading", UT + ": load_account"), ("copies", UT + ": copy_operation")]),
    P("P03", "Memory is grown and paid for before it is touched",
      "A runtime operation reads or writes the frame's memory only within a range it has first grown and paid for with the frame's gas and gas schedule, "
      "with the operand offset and length, and grows nothing for a zero length. After any growth the cached memory view that compiled code reads is refreshed from the frame's memory before the operation returns.",
      ["inputs", "programs"], "for every offset and length, including zero, maximal and overflowing ones",
      "An access outside the grown range, or a stale cached base pointer after a reallocation, corrupts memory only for particular sizes; sampled tests stay inside the old allocation.",
      [("growth", UT + ": ensure_memory"), ("cached view", "crates/revmc-context/src/lib.rs: refresh_memory_cache"), ("users", BL + ": keccak256, log, copies, call, create, return")],
      files=(BL, UT, "crates/revmc-context/src/lib.rs")),
    P("P04", "Runtime operations map operands, host accesses and results as the EVM does",
      "Every runtime operation reads its operands from the stack positions the EVM defines, passes exactly those to the host, and writes to its result slot the value the EVM defines for them "
      "(zero for division by zero, out-of-range block hashes, missing blob hashes and data past the end; big-endian where the word is bytes). It performs no other host access.",
      ["inputs", "programs", "configurations"], "for every operand value and host answer, on every path",
      "Swapped operands, a truncated offset or a wrong default are visible only for particular values; tests sample few values per operation.",
      [("operand order", BL + ": rev!, pop!, read_words!"), ("word conversions", "crates/revmc-context/src/lib.rs: EvmWord"), ("results", BL)]),
    P("P05", "Failures in runtime operations are never swallowed",
      "Whenever a charge, memory growth, size conversion, host load or limit check inside a runtime operation fails, the operation performs no further effect and leaves the frame with the result code the interpreter uses for that failure. "
      "No path that met a failure returns normally, and no successful path leaves with a failure code.",
      ["inputs", "fault_sequences", "programs"], "for every failing charge, database error, skipped cold load, oversized operand and limit",
      "Database errors and mid-operation failures are rarely injected in tests; a dropped `?` or a wrong mapping of one error keeps every passing test green.",
      [("failure exit", BL + ": fail"), ("error mapping", UT + ": BuiltinError"), ("host failures", BL)]),
    P("P06", "Call, create and return requests carry exactly the frame's operands",
      "The request a frame hands to its caller when it calls, creates, returns or reverts names the right kind, caller, target, code, value, input range, return range, gas limit, static flag and salt for the opcode, taken from the operands and the frame, with the forwarded gas including the stipend exactly when value is transferred. "
      "A return or revert carries the selected memory bytes, the requested result and the frame's gas.",
      ["inputs", "programs"], "for every opcode of the family, operand combination and fork",
      "The four call kinds differ in single fields (caller, target, apparent value, static flag); a mixed-up field is only observable in nested executions no unit test builds.",
      [("call requests", BL + ": __revmc_builtin_call"), ("create requests", BL + ": __revmc_builtin_create"), ("return requests", BL + ": __revmc_builtin_do_return")]),
]
