CG = "crates/revmc-codegen/src/bytecode/"
MOD, INFO, OPC = CG + "mod.rs", CG + "info.rs", CG + "opcode.rs"
TECH = ("static analysis: conditional constant propagation / path-sensitive abstract interpretation of the type-checked MIR over a finite abstract domain "
        "(opcode, fork, flag and shape classes), each path's stores and events compared with a reference transfer function")
LN = ("Covers every path of the analysed functions for every listed opcode/flag/shape class; no execution of the code and no solver. Behaviour of std containers is modelled; "
      "values outside the tracked domain are symbolic.")


def P(id, title, statement, over, text, why, mech, files, tech=TECH, ln=LN):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech]), technique=tech, level_note=ln)


PROPS = [
    P("P07", "The compiler's opcode table is the fork's opcode table",
      "For every fork and every opcode byte, the compiler knows the opcode exactly when the interpreter does, treats it as available exactly from the fork that introduced it, "
      "and uses that fork's constant gas cost and dynamic-cost marking. The number of stack items each opcode (including those with deep-stack immediates) takes and leaves, and its immediate length, are the EVM's.",
      ["inputs", "configurations"], "for every fork, all 256 opcode bytes and all 256 deep-stack immediates",
      "Tests exercise a few opcodes on a few forks; one wrong cell of a fork-indexed table or one off-by-one in a stack effect is visible only for that opcode on that fork.",
      [("fork tables", INFO + ": op_info_map"), ("stack effects", OPC + ": stack_io, decode_single, decode_pair")], (INFO, OPC)),
    P("P08", "Bytecode is split into instructions exactly as the interpreter executes it",
      "For every byte string, instruction boundaries, immediates (zero-padded past the end), implicit trailing stop, per-instruction gas and stack effects, unknown and not-yet-activated opcodes, and the mapping between program counters and instructions are those of the interpreter. "
      "A program counter is a valid jump destination exactly when the interpreter's jump-destination analysis says so.",
      ["inputs", "configurations"], "for every bytecode, including truncated pushes, deep-stack immediates that hide or expose bytes, and every fork",
      "Fixtures contain well-formed code; a mis-sized immediate or a destination hidden in data only matters for byte strings nobody writes by hand.",
      [("parser", MOD + ": Bytecode::new"), ("iterator", OPC + ": OpcodesIter"), ("destinations", MOD + ": is_valid_jump")], (MOD, OPC)),
    P("P09", "Batched gas and stack checks equal the per-instruction ones",
      "For every instruction sequence, the gas charged and the stack bounds checked at the head of a section are exactly the sum of costs, the minimum required depth and the maximum growth of the live instructions in it, and dead or removed instructions contribute nothing. "
      "A section never extends past an instruction that can suspend, observes remaining gas, may branch, is a reachable jump destination, or ends the frame, so no observable gas or stack failure moves across one.",
      ["inputs", "programs"], "for every opcode, flag combination and position in a section",
      "Batched checks are right on ordinary code; a wrong boundary or a lost maximum shows only when the frame runs out of gas or stack in one particular section shape.",
      [("section transfer", CG + "passes/sections.rs"), ("instruction predicates", MOD + ": InstData"), ("gas observers", MOD + ": requires_gasleft")],
      (CG + "passes/sections.rs", MOD)),
    P("P10", "Memory expansion checks are skipped only when memory is already large enough",
      "For every program, an instruction is given a known memory size only if every path reaching it has already grown memory to at least that size, and the size required by it is derived from its own offset and length operands. "
      "Facts of several predecessors are joined to their minimum, unknown offsets guarantee nothing, and blocks reachable by unresolved jumps assume nothing.",
      ["inputs", "programs"], "for every opcode, every constant/unknown operand combination, and every control-flow shape",
      "A skipped expansion corrupts gas and memory only on the path that did not grow memory; fixtures have few joins.",
      [("accesses", CG + "passes/memory_sections.rs: const_memory_accesses"), ("fixpoint", CG + "passes/memory_sections.rs")],
      (CG + "passes/memory_sections.rs",)),
    P("P11", "Constant folding computes the EVM's result",
      "For every opcode the compiler evaluates at compile time and all operand values, the folded word is the one the EVM computes (including division by zero, signed overflow, oversized shifts and byte indices), the operands are taken in stack order, and an instruction with any unknown operand is not folded. "
      "Folding work is budgeted, with exponentiation charged by exponent size, and interned words read back unchanged.",
      ["inputs"], "for every opcode, all operand values",
      "Tests fold a few small numbers; edge operands (zero divisors, 2^255, shifts of 256 and more, values around machine-word size) are where implementations differ.",
      [("folding", CG + "passes/const_fold.rs: try_const_fold"), ("budget", CG + "passes/const_fold.rs: const_fold_gas"), ("interning", CG + "interner.rs")],
      (CG + "passes/const_fold.rs", MOD), ln=LN + " Word arithmetic on the extracted expressions is compared with the reference on a boundary-value grid, so a deviation confined to non-boundary operands of an otherwise identical expression is not excluded."),
    P("P12", "Resolved jumps and propagated constants hold on every path",
      "For every program, a stack value recorded as constant (or one of a set) before or after an instruction has that value on every execution reaching it, and a jump is treated as static, multi-target, invalid or constantly taken/not taken only if every execution agrees. "
      "If any jump stays unresolved, or the analysis stops early, facts about blocks such a jump could reach are reduced to what the block alone guarantees.",
      ["inputs", "programs"], "for every opcode, abstract stack, join of predecessor states, and control-flow shape",
      "A wrong constant or target needs two paths that disagree, stacks deeper than the tracked depth, or an unresolved jump elsewhere in the program; fixtures are mostly straight-line.",
      [("transfer", CG + "passes/block_analysis.rs: interpret_block"), ("join", CG + "passes/block_analysis.rs: BlockState::join"), ("resolution", CG + "passes/block_analysis.rs: resolve_jump, invalidate_suspect_jumps, commit_resolved_jumps")],
      (CG + "passes/block_analysis.rs",)),
    P("P13", "Code treated as unreachable can never run, and every transfer is in the graph",
      "For every program, an instruction is dropped as dead only if no execution can reach it: falling through, jumping to a known target (also through a merged block), or by any unresolved jump landing on a destination. "
      "The control-flow graph splits live code exactly at branches and at destinations that can be jumped to, its edges are exactly the possible transfers, and every later pass works on the graph of the program as it is at that point.",
      ["inputs", "programs"], "for every sequence of fall-through, jump, conditional jump, destination and terminating instructions, with any resolution state",
      "Whether dead code is really dead depends on the combination of resolved, unresolved and merged jumps elsewhere in the program; fixtures have few of these combinations.",
      [("dead code", MOD + ": mark_dead_code"), ("destinations", MOD + ": recompute_reachable_jumpdests"), ("graph", CG + "passes/block_analysis.rs: rebuild_cfg, compress_redirects"), ("pass order", MOD + ": analyze")],
      (MOD, CG + "passes/block_analysis.rs")),
    P("P14", "A dropped stack write is never observed",
      "For every basic block, an instruction is dropped only if it has no effect beyond the stack and none of the slots it would have written is read before being overwritten: not by a later instruction that needs its run-time value, not by a shuffle whose result is used, not by the stack handed over at a call or create, not by a successor block, and not by a caller that inspects the stack. "
      "Instructions that fail at run time (unknown, disabled, undecodable immediates) are never dropped.",
      ["inputs", "programs"], "for every block, with any mix of known and unknown operands, deep shuffles, suspending instructions and terminators, with and without stack inspection",
      "A lost write is visible only if a particular slot is read through a particular chain of shuffles; tests check a handful of chains.",
      [("pass", CG + "passes/dead_store_elim.rs: dead_store_elim"), ("transfer", CG + "passes/dead_store_elim.rs: transfer_liveness"), ("eligibility", CG + "passes/dead_store_elim.rs: can_skip_when_dead, all_outputs_dead")],
      (CG + "passes/dead_store_elim.rs",)),
    P("P15", "Merging identical blocks does not change what the program does",
      "For every program, two blocks are merged only if an execution cannot tell them apart: same instructions and immediates, same destinations, nothing that depends on the position in the code. "
      "After merging, every way into a removed block leads to its replacement, no destination an unresolved jump could take is removed, the entry stays, a run-time dispatched jump still knows every destination of both copies, and no operand or result is treated as constant in the shared copy unless it has that value for all of the originals.",
      ["inputs", "programs"], "for every program with duplicated blocks, over repeated merging rounds",
      "Merging goes wrong only for blocks that look alike but differ in an immediate, destination, position or incoming values; tests merge blocks that are really equal.",
      [("merging", CG + "passes/dedup.rs: dedup_blocks_once"), ("identity", CG + "passes/dedup.rs: block_fingerprint, DedupKey"), ("facts", CG + "passes/block_analysis.rs: Snapshots::restore_from")],
      (CG + "passes/dedup.rs",)),
    P("P27", "Generated code for a run of instructions computes what the EVM computes",
      "For every bytecode without jumps, the code generated for it leaves the same stack, makes the same memory, storage and other runtime operations in the same order with the same operands, and charges the same static gas as executing the instructions one by one. "
      "Static gas is charged, and stack bounds are checked, before any effect of the instructions they cover, and each failure leaves with its own result code. "
      "Specialised code for known operands, values kept out of the stack memory and reused memory pointers never change the result, and where stack inspection is enabled the stack seen after halting is the EVM's.",
      ["inputs", "programs", "configurations"], "for every instruction in every position of a straight run, with any mix of known and unknown operands, shuffles, suspended values and compiler options",
      "The generated code depends on combinations of cached stack values, known operands and options; tests run only some and, without the native backend, none.",
      [("translation", CG + "compiler/translate/mod.rs: FunctionCx::translate, translate_inst"), ("virtual stack", CG + "compiler/translate/vstack.rs"), ("specialised code", CG + "compiler/translate/peephole.rs")],
      (CG + "compiler/translate/mod.rs", CG + "compiler/translate/peephole.rs", CG + "compiler/translate/vstack.rs"),
      ln="Decided on the sequence of builder operations the translator emits, for a family of programs; what a backend makes of them is not covered."),
    P("P28", "Generated code transfers control where the EVM would",
      "For every bytecode, generated code starts at the first instruction or, when resumed, right after the suspended one with the stack it left; each jump, conditional jump and run-time dispatched jump goes to the destination the EVM would take or fails as an invalid jump. "
      "Values handed from block to block, including through merged blocks, are those the EVM stack would hold. "
      "Each halt, call and create leaves with the stack, stack length and resume point that the caller needs.",
      ["inputs", "programs", "histories"], "for every program of blocks joined by known, unknown and multi-target jumps, and every suspension point with every later resumption",
      "A lost stack slot or a wrong resume point shows only along one path through one program shape; tests run few shapes and cannot inspect the generated control flow.",
      [("entry and resume", CG + "compiler/translate/mod.rs: FunctionCx::translate"), ("jumps", CG + "compiler/translate/mod.rs: translate_inst"), ("exits", CG + "compiler/translate/mod.rs: build_return, build_fail")],
      (CG + "compiler/translate/mod.rs", CG + "compiler/translate/vstack.rs"),
      ln="Decided on the sequence of builder operations the translator emits, for a family of programs; what a backend makes of them is not covered."),
]
