From 815421a20a2f4cbbc622efe74ece1aa1ad4393c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:20 +0000
Subject: [PATCH 1/8] fix: use the LOG opcodes' own offset and length operands
 in memory analysis

The offset and length of LOG1..LOG4 are on top of the topics, so the memory
size facts derived from them were those of the length and first topic.
---
 crates/revmc-codegen/src/bytecode/mod.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 2b8c5e8..72a61eb 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -710,9 +710,15 @@ impl<'a> Bytecode<'a> {
         let operand =
             |depth| self.const_operand(inst, depth).and_then(|value| u64::try_from(value).ok());
         match data.opcode {
-            op::KECCAK256 | op::RETURN | op::REVERT | op::LOG0 => {
-                [Some((operand(0), operand(1))), None]
-            }
+            // `LOG*` topics are below the offset and length on the stack.
+            op::KECCAK256
+            | op::RETURN
+            | op::REVERT
+            | op::LOG0
+            | op::LOG1
+            | op::LOG2
+            | op::LOG3
+            | op::LOG4 => [Some((operand(0), operand(1))), None],
             op::MLOAD | op::MSTORE => [Some((operand(0), Some(32))), None],
             op::MSTORE8 => [Some((operand(0), Some(1))), None],
             op::CALLDATACOPY | op::CODECOPY | op::RETURNDATACOPY => {
@@ -723,10 +729,6 @@ impl<'a> Bytecode<'a> {
                 Some((operand(0).zip(operand(1)).map(|(dst, src)| dst.max(src)), operand(2))),
                 None,
             ],
-            op::LOG1 => [Some((operand(1), operand(2))), None],
-            op::LOG2 => [Some((operand(2), operand(3))), None],
-            op::LOG3 => [Some((operand(3), operand(4))), None],
-            op::LOG4 => [Some((operand(4), operand(5))), None],
             op::CREATE | op::CREATE2 => [Some((operand(1), operand(2))), None],
             op::CALL | op::CALLCODE => {
                 [Some((operand(3), operand(4))), Some((operand(5), operand(6)))]
-- 
2.43.0


From 4572394cf396203c5355abdfaa92e414893bdc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:26 +0000
Subject: [PATCH 2/8] fix: keep deduplication fingerprints self-delimiting

Stripping zero bytes from the immediate made the fingerprints of different
instruction sequences collide.
---
 crates/revmc-codegen/src/bytecode/passes/dedup.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/dedup.rs b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
index ac0d70d..10c1531 100644
--- a/crates/revmc-codegen/src/bytecode/passes/dedup.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
@@ -203,11 +203,8 @@ fn block_fingerprint(insts: &IndexVec<Inst, InstData>, block: &BlockData) -> Sma
         let data = &insts[i];
         buf.push(data.opcode);
         if data.imm_len() > 0 {
-            let mut imm = &data.data.to_ne_bytes()[..];
-            while let [0, rest @ ..] = imm {
-                imm = rest;
-            }
-            buf.extend_from_slice(imm);
+            // Fixed width, so that immediate bytes cannot be mistaken for following opcodes.
+            buf.extend_from_slice(&data.data.to_ne_bytes());
         }
     }
     buf
-- 
2.43.0


From 68dfc2065d0af20a6905be491eef54e25b999297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:10 +0000
Subject: [PATCH 3/8] fix: let PUSH bytes in DUPN/SWAPN/EXCHANGE immediates
 mask jump destinations

---
 crates/revmc-codegen/src/bytecode/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 72a61eb..2585cfa 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -304,12 +304,13 @@ impl<'a> Bytecode<'a> {
 
             // EIP-8024: JUMPDEST analysis is unchanged by DUPN/SWAPN/EXCHANGE. Their
             // immediate byte is NOT masked, so 0x5b in that position is a valid jump
-            // target. When the immediate is 0x5b, rewind the iterator so it is re-yielded
-            // and processed as a normal JUMPDEST by the loop.
+            // target, and PUSH1..=PUSH32 in that position masks the bytes after it. When the
+            // immediate is one of these (all invalid as immediates), rewind the iterator so it
+            // is re-yielded and processed as a normal instruction by the loop.
             if matches!(opcode, op::DUPN | op::SWAPN | op::EXCHANGE)
                 && !info.is_unknown()
                 && !info.is_disabled()
-                && immediate == Some(&[op::JUMPDEST])
+                && matches!(immediate, Some(&[op::JUMPDEST..=op::PUSH32]))
             {
                 // SAFETY: we just consumed the 1-byte immediate.
                 unsafe { iter.rewind(1) };
-- 
2.43.0


From acdf9a69185bfd3fb512fc73367d384ae3b99635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:18 +0000
Subject: [PATCH 4/8] fix: treat slots below the clamped abstract stack as
 unknown

---
 .../src/bytecode/passes/block_analysis.rs              | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
index cb8afa3..cbd9339 100644
--- a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
@@ -1015,6 +1015,16 @@ impl Bytecode<'_> {
             };
 
             let block = &self.cfg.blocks[bid];
+
+            // A clamped state may be shorter than the real stack: the slots below it are unknown,
+            // not missing.
+            if stack_buf.len() >= MAX_ABS_STACK_DEPTH {
+                let section =
+                    StackSection::from_stack_io(block.insts().map(|i| self.insts[i].stack_io()));
+                let pad = (section.inputs as usize).saturating_sub(stack_buf.len());
+                stack_buf.splice(0..0, std::iter::repeat_n(AbsValue::Top, pad));
+            }
+
             if !self.interpret_block(block.insts(), &mut stack_buf) {
                 continue;
             }
-- 
2.43.0


From c12d10e850a89c0df9bf0c861b0d78d510075ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:37 +0000
Subject: [PATCH 5/8] fix: keep the current generation's entry and waiters when
 discarding a stale result

---
 crates/revmc-runtime/src/runtime/backend.rs | 26 ++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index b827df4..f993c4c 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -494,6 +494,19 @@ impl BackendState {
     fn handle_worker_result(&mut self, result: WorkerResult) {
         self.pending_jobs = self.pending_jobs.saturating_sub(1);
 
+        // Discard stale results from a previous generation (e.g. after clear).
+        if result.generation != self.generation {
+            debug!(
+                code_hash = %result.key.code_hash,
+                result_gen = result.generation,
+                current_gen = self.generation,
+                "discarding stale worker result",
+            );
+            // The key's entry, if any, belongs to a job of the current generation.
+            result.sync_notifier.notify();
+            return;
+        }
+
         // Drain pending notifiers from the entry before processing.
         let pending_notifiers = self
             .entries
@@ -508,19 +521,6 @@ impl BackendState {
             }
         };
 
-        // Discard stale results from a previous generation (e.g. after clear).
-        if result.generation != self.generation {
-            debug!(
-                code_hash = %result.key.code_hash,
-                result_gen = result.generation,
-                current_gen = self.generation,
-                "discarding stale worker result",
-            );
-            self.entries.remove(&result.key);
-            notify();
-            return;
-        }
-
         let kind = result.kind;
         let success = result.outcome.is_ok();
 
-- 
2.43.0


From 5e927bd464ca566aed41fc3b9a78f7e281e6f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:24 +0000
Subject: [PATCH 6/8] fix: keep slots below the clamped abstract stack unknown
 across blocks that pop

---
 .../revmc-codegen/src/bytecode/passes/block_analysis.rs   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
index cbd9339..398766a 100644
--- a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
@@ -1018,7 +1018,8 @@ impl Bytecode<'_> {
 
             // A clamped state may be shorter than the real stack: the slots below it are unknown,
             // not missing.
-            if stack_buf.len() >= MAX_ABS_STACK_DEPTH {
+            let clamped = stack_buf.len() >= MAX_ABS_STACK_DEPTH;
+            if clamped {
                 let section =
                     StackSection::from_stack_io(block.insts().map(|i| self.insts[i].stack_io()));
                 let pad = (section.inputs as usize).saturating_sub(stack_buf.len());
@@ -1028,6 +1029,11 @@ impl Bytecode<'_> {
             if !self.interpret_block(block.insts(), &mut stack_buf) {
                 continue;
             }
+            // Likewise for the successors, even if this block popped most of the tracked slots.
+            if clamped {
+                let pad = MAX_ABS_STACK_DEPTH.saturating_sub(stack_buf.len());
+                stack_buf.splice(0..0, std::iter::repeat_n(AbsValue::Top, pad));
+            }
             let block = &self.cfg.blocks[bid];
 
             // Discover dynamic-jump target edges from the snapshot recorded above.
-- 
2.43.0


From c00f99a1137e3586bf1fa5adb673543416a99ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:54 +0000
Subject: [PATCH 7/8] fix: do not report discarded stale compilations as in
 flight forever

---
 crates/revmc-runtime/src/runtime/backend.rs | 1 +
 crates/revmc-runtime/src/runtime/stats.rs   | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index f993c4c..ab57206 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -502,6 +502,7 @@ impl BackendState {
                 current_gen = self.generation,
                 "discarding stale worker result",
             );
+            self.inner.stats.compilations_discarded.fetch_add(1, Ordering::Relaxed);
             // The key's entry, if any, belongs to a job of the current generation.
             result.sync_notifier.notify();
             return;
diff --git a/crates/revmc-runtime/src/runtime/stats.rs b/crates/revmc-runtime/src/runtime/stats.rs
index 89de1d4..044e14e 100644
--- a/crates/revmc-runtime/src/runtime/stats.rs
+++ b/crates/revmc-runtime/src/runtime/stats.rs
@@ -21,6 +21,8 @@ pub(crate) struct RuntimeStats {
     pub(crate) compilations_succeeded: AtomicU64,
     /// Total number of failed compilations (JIT + AOT).
     pub(crate) compilations_failed: AtomicU64,
+    /// Total number of finished compilations discarded because of a clear.
+    pub(crate) compilations_discarded: AtomicU64,
     /// Total number of out-of-process JIT helper processes spawned successfully.
     pub(crate) jit_helper_spawns: AtomicU64,
     /// Total number of failed out-of-process JIT helper spawn attempts.
@@ -136,7 +138,9 @@ impl RuntimeStats {
         let dispatched = self.compilations_dispatched.load(Ordering::Relaxed);
         let succeeded = self.compilations_succeeded.load(Ordering::Relaxed);
         let failed = self.compilations_failed.load(Ordering::Relaxed);
-        let pending_jobs = dispatched.saturating_sub(succeeded.saturating_add(failed));
+        let discarded = self.compilations_discarded.load(Ordering::Relaxed);
+        let pending_jobs =
+            dispatched.saturating_sub(succeeded.saturating_add(failed).saturating_add(discarded));
 
         RuntimeStatsSnapshot {
             lookup_hits: self.lookup_hits.load(Ordering::Relaxed),
-- 
2.43.0


From 57da898e1dbb5cb95bed36feb33ed6583e7837cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:40 +0000
Subject: [PATCH 8/8] fix: inspected stack is saved when RETURN/REVERT has
 constant operands

---
 crates/revmc-codegen/src/compiler/translate/peephole.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/revmc-codegen/src/compiler/translate/peephole.rs b/crates/revmc-codegen/src/compiler/translate/peephole.rs
index a407dcb..8ee836e 100644
--- a/crates/revmc-codegen/src/compiler/translate/peephole.rs
+++ b/crates/revmc-codegen/src/compiler/translate/peephole.rs
@@ -328,6 +328,7 @@ impl<'a, B: Backend> FunctionCx<'a, B> {
             let ir_const = self.bcx.iconst(self.i8_type, ir as i64);
             let offset = self.bcx.iconst(self.isize_type, offset as i64);
             let len = self.bcx.iconst(self.isize_type, len as i64);
+            self.sync_diverging_stack_effect();
             let _ = self.call_builtin(Builtin::DoReturnCC, &[self.ecx, offset, len, ir_const]);
             self.bcx.unreachable();
             true
-- 
2.43.0

