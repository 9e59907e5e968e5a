From 8677c13d0d26577c2f1b68399187c3f1d9629715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 01/30] fix: do not fold an operand two ahead of a unary
 instruction

The operand is not consumed by that instruction, so it stayed pending and was
later taken for another value.
---
 src/parser.rs | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 73a4004..e7b1381 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -152,7 +152,7 @@ fn can_fold_i32<'a>(
             wasmparser::Operator::I32Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_i32_foldable_consumer(next_next_op)
+                is_i32_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -181,7 +181,7 @@ fn can_fold_i64<'a>(
             wasmparser::Operator::I64Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_i64_foldable_consumer(next_next_op)
+                is_i64_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -210,7 +210,7 @@ fn can_fold_f32<'a>(
             wasmparser::Operator::F32Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_f32_foldable_consumer(next_next_op)
+                is_f32_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -239,7 +239,7 @@ fn can_fold_f64<'a>(
             wasmparser::Operator::F64Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_f64_foldable_consumer(next_next_op)
+                is_f64_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -253,6 +253,38 @@ fn can_fold_f64<'a>(
     can_fold
 }
 
+/// Check if a foldable consumer takes a single operand. Such a consumer uses only the
+/// value right before it, so the 2-ahead lookahead must not fold an operand for it:
+/// that operand stays on the stack for a later instruction.
+#[inline]
+fn is_unary_consumer(op: &wasmparser::Operator) -> bool {
+    matches!(
+        op,
+        wasmparser::Operator::I32Clz
+            | wasmparser::Operator::I32Ctz
+            | wasmparser::Operator::I32Popcnt
+            | wasmparser::Operator::I32Eqz
+            | wasmparser::Operator::I64Clz
+            | wasmparser::Operator::I64Ctz
+            | wasmparser::Operator::I64Popcnt
+            | wasmparser::Operator::I64Eqz
+            | wasmparser::Operator::F32Abs
+            | wasmparser::Operator::F32Neg
+            | wasmparser::Operator::F32Ceil
+            | wasmparser::Operator::F32Floor
+            | wasmparser::Operator::F32Trunc
+            | wasmparser::Operator::F32Nearest
+            | wasmparser::Operator::F32Sqrt
+            | wasmparser::Operator::F64Abs
+            | wasmparser::Operator::F64Neg
+            | wasmparser::Operator::F64Ceil
+            | wasmparser::Operator::F64Floor
+            | wasmparser::Operator::F64Trunc
+            | wasmparser::Operator::F64Nearest
+            | wasmparser::Operator::F64Sqrt
+    )
+}
+
 /// Check if the instruction can consume an I32 operand (excluding br_if/if/loads/stores)
 /// Note: Load/Store instructions are excluded because the 2-ahead lookahead in can_fold_i32
 /// doesn't verify the type of intervening LocalGet, which can cause incorrect folding.
-- 
2.43.0


From 5c46ae249fdc4ea2615436e0f3f2dff6db87256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 02/30] fix: take branch operands from the right registers when
 their types differ

Registers are numbered per type, but the source of each operand was computed
from the number of operands of all types.
---
 src/parser.rs | 39 ++++-----------------------------------
 1 file changed, 4 insertions(+), 35 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e7b1381..58286ca 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7366,41 +7366,10 @@ fn compute_branch_regs(
         if result_count == 0 {
             Vec::new()
         } else {
-            // Get current state and compute source registers
-            let state = allocator.save_state();
-            target_result_regs
-                .iter()
-                .enumerate()
-                .map(|(i, target_reg)| {
-                    // Source register is at current_depth - result_count + i
-                    match target_reg {
-                        Reg::I32(_) => {
-                            let src_idx = state.i32_depth.saturating_sub(result_count - i);
-                            Reg::I32(src_idx as u16)
-                        }
-                        Reg::I64(_) => {
-                            let src_idx = state.i64_depth.saturating_sub(result_count - i);
-                            Reg::I64(src_idx as u16)
-                        }
-                        Reg::F32(_) => {
-                            let src_idx = state.f32_depth.saturating_sub(result_count - i);
-                            Reg::F32(src_idx as u16)
-                        }
-                        Reg::F64(_) => {
-                            let src_idx = state.f64_depth.saturating_sub(result_count - i);
-                            Reg::F64(src_idx as u16)
-                        }
-                        Reg::Ref(_) => {
-                            let src_idx = state.ref_depth.saturating_sub(result_count - i);
-                            Reg::Ref(src_idx as u16)
-                        }
-                        Reg::V128(_) => {
-                            let src_idx = state.v128_depth.saturating_sub(result_count - i);
-                            Reg::V128(src_idx as u16)
-                        }
-                    }
-                })
-                .collect()
+            // The operands are the topmost values; registers are numbered per type
+            let types: Vec<ValueType> =
+                target_result_regs.iter().map(|reg| reg.value_type()).collect();
+            allocator.peek_regs_for_types(&types)
         }
     } else {
         Vec::new()
-- 
2.43.0


From dd6e240bcf0f1771800ef196c031dd788235bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 03/30] fix: pass the operands of a branch to a loop with
 parameters

The parameter registers of a loop were never recorded, so a branch back to it
left the previous iteration's values in place.
---
 src/parser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 58286ca..b17bced 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -5233,13 +5233,22 @@ fn decode_processed_instrs_and_fixups<'a>(
                     // Calculate result_regs at block entry depth
                     let result_types = get_block_result_types(&blockty, module);
                     let result_regs: Vec<Reg> = {
-                        let mut state = saved_state;
+                        let mut state = saved_state.clone();
                         result_types
                             .iter()
                             .map(|vtype| state.next_reg_for_type(vtype))
                             .collect()
                     };
 
+                    // A branch to a loop passes the loop's parameters
+                    let param_regs: Vec<Reg> = {
+                        let mut state = saved_state;
+                        param_types
+                            .iter()
+                            .map(|vtype| state.next_reg_for_type(vtype))
+                            .collect()
+                    };
+
                     // Push params back - they're still on the stack inside the block
                     for vtype in param_types.iter() {
                         allocator.push(*vtype);
@@ -5253,7 +5262,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         block_type: *blockty,
                         is_loop,
                         result_regs: result_regs.into(),
-                        param_regs: Vec::new(),
+                        param_regs,
                     });
 
                     let instr = ProcessedInstr::BlockReg {
-- 
2.43.0


From 63d6ce8798e9f39bdd9d7fde8b7a41b34c803c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 04/30] fix: return the results of a branch to the function
 body

br and br_if to the outermost label jumped past the end without handing over
their operands, and br_table to it restarted the function.
---
 src/parser.rs | 60 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b17bced..e6eb22b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1371,8 +1371,8 @@ fn preprocess_instructions(
 
         if current_control_stack_pass2.len() <= current_fixup_depth {
             // Depth exceeds control stack - this is a branch to function level (return)
-            // Set target_ip to end of function (processed.len())
-            let function_end_ip = processed.len();
+            // Set target_ip to the End of the function body, which hands over its results
+            let function_end_ip = processed.len() - 1;
             if let Some(instr_to_patch) = processed.get_mut(current_fixup_pc) {
                 if let ProcessedInstr::BrReg {
                     target_ip: ref mut tip,
@@ -1544,7 +1544,12 @@ fn preprocess_instructions(
                     for (rel_depth, _, result_regs) in targets_clone.iter() {
                         let depth = *rel_depth as usize;
                         if current_control_stack_pass3.len() <= depth {
-                            resolved_reg_targets.push((*rel_depth, 0, result_regs.clone())); // Invalid
+                            // Branch to function level: the End of the function body
+                            resolved_reg_targets.push((
+                                *rel_depth,
+                                processed.len() - 1,
+                                result_regs.clone(),
+                            ));
                             continue;
                         }
                         let target_stack_level = current_control_stack_pass3.len() - 1 - depth;
@@ -1562,7 +1567,7 @@ fn preprocess_instructions(
                     // Compute target_ip for default target
                     // Note: block_end_map already stores End + 1 position
                     let default_target_ip = if current_control_stack_pass3.len() <= default_depth {
-                        0 // Invalid
+                        processed.len() - 1 // Branch to function level
                     } else {
                         let target_stack_level =
                             current_control_stack_pass3.len() - 1 - default_depth;
@@ -1921,6 +1926,15 @@ fn decode_processed_instrs_and_fixups<'a>(
     use crate::execution::regs::RegAllocator;
     let mut reg_allocator = Some(RegAllocator::new(locals));
 
+    // Registers holding the function's results when its body ends
+    let function_result_regs: Vec<Reg> = {
+        let mut state = RegAllocator::new(locals).save_state();
+        result_types
+            .iter()
+            .map(|vtype| state.next_reg_for_type(vtype))
+            .collect()
+    };
+
     // Track allocator state at block entry for proper restoration on block exit
     let mut allocator_state_stack: Vec<crate::execution::regs::RegAllocatorState> = Vec::new();
 
@@ -5179,8 +5193,13 @@ fn decode_processed_instrs_and_fixups<'a>(
                         result_types.to_vec()
                     };
 
-                    // Get the top N registers based on result types
-                    let source_regs = allocator.peek_regs_for_types(&result_type_vec);
+                    // Get the top N registers based on result types. The end of the function
+                    // body is also the target of branches, so its registers are fixed.
+                    let source_regs = if control_info_stack.is_empty() {
+                        function_result_regs.clone()
+                    } else {
+                        allocator.peek_regs_for_types(&result_type_vec)
+                    };
 
                     // Get target_result_regs from ControlBlockInfo BEFORE restoring state
                     let target_result_regs = if let Some(block_info) = control_info_stack.last() {
@@ -5522,6 +5541,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         &control_info_stack,
                         *relative_depth as usize,
                         reg_allocator.as_ref(),
+                        &function_result_regs,
                     );
 
                     let instr = ProcessedInstr::BrReg {
@@ -5552,6 +5572,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         &control_info_stack,
                         *relative_depth as usize,
                         reg_allocator.as_ref(),
+                        &function_result_regs,
                     );
 
                     let instr = ProcessedInstr::BrIfReg {
@@ -5589,6 +5610,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                             &control_info_stack,
                             *depth as usize,
                             reg_allocator.as_ref(),
+                            &function_result_regs,
                         );
                         table_targets.push((
                             *depth,
@@ -5603,6 +5625,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         &control_info_stack,
                         targets.default() as usize,
                         reg_allocator.as_ref(),
+                        &function_result_regs,
                     );
                     let default_target = (
                         targets.default(),
@@ -7347,25 +7370,28 @@ fn decode_processed_instrs_and_fixups<'a>(
 /// Compute source_regs and target_result_regs for branch instructions
 /// source_regs: current stack top registers that will be copied
 /// target_result_regs: where to copy them (the target block's result registers, or param_regs for loops)
+///
+/// A branch past the outermost block targets the function body itself, whose result
+/// registers are `function_result_regs`.
 fn compute_branch_regs(
     control_info_stack: &[ControlBlockInfo],
     relative_depth: usize,
     reg_allocator: Option<&RegAllocator>,
+    function_result_regs: &[Reg],
 ) -> (Vec<Reg>, Vec<Reg>) {
     // Get target block from control_info_stack
     let stack_len = control_info_stack.len();
-    if stack_len == 0 || relative_depth >= stack_len {
-        return (Vec::new(), Vec::new());
-    }
-
-    let target_idx = stack_len - 1 - relative_depth;
-    let target_block = &control_info_stack[target_idx];
-    // For loops, use param_regs (branch provides parameters)
-    // For blocks/if, use result_regs (branch provides results)
-    let target_result_regs = if target_block.is_loop {
-        target_block.param_regs.clone()
+    let target_result_regs = if relative_depth >= stack_len {
+        function_result_regs.to_vec()
     } else {
-        target_block.result_regs.clone()
+        let target_block = &control_info_stack[stack_len - 1 - relative_depth];
+        // For loops, use param_regs (branch provides parameters)
+        // For blocks/if, use result_regs (branch provides results)
+        if target_block.is_loop {
+            target_block.param_regs.clone()
+        } else {
+            target_block.result_regs.clone()
+        }
     };
 
     // Compute source_regs from current allocator state
-- 
2.43.0


From 288cc3784ce0a773be8cfd15712406e5067b802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 05/30] fix: trap when a float is one past the integer range in
 i32.trunc_f32

i32::MAX and u32::MAX round up as f32, so 2147483648.0 and 4294967296.0 passed
the check and were clamped.
---
 src/execution/handlers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 2a40f8d..287c3f1 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -1149,7 +1149,7 @@ macro_rules! conv_trap {
                 return trap(state);
             }
             let t = v.trunc();
-            if t < $min || t > $max {
+            if t < $min || t >= $max {
                 state.trap = Some(RuntimeError::IntegerOverflow);
                 return trap(state);
             }
@@ -1166,7 +1166,7 @@ conv_trap!(
     write_dst_i32,
     f32,
     i32::MIN as f32,
-    i32::MAX as f32,
+    2147483648.0_f32,
     |t: f32| t as i32
 );
 conv_trap!(
@@ -1175,7 +1175,7 @@ conv_trap!(
     write_dst_i32,
     f32,
     0.0_f32,
-    u32::MAX as f32,
+    4294967296.0_f32,
     |t: f32| (t as u32) as i32
 );
 conv_trap!(
@@ -1184,7 +1184,7 @@ conv_trap!(
     write_dst_i32,
     f64,
     i32::MIN as f64,
-    i32::MAX as f64,
+    2147483648.0_f64,
     |t: f64| t as i32
 );
 conv_trap!(
@@ -1193,7 +1193,7 @@ conv_trap!(
     write_dst_i32,
     f64,
     0.0_f64,
-    u32::MAX as f64,
+    4294967296.0_f64,
     |t: f64| (t as u32) as i32
 );
 
-- 
2.43.0


From c90a401ba0268e64452dcc3fbbacd408d003adb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 06/30] fix: select references from the reference registers

A typed select on references ran the i64 handler, on unrelated registers.
---
 src/execution/handlers.rs | 4 ++++
 src/execution/stats.rs    | 3 ++-
 src/execution/trace.rs    | 3 ++-
 src/parser.rs             | 2 +-
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 287c3f1..7612e7f 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -293,6 +293,8 @@ pub const HANDLER_IDX_REF_LOCAL_SET: usize = 0x102;
 // WASI call handler constant
 pub const HANDLER_IDX_CALL_WASI: usize = 0x103;
 
+pub const HANDLER_IDX_SELECT_REF: usize = 0x104;
+
 // ============================================================================
 // advance! macro — the difference between tco and non-tco mode
 // ============================================================================
@@ -1391,6 +1393,7 @@ select!(select_i32, get_i32, set_i32);
 select!(select_i64, get_i64, set_i64);
 select!(select_f32, get_f32, set_f32);
 select!(select_f64, get_f64, set_f64);
+select!(select_ref, get_ref, set_ref);
 
 // ============================================================================
 // Nop / Unreachable
@@ -2298,6 +2301,7 @@ pub fn select_handler(instr: &ProcessedInstr) -> Handler {
             HANDLER_IDX_SELECT_I64 => select_i64,
             HANDLER_IDX_SELECT_F32 => select_f32,
             HANDLER_IDX_SELECT_F64 => select_f64,
+            HANDLER_IDX_SELECT_REF => select_ref,
             _ => invalid,
         },
         ProcessedInstr::GlobalGetReg { handler_index, .. } => match *handler_index {
diff --git a/src/execution/stats.rs b/src/execution/stats.rs
index 9381a3c..76a531e 100644
--- a/src/execution/stats.rs
+++ b/src/execution/stats.rs
@@ -52,7 +52,8 @@ impl ExecutionStats {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/execution/trace.rs b/src/execution/trace.rs
index c45a8b8..fdc0328 100644
--- a/src/execution/trace.rs
+++ b/src/execution/trace.rs
@@ -325,7 +325,8 @@ impl Tracer {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/parser.rs b/src/parser.rs
index e6eb22b..75b4248 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7106,7 +7106,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         ValueType::NumType(NumType::I64) => HANDLER_IDX_SELECT_I64,
                         ValueType::NumType(NumType::F32) => HANDLER_IDX_SELECT_F32,
                         ValueType::NumType(NumType::F64) => HANDLER_IDX_SELECT_F64,
-                        ValueType::RefType(_) => HANDLER_IDX_SELECT_I64,
+                        ValueType::RefType(_) => HANDLER_IDX_SELECT_REF,
                         ValueType::VecType(_) => panic!("VecType not supported for Select"),
                     };
 
-- 
2.43.0


From a58f34a9049df90fc4e7d966e7c01dd978f2f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 07/30] fix: default-initialise reference locals of called
 functions to null

Calling a function with a reference-typed local panicked; the entry function
already initialised them.
---
 src/execution/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 8795437..b56d064 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -12,7 +12,7 @@ use crate::execution::state::{Frame, FrameStack, Label, LabelStack, ModuleLevelI
 use crate::execution::stats::ExecutionStats;
 #[cfg(feature = "trace")]
 use crate::execution::trace::{TraceConfig, Tracer};
-use crate::execution::value::{Num, Val, Vec_};
+use crate::execution::value::{Num, Ref, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{NumType, ValueType, VecType};
 use crate::wasi::{WasiError, WasiResult};
@@ -1045,7 +1045,7 @@ impl Val {
             ValueType::NumType(NumType::F32) => Ok(Val::Num(Num::F32(0.0))),
             ValueType::NumType(NumType::F64) => Ok(Val::Num(Num::F64(0.0))),
             ValueType::VecType(VecType::V128) => Ok(Val::Vec_(Vec_::V128(0))),
-            ValueType::RefType(_) => todo!("Default value for RefType"),
+            ValueType::RefType(_) => Ok(Val::Ref(Ref::RefNull)),
         }
     }
 }
-- 
2.43.0


From d127ccae946a87183363c2b37989bc76e57630c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 08/30] fix: make memory.grow return -1 when it cannot grow

A delta above 2^31-1 trapped, a sum overflowing i32 (or 65536 pages on a 32-bit
host) emptied the memory, and a failed allocation aborted.
---
 src/execution/handlers.rs | 11 ++---------
 src/execution/mem.rs      | 35 ++++++++++++++++-------------------
 2 files changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 7612e7f..94bd46e 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -1999,15 +1999,8 @@ pub fn mem_grow(state: &mut VmState) -> Outcome {
             return trap(state);
         }
     };
-    let delta = state.reg_file().get_i32(args[0].index());
-    let delta_u32: u32 = match delta.try_into() {
-        Ok(v) => v,
-        Err(_) => {
-            state.trap = Some(RuntimeError::InvalidParameterCount);
-            return trap(state);
-        }
-    };
-    let prev_size = mem_addr.mem_grow(delta_u32 as i32);
+    let delta = state.reg_file().get_i32(args[0].index()) as u32;
+    let prev_size = mem_addr.mem_grow(delta);
     if let Some(d) = dst {
         state.reg_file_mut().set_i32(d.index(), prev_size);
     }
diff --git a/src/execution/mem.rs b/src/execution/mem.rs
index 8c51a29..0ea380c 100644
--- a/src/execution/mem.rs
+++ b/src/execution/mem.rs
@@ -88,28 +88,25 @@ impl MemAddr {
     }
 
     /// Grows memory by the given number of pages. Returns previous size or -1 on failure.
-    pub fn mem_grow(&self, size: i32) -> i32 {
+    pub fn mem_grow(&self, size: u32) -> i32 {
         let prev_size = self.mem_size();
-        let new = prev_size + size;
 
-        // Safety: Single-threaded access
-        let mem = unsafe { &*self.mem_inst.get() };
-        let max_pages = mem._type_.0.max;
-
-        if let Some(max) = max_pages {
-            if new > max as i32 {
-                return -1;
-            }
-        }
-
-        if new > 65536 {
-            -1
-        } else {
-            // Safety: Single-threaded access, no overlapping borrows
-            let mem = unsafe { &mut *self.mem_inst.get() };
-            mem.data.resize(new as usize * 65536, 0);
-            prev_size
+        // Safety: Single-threaded access, no overlapping borrows
+        let mem = unsafe { &mut *self.mem_inst.get() };
+        let max = mem._type_.0.max.unwrap_or(65536);
+
+        let new_len = match (prev_size as u32).checked_add(size) {
+            Some(new) if new <= max => match (new as usize).checked_mul(65536) {
+                Some(len) => len,
+                None => return -1,
+            },
+            _ => return -1,
+        };
+        if mem.data.try_reserve(new_len - mem.data.len()).is_err() {
+            return -1;
         }
+        mem.data.resize(new_len, 0);
+        prev_size
     }
 
     /// Returns a copy of all memory contents.
-- 
2.43.0


From f5569673ed1c6d7288f3965bd41872d20d58c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 09/30] fix: check the bounds of a memory.init of length zero

---
 src/execution/handlers.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 94bd46e..dbea2f1 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -2055,9 +2055,8 @@ pub fn mem_init(state: &mut VmState) -> Outcome {
     let dest = regs.get_i32(args[0].index()) as usize;
     let offset = regs.get_i32(args[1].index()) as usize;
     let len = regs.get_i32(args[2].index()) as usize;
-    if len > 0 {
-        mem_addr.init(dest, &data_bytes[offset..offset + len]);
-    }
+    // Out of bounds (even for a length of zero): slicing panics, host runtime traps.
+    mem_addr.init(dest, &data_bytes[offset..offset + len]);
     state.pc += 1;
     advance!(state)
 }
-- 
2.43.0


From 9fb4f4af4c21faa30f81ea60a88472187bfe3e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 10/30] fix: count instructions towards the checkpoint poll
 across frames

---
 src/execution/runtime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index b56d064..09c3f7d 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -32,6 +32,8 @@ pub struct Runtime {
     #[cfg_attr(not(feature = "stats"), allow(dead_code))]
     enable_stats: bool,
     enable_checkpoint: bool,
+    /// Instructions counted towards the next checkpoint poll, kept across frames.
+    checkpoint_poll_counter: u32,
 }
 
 impl Drop for Runtime {
@@ -82,6 +84,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         })
     }
 
@@ -120,6 +123,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         }
     }
 
@@ -169,10 +173,11 @@ impl Runtime {
             yielded: None,
             return_result_regs: return_result_regs_ptr,
             enable_checkpoint,
-            checkpoint_poll_counter: 0,
+            checkpoint_poll_counter: self.checkpoint_poll_counter,
         };
 
         let outcome = dispatch::execute_instructions(&mut state);
+        self.checkpoint_poll_counter = state.checkpoint_poll_counter;
 
         let idx = state.current_label_idx;
         if idx < state.label_stack().len() {
-- 
2.43.0


From a191fcfd4dd67757608e4a97d1e1a81029827e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 11/30] fix: keep polling for checkpoints in the callers of a
 restored frame

---
 src/execution/runtime.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 09c3f7d..f8d9fb1 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -224,8 +224,9 @@ impl Runtime {
             }
         }
 
-        // Set checkpoint enabled flag for initial frame stack
-        if let Some(frame_stack) = self.stacks.activation_frame_stack.first_mut() {
+        // Set checkpoint enabled flag for the initial frame stack, and for every
+        // frame of a restored one (the flag is not part of a checkpoint)
+        for frame_stack in self.stacks.activation_frame_stack.iter_mut() {
             frame_stack.enable_checkpoint = self.enable_checkpoint;
         }
 
-- 
2.43.0


From 6f3888a0ea8687f181b7aa143bf830c2852f3ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 12/30] fix: never leave a half-written checkpoint behind

---
 src/execution/migration.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 0543d7a..25e2b33 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -46,7 +46,7 @@ use crate::execution::value::Val;
 use serde::{Deserialize, Serialize};
 use std::fs::File;
 use std::io::{Read, Write};
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::thread;
@@ -263,10 +263,19 @@ pub fn checkpoint<P: AsRef<Path>>(
 
     println!("  total encoded:      {} bytes", encoded.len());
 
-    let mut file =
-        File::create(output_path).map_err(|e| RuntimeError::CheckpointSaveError(e.to_string()))?;
-    file.write_all(&encoded)
-        .map_err(|e| RuntimeError::CheckpointSaveError(e.to_string()))?;
+    // Write to a temporary file first, so that a save that fails half way never
+    // destroys an earlier checkpoint or leaves a truncated one in its place.
+    let output_path = output_path.as_ref();
+    let mut tmp_path = output_path.as_os_str().to_owned();
+    tmp_path.push(".tmp");
+    let tmp_path = PathBuf::from(tmp_path);
+    File::create(&tmp_path)
+        .and_then(|mut file| file.write_all(&encoded))
+        .and_then(|()| std::fs::rename(&tmp_path, output_path))
+        .map_err(|e| {
+            let _ = std::fs::remove_file(&tmp_path);
+            RuntimeError::CheckpointSaveError(e.to_string())
+        })?;
 
     println!("Checkpoint successful.");
     Ok(())
-- 
2.43.0


From a5ccefcd9d40bafb04047790238cfd6648fedefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 13/30] fix: checkpoint tables, dropped data segments and
 function references

---
 doc/architecture.md        |   5 +-
 doc/migration.md           |   8 +--
 src/execution/migration.rs | 124 +++++++++++++++++++++++++++++++++----
 3 files changed, 117 insertions(+), 20 deletions(-)

diff --git a/doc/architecture.md b/doc/architecture.md
index 6980f27..bb3cbd7 100644
--- a/doc/architecture.md
+++ b/doc/architecture.md
@@ -52,10 +52,7 @@ Enables live migration by serializing runtime state:
 - Execution stacks and program counters
 - Memory contents
 - Global values
-
-Tables are not included in the checkpoint: they are deterministically
-re-initialized from the module's element segments during instantiation, so
-storing them would be redundant.
+- Table contents (as function indices) and dropped data segments
 
 ## Execution Flow
 
diff --git a/doc/migration.md b/doc/migration.md
index d787051..7271f71 100644
--- a/doc/migration.md
+++ b/doc/migration.md
@@ -28,16 +28,14 @@ A checkpoint captures:
 - **Memory**: Complete linear memory contents
 - **Globals**: All global variable values
 
-Tables are intentionally excluded. They are deterministically initialized
-from the module's element segments at instantiation time, so the original
-contents can always be reproduced from the (immutable) module bytes —
-serializing them would only bloat the checkpoint.
+- **Tables**: Table contents, as function indices, and which data segments were
+  dropped
 
 ### Restore Process
 
 1. **Load**: Read checkpoint file
 2. **Deserialize**: Reconstruct state structures
-3. **Apply**: Restore memory and globals to the module instance
+3. **Apply**: Restore memory, globals and tables to the module instance
 4. **Rebuild derived state**: Re-attach fields that the checkpoint deliberately
    skipped (they can be re-derived from the module):
    - `processed_instrs` — refilled from each frame's function body
diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 25e2b33..b1ba7a0 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -9,13 +9,13 @@
 //! - Activation frame stack with register file and per-frame locals
 //! - Linear memory contents (LZ4 compressed)
 //! - Global variable values
+//! - Table contents and function references, as function indices
+//! - Which data segments were dropped
 //! - Per-frame function indices (used to rebuild skipped `Rc` fields on restore)
 //!
 //! `FrameStack` fields that are derived from the module instance
 //! (`handlers`, `processed_instrs`, `primary_mem`, `cached_mem_ptr`) are
-//! `#[serde(skip)]` and reconstructed during `restore`. Tables are excluded:
-//! they are deterministically initialized from element segments during
-//! module instantiation.
+//! `#[serde(skip)]` and reconstructed during `restore`.
 //!
 //! ## Trigger Mechanisms
 //!
@@ -37,12 +37,12 @@
 //! `runtime.rs` translates into a `checkpoint` call.
 
 use crate::error::RuntimeError;
-use crate::execution::func::FuncInst;
+use crate::execution::func::{FuncAddr, FuncInst};
 use crate::execution::global::GlobalAddr;
 use crate::execution::mem::MemAddr;
 use crate::execution::module::ModuleInst;
 use crate::execution::state::{Stacks, VmState};
-use crate::execution::value::Val;
+use crate::execution::value::{Ref, Val};
 use serde::{Deserialize, Serialize};
 use std::fs::File;
 use std::io::{Read, Write};
@@ -144,15 +144,46 @@ const CHECKPOINT_POLL_MASK: u32 = 0x3FF;
 /// - Call stack and register state
 /// - Linear memory contents (LZ4 compressed)
 /// - Global variable values
-///
-/// Tables are excluded: they are deterministically initialized from element
-/// segments during module instantiation.
+/// - Table contents, as function indices (element segments only give their
+///   initial contents)
+/// - The indices of dropped data segments
+/// - Function references held by reference registers and locals: they are null
+///   in `stacks`, and listed here with the index of their function
 #[derive(Serialize, Deserialize, Debug)]
 pub struct SerializableState {
     pub stacks: Stacks,
     pub memory_data_compressed: Vec<u8>,
     pub global_values: Vec<Val>,
     pub frame_func_indices: Vec<u32>,
+    pub tables: Vec<Vec<Option<u32>>>,
+    pub dropped_data: Vec<u32>,
+    pub ref_reg_funcs: Vec<(u32, u32)>,
+    pub local_funcs: Vec<(u32, u32, u32)>,
+}
+
+/// Takes a function reference out of `r`, and returns the index of its function.
+fn take_func_ref(module_inst: &ModuleInst, r: &mut Ref) -> Result<Option<u32>, RuntimeError> {
+    let idx = match r {
+        Ref::FuncAddr(func_addr) => module_inst
+            .func_addrs
+            .iter()
+            .position(|f| Rc::ptr_eq(f.get_rc(), func_addr.get_rc()))
+            .ok_or_else(|| {
+                RuntimeError::SerializationError("reference to a foreign function".to_string())
+            })?,
+        _ => return Ok(None),
+    };
+    *r = Ref::RefNull;
+    Ok(Some(idx as u32))
+}
+
+/// Looks up a function reference of a checkpoint.
+fn func_ref(module_inst: &ModuleInst, idx: u32) -> Result<FuncAddr, RuntimeError> {
+    module_inst
+        .func_addrs
+        .get(idx as usize)
+        .cloned()
+        .ok_or_else(|| RuntimeError::DeserializationError(format!("no function {}", idx)))
 }
 
 /// Serializes runtime state to a checkpoint file.
@@ -205,14 +236,56 @@ pub fn checkpoint<P: AsRef<Path>>(
         })
         .collect::<Vec<u32>>();
 
-    // 4. Assemble state
+    // 4. Gather table state, dropped data segments and function references
+    let mut tables = Vec::new();
+    for table_addr in &module_inst.table_addrs {
+        let mut elems = Vec::new();
+        for elem in table_addr.read_lock().elem.iter() {
+            elems.push(match elem {
+                Val::Ref(r) => take_func_ref(module_inst, &mut r.clone())?,
+                _ => None,
+            });
+        }
+        tables.push(elems);
+    }
+    let dropped_data = module_inst
+        .data_addrs
+        .iter()
+        .enumerate()
+        .filter(|(_, data_addr)| data_addr.get_data().is_empty())
+        .map(|(i, _)| i as u32)
+        .collect();
+
+    let mut stacks = stacks.clone();
+    let mut ref_reg_funcs = Vec::new();
+    for (i, r) in stacks.reg_file.ref_regs.iter_mut().enumerate() {
+        if let Some(idx) = take_func_ref(module_inst, r)? {
+            ref_reg_funcs.push((i as u32, idx));
+        }
+    }
+    let mut local_funcs = Vec::new();
+    for (i, frame_stack) in stacks.activation_frame_stack.iter_mut().enumerate() {
+        for (j, local) in frame_stack.frame.locals.iter_mut().enumerate() {
+            if let Val::Ref(r) = local {
+                if let Some(idx) = take_func_ref(module_inst, r)? {
+                    local_funcs.push((i as u32, j as u32, idx));
+                }
+            }
+        }
+    }
+
+    // 5. Assemble state
     // Note: Register file is already compact because restore_offsets() truncates
     // register vectors on function return, so no checkpoint-time compaction needed.
     let state = SerializableState {
-        stacks: stacks.clone(),
+        stacks,
         memory_data_compressed,
         global_values,
         frame_func_indices,
+        tables,
+        dropped_data,
+        ref_reg_funcs,
+        local_funcs,
     };
 
     // 6. Serialize and write (with per-component size diagnostics)
@@ -327,7 +400,36 @@ pub fn restore<P: AsRef<Path>>(
         );
     }
 
-    // 5. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
+    // 5. Restore tables, dropped data segments and function references
+    for (table_addr, elems) in module_inst.table_addrs.iter().zip(state.tables) {
+        let elems = elems
+            .into_iter()
+            .map(|elem| elem.map(|idx| func_ref(&module_inst, idx)).transpose())
+            .collect::<Result<Vec<_>, RuntimeError>>()?;
+        table_addr.set_elements(elems)?;
+    }
+    for idx in state.dropped_data {
+        if let Some(data_addr) = module_inst.data_addrs.get(idx as usize) {
+            data_addr.drop_data();
+        }
+    }
+    for (reg, idx) in state.ref_reg_funcs {
+        if let Some(r) = state.stacks.reg_file.ref_regs.get_mut(reg as usize) {
+            *r = Ref::FuncAddr(func_ref(&module_inst, idx)?);
+        }
+    }
+    for (frame, local, idx) in state.local_funcs {
+        if let Some(v) = state
+            .stacks
+            .activation_frame_stack
+            .get_mut(frame as usize)
+            .and_then(|frame_stack| frame_stack.frame.locals.get_mut(local as usize))
+        {
+            *v = Val::Ref(Ref::FuncAddr(func_ref(&module_inst, idx)?));
+        }
+    }
+
+    // 6. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
     let primary_mem = module_inst.mem_addrs.first().cloned();
     for (frame_stack, &func_idx) in state
         .stacks
-- 
2.43.0


From e2743e61b84fecaf43e5c30f88ba72044319d9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 14/30] fix: honour checkpoint requests in modules that import
 no WASI function

---
 src/execution/migration.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index b1ba7a0..010833c 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -125,13 +125,15 @@ fn do_poll_checkpoint(state: &mut VmState) -> bool {
         if state.checkpoint_poll_counter & CHECKPOINT_POLL_MASK != 0 {
             return false;
         }
-        if let Some(ref wasi) = state.module().wasi_impl {
-            if wasi.check_file_exists(CHECKPOINT_TRIGGER_FILE) {
-                let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
-                return true;
-            }
+        // A module that imports no WASI function has no WASI implementation
+        let triggered = match state.module().wasi_impl {
+            Some(ref wasi) => wasi.check_file_exists(CHECKPOINT_TRIGGER_FILE),
+            None => Path::new(CHECKPOINT_TRIGGER_FILE).exists(),
+        };
+        if triggered {
+            let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
         }
-        false
+        triggered
     }
 }
 
-- 
2.43.0


From 31613cee43d78bc58b0233ce5a2c6bec85ded0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 15/30] hook: poll for checkpoints at every instruction under
 cfg(chiwawa_verif)

---
 src/execution/migration.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 010833c..dbfea86 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -138,7 +138,11 @@ fn do_poll_checkpoint(state: &mut VmState) -> bool {
 }
 
 /// Throttle interval for non-atomics file polling (= every 1024 instructions).
+#[cfg(not(chiwawa_verif))]
 const CHECKPOINT_POLL_MASK: u32 = 0x3FF;
+/// Poll at every instruction, to checkpoint at any chosen one.
+#[cfg(chiwawa_verif)]
+const CHECKPOINT_POLL_MASK: u32 = 0;
 
 /// Complete runtime state for checkpoint serialization.
 ///
-- 
2.43.0


From 8c83c0f192bea616a71e2a5eec81f2a0826ba787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 16/30] fix: refuse to run a module that is invalid or cannot
 be parsed

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 163dc3f..6e4dfe7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -146,7 +146,8 @@ fn main() -> Result<()> {
     }
 
     let mut module = Module::new("test");
-    let _ = parser::parse_bytecode(&mut module, &cli.wasm_file);
+    wasmparser::validate(&std::fs::read(&cli.wasm_file)?)?;
+    parser::parse_bytecode(&mut module, &cli.wasm_file).map_err(|e| anyhow::anyhow!("{}", e))?;
     let imports: ImportObjects = FxHashMap::default();
 
     let mut wasm_argv = vec![cli.wasm_file.clone()];
-- 
2.43.0


From 140cbd8ab4ea8ac68bbe4f97b1354586d320d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 17/30] fix: drop active data segments once they are copied

---
 src/execution/module.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/execution/module.rs b/src/execution/module.rs
index 6826a00..5b83970 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -186,6 +186,8 @@ impl ModuleInst {
                 };
 
                 module_inst.mem_addrs[idx as usize].init(offset as usize, &init);
+                // An active segment is dropped once it is copied
+                module_inst.data_addrs.last().unwrap().drop_data();
             }
         }
 
-- 
2.43.0


From 28e8f7c5396116437d3a6315aa9cbf3e926b53d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 18/30] fix: run the start function of a module

---
 src/main.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 6e4dfe7..52fef09 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -195,6 +195,23 @@ fn main() -> Result<()> {
         let result = runtime.run();
         handle_result(result);
     } else {
+        if let Some(start) = &module.start {
+            let start_result = Runtime::new(
+                Rc::clone(&inst),
+                &inst.func_addrs[start.func.0 as usize],
+                Vec::new(),
+                false,
+                false,
+                #[cfg(feature = "trace")]
+                None,
+            )
+            .and_then(|mut runtime| runtime.run());
+            if start_result.is_err() {
+                handle_result(start_result);
+                return Ok(());
+            }
+        }
+
         let func_addr = inst.get_export_func(&cli.invoke)?;
         let params = parse_params(cli.params.unwrap_or_default());
 
-- 
2.43.0


From 4869e8937e7b7c527abdae1fe94a2fc359ab927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 19/30] fix: initialise tables from element segments made of
 expressions

---
 src/execution/module.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/execution/module.rs b/src/execution/module.rs
index 5b83970..157628f 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -163,6 +163,17 @@ impl ModuleInst {
                     &module_inst.func_addrs,
                     &init,
                 );
+                for (i, expr) in elem.init.iter().flatten().enumerate() {
+                    let val = match &expr.0[..] {
+                        [Instr::RefFunc(f)] => Val::Ref(Ref::FuncAddr(
+                            module_inst.func_addrs.get_by_idx(*f).clone(),
+                        )),
+                        _ => module_inst
+                            .expr_to_const(expr)
+                            .ok_or(RuntimeError::InvalidConstantExpression)?,
+                    };
+                    module_inst.table_addrs[table_idx as usize].set(offset as usize + i, val);
+                }
             }
         }
 
-- 
2.43.0


From 164040a45728a607a88db0f43c0abe41726f7d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 20/30] fix: report executed instructions to the tracer and the
 statistics

---
 src/execution/dispatch_loop.rs |  3 +++
 src/execution/dispatch_tco.rs  |  2 ++
 src/execution/handlers.rs      |  2 ++
 src/execution/runtime.rs       | 12 +++++++++++
 src/execution/state.rs         | 38 ++++++++++++++++++++++++++++++++++
 5 files changed, 57 insertions(+)

diff --git a/src/execution/dispatch_loop.rs b/src/execution/dispatch_loop.rs
index 32205a4..c9541c7 100644
--- a/src/execution/dispatch_loop.rs
+++ b/src/execution/dispatch_loop.rs
@@ -43,6 +43,9 @@ pub fn execute_instructions(state: &mut VmState) -> Outcome {
             }
         }
 
+        #[cfg(any(feature = "stats", feature = "trace"))]
+        state.instrument();
+
         let h = unsafe { *state.handlers.add(state.pc) };
         match h(state) {
             Outcome::Continue => continue,
diff --git a/src/execution/dispatch_tco.rs b/src/execution/dispatch_tco.rs
index 1937945..1e7f99f 100644
--- a/src/execution/dispatch_tco.rs
+++ b/src/execution/dispatch_tco.rs
@@ -27,6 +27,8 @@ pub fn execute_instructions(state: &mut VmState) -> Outcome {
     if state.pc >= state.instrs_len {
         return Outcome::Halt;
     }
+    #[cfg(any(feature = "stats", feature = "trace"))]
+    state.instrument();
     let h = unsafe { *state.handlers.add(state.pc) };
     h(state)
 }
diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index dbea2f1..e96d17f 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -347,6 +347,8 @@ pub unsafe fn next_handler(state: &mut VmState) -> Handler {
     if crate::execution::migration::poll_checkpoint(state) {
         checkpoint_trap
     } else {
+        #[cfg(any(feature = "stats", feature = "trace"))]
+        state.instrument();
         *state.handlers.add(state.pc)
     }
 }
diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index f8d9fb1..df625c6 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -174,6 +174,18 @@ impl Runtime {
             return_result_regs: return_result_regs_ptr,
             enable_checkpoint,
             checkpoint_poll_counter: self.checkpoint_poll_counter,
+            #[cfg(feature = "stats")]
+            stats: self
+                .execution_stats
+                .as_mut()
+                .map_or(std::ptr::null_mut(), |stats| stats as *mut _),
+            #[cfg(feature = "trace")]
+            tracer: self
+                .tracer
+                .as_mut()
+                .map_or(std::ptr::null_mut(), |tracer| tracer as *mut _),
+            #[cfg(feature = "trace")]
+            locals_len: frame_stack.frame.locals.len(),
         };
 
         let outcome = dispatch::execute_instructions(&mut state);
diff --git a/src/execution/state.rs b/src/execution/state.rs
index 8b9cdf6..f3d9eb7 100644
--- a/src/execution/state.rs
+++ b/src/execution/state.rs
@@ -7,6 +7,10 @@
 //! (required for `return_call_indirect` type identity in TCO mode).
 
 use crate::error::RuntimeError;
+#[cfg(feature = "stats")]
+use crate::execution::stats::ExecutionStats;
+#[cfg(feature = "trace")]
+use crate::execution::trace::Tracer;
 use crate::execution::func::{FuncAddr, FuncInst};
 use crate::execution::ir::{Handler, ProcessedInstr};
 use crate::execution::mem::MemAddr;
@@ -54,9 +58,43 @@ pub struct VmState {
     /// Counter for non-atomics-target checkpoint poll throttling.
     /// Incremented by `migration::poll_checkpoint`
     pub checkpoint_poll_counter: u32,
+
+    // Instrumentation, null when it is off
+    #[cfg(feature = "stats")]
+    pub stats: *mut ExecutionStats,
+    #[cfg(feature = "trace")]
+    pub tracer: *mut Tracer,
+    #[cfg(feature = "trace")]
+    pub locals_len: usize,
 }
 
 impl VmState {
+    /// Reports the instruction at `pc`, which is about to be executed, to the
+    /// statistics and the tracer.
+    #[cfg(any(feature = "stats", feature = "trace"))]
+    #[inline(never)]
+    pub fn instrument(&mut self) {
+        if self.pc >= self.instrs_len {
+            return;
+        }
+        let handler_index = self.current_instr().handler_index();
+        #[cfg(feature = "stats")]
+        if let Some(stats) = unsafe { self.stats.as_mut() } {
+            stats.record_instruction(handler_index);
+        }
+        #[cfg(feature = "trace")]
+        if let Some(tracer) = unsafe { self.tracer.as_mut() } {
+            let locals = unsafe { std::slice::from_raw_parts(self.locals, self.locals_len) };
+            tracer.trace_instruction(
+                self.pc,
+                handler_index,
+                self.reg_file(),
+                locals,
+                &self.module().global_addrs,
+            );
+        }
+    }
+
     /// Reference to the instruction at the current `pc`.
     #[inline(always)]
     pub fn current_instr(&self) -> &ProcessedInstr {
-- 
2.43.0


From 0c5851c2af32d2afaa51790cc738d43e9d081a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 21/30] fix: trap when a table.fill is out of bounds past the
 address space

---
 src/execution/table.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/execution/table.rs b/src/execution/table.rs
index ca359ee..e29deb9 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -57,9 +57,7 @@ impl TableAddr {
     /// Out-of-bounds panics; host runtime traps.
     pub fn fill(&self, i: usize, val: Val, n: usize) {
         let mut inst = self.0.borrow_mut();
-        for idx in i..i + n {
-            inst.elem[idx] = val.clone();
-        }
+        inst.elem[i..][..n].fill(val);
     }
 
     /// Gets function address at index for call_indirect.
-- 
2.43.0


From cad53b95ba1fc5d7eaf558cfd4abf2825849a649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 22/30] fix: call WASI functions through tables

---
 src/execution/runtime.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index df625c6..3d51df9 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -385,10 +385,26 @@ impl Runtime {
                                         Err(e) => return Err(e),
                                     }
                                 }
-                                FuncInst::WasiFunc { .. } => {
-                                    return Err(RuntimeError::ExecutionFailed(
-                                        "WASI function called via InvokeReg - use CallWasiReg",
-                                    ));
+                                FuncInst::WasiFunc { wasi_func_addr, .. } => {
+                                    // WASI function called through a table
+                                    let wasi_func_type = wasi_func_addr.func_type;
+                                    match self.call_wasi_function(&wasi_func_type, &params) {
+                                        Ok(result) => {
+                                            for (reg, val) in result_regs.iter().zip(result.iter())
+                                            {
+                                                self.stacks.reg_file.set_val(reg, val);
+                                            }
+                                        }
+                                        Err(e) => {
+                                            eprintln!(
+                                                "WASI register function failed: {:?}, error: {:?}",
+                                                wasi_func_type, e
+                                            );
+                                            return Err(RuntimeError::ExecutionFailed(
+                                                "WASI register function failed",
+                                            ));
+                                        }
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From 56ae507db95c459b5744abe1b597bb895c72d8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 23/30] fix: keep the handler chain of the tco build
 tail-calling for every instruction

globals, memory/table instructions, trapping conversions, end and jump ran a
destructor after dispatching the next handler or merged their trap return with
it, so LLVM emitted a plain call_indirect: each executed instruction kept stack,
and a loop of some 10k-60k iterations without a call exhausted it.
---
 src/execution/handlers.rs | 239 +++++++++++++++++++++++++++-----------
 1 file changed, 171 insertions(+), 68 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index e96d17f..efccd9c 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -319,6 +319,47 @@ macro_rules! advance {
     }};
 }
 
+// Handlers that can trap, or hold temporaries with destructors, do their work in
+// an out-of-line step that selects what runs next. The handler proper is left with
+// one opaque tail call: a second return path (the trap), or a stack slot or
+// destructor alive across the call, would keep LLVM from emitting
+// `return_call_indirect`, and a long loop would then exhaust the stack.
+
+#[cfg(feature = "tco")]
+type Step = Handler;
+#[cfg(not(feature = "tco"))]
+type Step = Outcome;
+
+#[inline(always)]
+fn step_next(state: &mut VmState) -> Step {
+    #[cfg(feature = "tco")]
+    return unsafe { next_handler(state) };
+    #[cfg(not(feature = "tco"))]
+    return advance!(state);
+}
+
+#[inline(always)]
+fn step_trap(state: &mut VmState) -> Step {
+    #[cfg(feature = "tco")]
+    return {
+        let _ = state;
+        trap
+    };
+    #[cfg(not(feature = "tco"))]
+    return trap(state);
+}
+
+macro_rules! handler_of_step {
+    ($name:ident, $step:ident) => {
+        pub fn $name(state: &mut VmState) -> Outcome {
+            let next = $step(state);
+            #[cfg(feature = "tco")]
+            let next = next(state);
+            next
+        }
+    };
+}
+
 // ============================================================================
 // Sentinel handlers — chain terminators
 // ============================================================================
@@ -1141,8 +1182,10 @@ conv!(
 
 // Trapping float→int converters — branch + trap sentinel tail-call.
 macro_rules! conv_trap {
-    ($name:ident, $read:ident, $write:ident, $ty:ty, $min:expr, $max:expr, $cast:expr) => {
-        pub fn $name(state: &mut VmState) -> Outcome {
+    ($name:ident, $step:ident, $read:ident, $write:ident, $ty:ty, $min:expr, $max:expr, $cast:expr) => {
+        handler_of_step!($name, $step);
+        #[cfg_attr(feature = "tco", inline(never))]
+        fn $step(state: &mut VmState) -> Step {
             let (src, dst) = match state.current_instr() {
                 ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
                 _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1150,22 +1193,23 @@ macro_rules! conv_trap {
             let v = operand::$read(state, &src);
             if v.is_nan() {
                 state.trap = Some(RuntimeError::InvalidConversionToInt);
-                return trap(state);
+                return step_trap(state);
             }
             let t = v.trunc();
             if t < $min || t >= $max {
                 state.trap = Some(RuntimeError::IntegerOverflow);
-                return trap(state);
+                return step_trap(state);
             }
             operand::$write(state, &dst, $cast(t));
             state.pc += 1;
-            advance!(state)
+            step_next(state)
         }
     };
 }
 
 conv_trap!(
     conv_i32_trunc_f32_s,
+    conv_i32_trunc_f32_s_step,
     read_reg_f32,
     write_dst_i32,
     f32,
@@ -1175,6 +1219,7 @@ conv_trap!(
 );
 conv_trap!(
     conv_i32_trunc_f32_u,
+    conv_i32_trunc_f32_u_step,
     read_reg_f32,
     write_dst_i32,
     f32,
@@ -1184,6 +1229,7 @@ conv_trap!(
 );
 conv_trap!(
     conv_i32_trunc_f64_s,
+    conv_i32_trunc_f64_s_step,
     read_reg_f64,
     write_dst_i32,
     f64,
@@ -1193,6 +1239,7 @@ conv_trap!(
 );
 conv_trap!(
     conv_i32_trunc_f64_u,
+    conv_i32_trunc_f64_u_step,
     read_reg_f64,
     write_dst_i32,
     f64,
@@ -1202,7 +1249,9 @@ conv_trap!(
 );
 
 // i64 trunc has different bound check (>= for max), so write explicit functions
-pub fn conv_i64_trunc_f32_s(state: &mut VmState) -> Outcome {
+handler_of_step!(conv_i64_trunc_f32_s, conv_i64_trunc_f32_s_step);
+#[cfg_attr(feature = "tco", inline(never))]
+fn conv_i64_trunc_f32_s_step(state: &mut VmState) -> Step {
     let (src, dst) = match state.current_instr() {
         ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1210,18 +1259,20 @@ pub fn conv_i64_trunc_f32_s(state: &mut VmState) -> Outcome {
     let v = operand::read_reg_f32(state, &src);
     if v.is_nan() {
         state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
+        return step_trap(state);
     }
     let t = v.trunc();
     if t < (i64::MIN as f32) || t >= (i64::MAX as f32) {
         state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
+        return step_trap(state);
     }
     operand::write_dst_i64(state, &dst, t as i64);
     state.pc += 1;
-    advance!(state)
+    step_next(state)
 }
-pub fn conv_i64_trunc_f32_u(state: &mut VmState) -> Outcome {
+handler_of_step!(conv_i64_trunc_f32_u, conv_i64_trunc_f32_u_step);
+#[cfg_attr(feature = "tco", inline(never))]
+fn conv_i64_trunc_f32_u_step(state: &mut VmState) -> Step {
     let (src, dst) = match state.current_instr() {
         ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1229,18 +1280,20 @@ pub fn conv_i64_trunc_f32_u(state: &mut VmState) -> Outcome {
     let v = operand::read_reg_f32(state, &src);
     if v.is_nan() {
         state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
+        return step_trap(state);
     }
     let t = v.trunc();
     if t < 0.0 || t >= (u64::MAX as f32) {
         state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
+        return step_trap(state);
     }
     operand::write_dst_i64(state, &dst, (t as u64) as i64);
     state.pc += 1;
-    advance!(state)
+    step_next(state)
 }
-pub fn conv_i64_trunc_f64_s(state: &mut VmState) -> Outcome {
+handler_of_step!(conv_i64_trunc_f64_s, conv_i64_trunc_f64_s_step);
+#[cfg_attr(feature = "tco", inline(never))]
+fn conv_i64_trunc_f64_s_step(state: &mut VmState) -> Step {
     let (src, dst) = match state.current_instr() {
         ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1248,18 +1301,20 @@ pub fn conv_i64_trunc_f64_s(state: &mut VmState) -> Outcome {
     let v = operand::read_reg_f64(state, &src);
     if v.is_nan() {
         state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
+        return step_trap(state);
     }
     let t = v.trunc();
     if t < (i64::MIN as f64) || t >= (i64::MAX as f64) {
         state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
+        return step_trap(state);
     }
     operand::write_dst_i64(state, &dst, t as i64);
     state.pc += 1;
-    advance!(state)
+    step_next(state)
 }
-pub fn conv_i64_trunc_f64_u(state: &mut VmState) -> Outcome {
+handler_of_step!(conv_i64_trunc_f64_u, conv_i64_trunc_f64_u_step);
+#[cfg_attr(feature = "tco", inline(never))]
+fn conv_i64_trunc_f64_u_step(state: &mut VmState) -> Step {
     let (src, dst) = match state.current_instr() {
         ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1267,16 +1322,16 @@ pub fn conv_i64_trunc_f64_u(state: &mut VmState) -> Outcome {
     let v = operand::read_reg_f64(state, &src);
     if v.is_nan() {
         state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
+        return step_trap(state);
     }
     let t = v.trunc();
     if t < 0.0 || t >= (u64::MAX as f64) {
         state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
+        return step_trap(state);
     }
     operand::write_dst_i64(state, &dst, (t as u64) as i64);
     state.pc += 1;
-    advance!(state)
+    step_next(state)
 }
 
 // ============================================================================
@@ -1596,8 +1651,9 @@ pub fn end(state: &mut VmState) -> Outcome {
         state
             .reg_file_mut()
             .copy_regs(source_regs, target_result_regs);
-        state.label_stack_mut().pop();
-        state.current_label_idx = state.label_stack().len() - 1;
+        let keep_count = state.label_stack().len() - 1;
+        state.label_stack_mut().truncate(keep_count);
+        state.current_label_idx = keep_count - 1;
         let next_ip = state.pc + 1;
         if next_ip >= state.instrs_len && state.current_label_idx == 0 {
             halt = true;
@@ -1622,8 +1678,9 @@ pub fn jump(state: &mut VmState) -> Outcome {
         _ => unsafe { std::hint::unreachable_unchecked() },
     };
     if state.label_stack().len() > 1 {
-        state.label_stack_mut().pop();
-        state.current_label_idx = state.label_stack().len() - 1;
+        let keep_count = state.label_stack().len() - 1;
+        state.label_stack_mut().truncate(keep_count);
+        state.current_label_idx = keep_count - 1;
     }
     state.pc = target_ip;
     advance!(state)
@@ -1751,8 +1808,10 @@ pub fn r#return(state: &mut VmState) -> Outcome {
 // ============================================================================
 
 macro_rules! global_get {
-    ($name:ident, $to:ident, $write:ident, $variant:ident) => {
-        pub fn $name(state: &mut VmState) -> Outcome {
+    ($name:ident, $step:ident, $to:ident, $write:ident, $variant:ident) => {
+        handler_of_step!($name, $step);
+        #[cfg_attr(feature = "tco", inline(never))]
+        fn $step(state: &mut VmState) -> Step {
             let (dst, global_index) = match state.current_instr() {
                 ProcessedInstr::GlobalGetReg {
                     dst, global_index, ..
@@ -1768,19 +1827,45 @@ macro_rules! global_get {
             let v = val.$to().unwrap_or(Default::default());
             operand::$write(state, &dst, v);
             state.pc += 1;
-            advance!(state)
+            step_next(state)
         }
     };
 }
 
-global_get!(global_get_i32, to_i32, write_dst_i32, I32);
-global_get!(global_get_i64, to_i64, write_dst_i64, I64);
-global_get!(global_get_f32, to_f32, write_dst_f32, F32);
-global_get!(global_get_f64, to_f64, write_dst_f64, F64);
+global_get!(
+    global_get_i32,
+    global_get_i32_step,
+    to_i32,
+    write_dst_i32,
+    I32
+);
+global_get!(
+    global_get_i64,
+    global_get_i64_step,
+    to_i64,
+    write_dst_i64,
+    I64
+);
+global_get!(
+    global_get_f32,
+    global_get_f32_step,
+    to_f32,
+    write_dst_f32,
+    F32
+);
+global_get!(
+    global_get_f64,
+    global_get_f64_step,
+    to_f64,
+    write_dst_f64,
+    F64
+);
 
 macro_rules! global_set {
-    ($name:ident, $get:ident, $variant:ident) => {
-        pub fn $name(state: &mut VmState) -> Outcome {
+    ($name:ident, $step:ident, $get:ident, $variant:ident) => {
+        handler_of_step!($name, $step);
+        #[cfg_attr(feature = "tco", inline(never))]
+        fn $step(state: &mut VmState) -> Step {
             let (src, global_index) = match state.current_instr() {
                 ProcessedInstr::GlobalSetReg {
                     src, global_index, ..
@@ -1801,18 +1886,18 @@ macro_rules! global_set {
                 .clone();
             if let Err(e) = global_addr.set(Val::Num(crate::execution::value::Num::$variant(v))) {
                 state.trap = Some(e);
-                return trap(state);
+                return step_trap(state);
             }
             state.pc += 1;
-            advance!(state)
+            step_next(state)
         }
     };
 }
 
-global_set!(global_set_i32, get_i32, I32);
-global_set!(global_set_i64, get_i64, I64);
-global_set!(global_set_f32, get_f32, F32);
-global_set!(global_set_f64, get_f64, F64);
+global_set!(global_set_i32, global_set_i32_step, get_i32, I32);
+global_set!(global_set_i64, global_set_i64_step, get_i64, I64);
+global_set!(global_set_f32, global_set_f32_step, get_f32, F32);
+global_set!(global_set_f64, global_set_f64_step, get_f64, F64);
 
 // ============================================================================
 // DataDrop
@@ -1878,7 +1963,9 @@ pub fn ref_null(state: &mut VmState) -> Outcome {
     advance!(state)
 }
 
-pub fn ref_is_null(state: &mut VmState) -> Outcome {
+handler_of_step!(ref_is_null, ref_is_null_step);
+#[cfg_attr(feature = "tco", inline(never))]
+fn ref_is_null_step(state: &mut VmState) -> Step {
     let regs = match state.current_instr() {
         ProcessedInstr::TableRefReg { regs, .. } => *regs,
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1888,10 +1975,12 @@ pub fn ref_is_null(state: &mut VmState) -> Outcome {
     let is_null = matches!(ref_val, crate::execution::value::Ref::RefNull) as i32;
     rf.set_i32(regs[0], is_null);
     state.pc += 1;
-    advance!(state)
+    step_next(state)
 }
 
-pub fn table_get(state: &mut VmState) -> Outcome {
+handler_of_step!(table_get, table_get_step);
+#[cfg_attr(feature = "tco", inline(never))]
+fn table_get_step(state: &mut VmState) -> Step {
     let (table_idx, regs) = match state.current_instr() {
         ProcessedInstr::TableRefReg {
             table_idx, regs, ..
@@ -1902,7 +1991,7 @@ pub fn table_get(state: &mut VmState) -> Outcome {
         Some(t) => t.clone(),
         None => {
             state.trap = Some(RuntimeError::TableNotFound);
-            return trap(state);
+            return step_trap(state);
         }
     };
     let index = state.reg_file().get_i32(regs[1]) as usize;
@@ -1911,16 +2000,18 @@ pub fn table_get(state: &mut VmState) -> Outcome {
         Val::Ref(r) => {
             state.reg_file_mut().set_ref(regs[0], r);
             state.pc += 1;
-            advance!(state)
+            step_next(state)
         }
         _ => {
             state.trap = Some(RuntimeError::TypeMismatch);
-            trap(state)
+            step_trap(state)
         }
     }
 }
 
-pub fn table_set(state: &mut VmState) -> Outcome {
+handler_of_step!(table_set, table_set_step);
+#[cfg_attr(feature = "tco", inline(never))]
+fn table_set_step(state: &mut VmState) -> Step {
     let (table_idx, regs) = match state.current_instr() {
         ProcessedInstr::TableRefReg {
             table_idx, regs, ..
@@ -1931,7 +2022,7 @@ pub fn table_set(state: &mut VmState) -> Outcome {
         Some(t) => t.clone(),
         None => {
             state.trap = Some(RuntimeError::TableNotFound);
-            return trap(state);
+            return step_trap(state);
         }
     };
     let rf = state.reg_file();
@@ -1939,10 +2030,12 @@ pub fn table_set(state: &mut VmState) -> Outcome {
     let ref_val = rf.get_ref(regs[1]);
     table_addr.set(index, Val::Ref(ref_val));
     state.pc += 1;
-    advance!(state)
+    step_next(state)
 }
 
-pub fn table_fill(state: &mut VmState) -> Outcome {
+handler_of_step!(table_fill, table_fill_step);
+#[cfg_attr(feature = "tco", inline(never))]
+fn table_fill_step(state: &mut VmState) -> Step {
     let (table_idx, regs) = match state.current_instr() {
         ProcessedInstr::TableRefReg {
             table_idx, regs, ..
@@ -1953,7 +2046,7 @@ pub fn table_fill(state: &mut VmState) -> Outcome {
         Some(t) => t.clone(),
         None => {
             state.trap = Some(RuntimeError::TableNotFound);
-            return trap(state);
+            return step_trap(state);
         }
     };
     let rf = state.reg_file();
@@ -1962,14 +2055,16 @@ pub fn table_fill(state: &mut VmState) -> Outcome {
     let n = rf.get_i32(regs[2]) as usize;
     table_addr.fill(i, Val::Ref(ref_val), n);
     state.pc += 1;
-    advance!(state)
+    step_next(state)
 }
 
 // ============================================================================
 // Memory ops (memory.size / grow / copy / init / fill)
 // ============================================================================
 
-pub fn mem_size(state: &mut VmState) -> Outcome {
+handler_of_step!(mem_size, mem_size_step);
+#[cfg_attr(feature = "tco", inline(never))]
+fn mem_size_step(state: &mut VmState) -> Step {
     let dst = match state.current_instr() {
         ProcessedInstr::MemoryOpsReg { dst, .. } => *dst,
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1978,7 +2073,7 @@ pub fn mem_size(state: &mut VmState) -> Outcome {
         Some(m) => m.clone(),
         None => {
             state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
+            return step_trap(state);
         }
     };
     let size = mem_addr.mem_size();
@@ -1986,10 +2081,12 @@ pub fn mem_size(state: &mut VmState) -> Outcome {
         state.reg_file_mut().set_i32(d.index(), size);
     }
     state.pc += 1;
-    advance!(state)
+    step_next(state)
 }
 
-pub fn mem_grow(state: &mut VmState) -> Outcome {
+handler_of_step!(mem_grow, mem_grow_step);
+#[cfg_attr(feature = "tco", inline(never))]
+fn mem_grow_step(state: &mut VmState) -> Step {
     let instr = unsafe { &*state.instrs.add(state.pc) };
     let ProcessedInstr::MemoryOpsReg { dst, args, .. } = instr else {
         unsafe { std::hint::unreachable_unchecked() }
@@ -1998,7 +2095,7 @@ pub fn mem_grow(state: &mut VmState) -> Outcome {
         Some(m) => m.clone(),
         None => {
             state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
+            return step_trap(state);
         }
     };
     let delta = state.reg_file().get_i32(args[0].index()) as u32;
@@ -2008,10 +2105,12 @@ pub fn mem_grow(state: &mut VmState) -> Outcome {
     }
     state.mem_ptr = mem_addr.data_ptr();
     state.pc += 1;
-    advance!(state)
+    step_next(state)
 }
 
-pub fn mem_copy(state: &mut VmState) -> Outcome {
+handler_of_step!(mem_copy, mem_copy_step);
+#[cfg_attr(feature = "tco", inline(never))]
+fn mem_copy_step(state: &mut VmState) -> Step {
     let instr = unsafe { &*state.instrs.add(state.pc) };
     let ProcessedInstr::MemoryOpsReg { args, .. } = instr else {
         unsafe { std::hint::unreachable_unchecked() }
@@ -2020,7 +2119,7 @@ pub fn mem_copy(state: &mut VmState) -> Outcome {
         Some(m) => m.clone(),
         None => {
             state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
+            return step_trap(state);
         }
     };
     let regs = state.reg_file();
@@ -2029,10 +2128,12 @@ pub fn mem_copy(state: &mut VmState) -> Outcome {
     let len = regs.get_i32(args[2].index());
     mem_addr.memory_copy(dest, src, len);
     state.pc += 1;
-    advance!(state)
+    step_next(state)
 }
 
-pub fn mem_init(state: &mut VmState) -> Outcome {
+handler_of_step!(mem_init, mem_init_step);
+#[cfg_attr(feature = "tco", inline(never))]
+fn mem_init_step(state: &mut VmState) -> Step {
     let instr = unsafe { &*state.instrs.add(state.pc) };
     let ProcessedInstr::MemoryOpsReg {
         args, data_index, ..
@@ -2045,12 +2146,12 @@ pub fn mem_init(state: &mut VmState) -> Outcome {
         Some(m) => m.clone(),
         None => {
             state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
+            return step_trap(state);
         }
     };
     if (*data_index as usize) >= module_inst.data_addrs.len() {
         state.trap = Some(RuntimeError::InvalidDataSegmentIndex);
-        return trap(state);
+        return step_trap(state);
     }
     let data_bytes = module_inst.data_addrs[*data_index as usize].get_data();
     let regs = state.reg_file();
@@ -2060,10 +2161,12 @@ pub fn mem_init(state: &mut VmState) -> Outcome {
     // Out of bounds (even for a length of zero): slicing panics, host runtime traps.
     mem_addr.init(dest, &data_bytes[offset..offset + len]);
     state.pc += 1;
-    advance!(state)
+    step_next(state)
 }
 
-pub fn mem_fill(state: &mut VmState) -> Outcome {
+handler_of_step!(mem_fill, mem_fill_step);
+#[cfg_attr(feature = "tco", inline(never))]
+fn mem_fill_step(state: &mut VmState) -> Step {
     let instr = unsafe { &*state.instrs.add(state.pc) };
     let ProcessedInstr::MemoryOpsReg { args, .. } = instr else {
         unsafe { std::hint::unreachable_unchecked() }
@@ -2072,7 +2175,7 @@ pub fn mem_fill(state: &mut VmState) -> Outcome {
         Some(m) => m.clone(),
         None => {
             state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
+            return step_trap(state);
         }
     };
     let regs = state.reg_file();
@@ -2081,7 +2184,7 @@ pub fn mem_fill(state: &mut VmState) -> Outcome {
     let size = regs.get_i32(args[2].index());
     mem_addr.memory_fill(dest, val, size);
     state.pc += 1;
-    advance!(state)
+    step_next(state)
 }
 
 // ============================================================================
-- 
2.43.0


From 10867d0d9cae676df7e30137f28a96451ad6216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 24/30] fix: hand the host translated buffers in sock_recv and
 sock_send

---
 src/wasi/passthrough.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 9b44f41..cf5725b 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -137,6 +137,26 @@ extern "C" {
     fn __wasi_sock_shutdown(fd: u32, how: u32) -> u16;
 }
 
+/// Copies the guest's iovec array, turning the guest addresses of the buffers into host ones.
+fn translate_iovecs(data: &[u8], iovs_ptr: Ptr, iovs_len: Size) -> Vec<WasiIovec> {
+    let word = |at: usize| u32::from_le_bytes([data[at], data[at + 1], data[at + 2], data[at + 3]]);
+
+    (0..iovs_len as usize)
+        .map(|i| {
+            let at = iovs_ptr as usize + i * 8;
+            let buf_len = word(at + 4);
+            WasiIovec {
+                buf: if buf_len == 0 {
+                    std::ptr::null()
+                } else {
+                    unsafe { data.as_ptr().add(word(at) as usize) }
+                },
+                buf_len,
+            }
+        })
+        .collect()
+}
+
 /// Passthrough WASI implementation that delegates to host runtime via wasi-libc.
 ///
 /// This struct holds state needed for WASI operations (such as command-line arguments)
@@ -1217,11 +1237,12 @@ impl PassthroughWasiImpl {
     ) -> WasiResult<i32> {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
+        let iovecs = translate_iovecs(&memory_guard.data, ri_data_ptr, ri_data_len);
 
         let wasi_errno = unsafe {
             __wasi_sock_recv(
                 fd,
-                memory_base.add(ri_data_ptr as usize) as *const WasiIovec,
+                iovecs.as_ptr(),
                 ri_data_len,
                 ri_flags,
                 memory_base.add(ro_datalen_ptr as usize) as *mut u32,
@@ -1243,11 +1264,12 @@ impl PassthroughWasiImpl {
     ) -> WasiResult<i32> {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
+        let iovecs = translate_iovecs(&memory_guard.data, si_data_ptr, si_data_len);
 
         let wasi_errno = unsafe {
             __wasi_sock_send(
                 fd,
-                memory_base.add(si_data_ptr as usize) as *const WasiIovec,
+                iovecs.as_ptr(),
                 si_data_len,
                 si_flags,
                 memory_base.add(so_datalen_ptr as usize) as *mut u32,
-- 
2.43.0


From 189b6db715a805bfabe818bdbf26d7a3b0a33233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:50 +0000
Subject: [PATCH 25/30] fix: write no terminator after the arrays of args_get
 and environ_get

---
 src/wasi/passthrough.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index cf5725b..169fbb5 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -376,7 +376,7 @@ impl PassthroughWasiImpl {
         }
 
         // Calculate pointer offsets relative to environ_buf_ptr
-        let mut ptr_data = Vec::with_capacity((environ_count as usize + 1) * 4);
+        let mut ptr_data = Vec::with_capacity(environ_count as usize * 4);
         for i in 0..environ_count as usize {
             if !environ_ptrs[i].is_null() {
                 // Calculate offset from the start of environ_buf
@@ -387,9 +387,6 @@ impl PassthroughWasiImpl {
                 ptr_data.extend_from_slice(&0u32.to_le_bytes());
             }
         }
-        // Null terminator for environ array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
-
         // Write pointer array to WebAssembly memory
         memory.store_bytes(environ_ptr as i32, &ptr_data);
 
@@ -432,7 +429,7 @@ impl PassthroughWasiImpl {
 
         // Build the argument buffer and pointer array
         let mut argv_buf = Vec::with_capacity(total_len);
-        let mut ptr_data = Vec::with_capacity((args.len() + 1) * 4); // +1 for null terminator
+        let mut ptr_data = Vec::with_capacity(args.len() * 4);
 
         for arg in args {
             // Store pointer to current position in buffer (relative to argv_buf_ptr)
@@ -444,9 +441,6 @@ impl PassthroughWasiImpl {
             argv_buf.push(0); // null terminator
         }
 
-        // Add null terminator for the argv array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
-
         // Write pointer array to WebAssembly memory
         memory.store_bytes(argv_ptr as i32, &ptr_data);
 
-- 
2.43.0


From 3a119bfdf3b798d88e6dff6d28d83452ee99f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 26/30] fix: name data.drop in traces and statistics

---
 src/execution/stats.rs | 1 +
 src/execution/trace.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/execution/stats.rs b/src/execution/stats.rs
index 76a531e..4437f66 100644
--- a/src/execution/stats.rs
+++ b/src/execution/stats.rs
@@ -97,6 +97,7 @@ impl ExecutionStats {
             HANDLER_IDX_MEMORY_COPY => "memory.copy",
             HANDLER_IDX_MEMORY_INIT => "memory.init",
             HANDLER_IDX_MEMORY_FILL => "memory.fill",
+            HANDLER_IDX_DATA_DROP => "data.drop",
 
             // Const Instructions
             HANDLER_IDX_I32_CONST => "i32.const",
diff --git a/src/execution/trace.rs b/src/execution/trace.rs
index fdc0328..a2b3062 100644
--- a/src/execution/trace.rs
+++ b/src/execution/trace.rs
@@ -370,6 +370,7 @@ impl Tracer {
             HANDLER_IDX_MEMORY_COPY => "memory.copy",
             HANDLER_IDX_MEMORY_INIT => "memory.init",
             HANDLER_IDX_MEMORY_FILL => "memory.fill",
+            HANDLER_IDX_DATA_DROP => "data.drop",
 
             // Const Instructions
             HANDLER_IDX_I32_CONST => "i32.const",
-- 
2.43.0


From 542a56bb040f38e2ededb20186b6ad52d7a10ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 27/30] fix: refuse an empty element segment that starts past
 the end of its table

---
 src/execution/table.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/execution/table.rs b/src/execution/table.rs
index e29deb9..18e27f6 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -37,8 +37,10 @@ impl TableAddr {
     /// Initializes table elements from function indices.
     pub fn init(&self, offset: usize, funcs: &Vec<FuncAddr>, init: &Vec<i32>) {
         let mut addr_self = self.0.borrow_mut();
-        for (index, f) in init.iter().enumerate() {
-            addr_self.elem[index + offset] = Val::Ref(value::Ref::FuncAddr(
+        // Slicing first traps on any segment past the end, an empty one included
+        let elems = &mut addr_self.elem[offset..][..init.len()];
+        for (elem, f) in elems.iter_mut().zip(init) {
+            *elem = Val::Ref(value::Ref::FuncAddr(
                 funcs.get_by_idx(FuncIdx(*f as u32)).clone(),
             ));
         }
-- 
2.43.0


From 878acd32c7ed4abb1fb7a044ea76f6fb7a0bc8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 28/30] fix: refuse a call whose arguments are of another type
 than its parameters

---
 src/execution/state.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/execution/state.rs b/src/execution/state.rs
index f3d9eb7..2152d67 100644
--- a/src/execution/state.rs
+++ b/src/execution/state.rs
@@ -194,6 +194,13 @@ impl VMState {
                 if params.len() != type_.params.len() {
                     return Err(RuntimeError::InvalidParameterCount);
                 }
+                let fits = |(v, t): (&Val, &ValueType)| match v {
+                    Val::Ref(Ref::RefNull) => matches!(t, ValueType::RefType(_)),
+                    _ => v.val_type() == *t,
+                };
+                if !params.iter().zip(&type_.params).all(fits) {
+                    return Err(RuntimeError::TypeMismatch);
+                }
 
                 let mut locals = params;
                 for v in code.locals.iter() {
-- 
2.43.0


From 42e28d9e43faafb867f326f8be01c5e0fb1bceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:22 +0000
Subject: [PATCH 29/30] fix: refuse checkpoints without frames or of unknown
 functions

---
 src/execution/migration.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index dbfea86..5eac43e 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -379,6 +379,19 @@ pub fn restore<P: AsRef<Path>>(
     // 2. Deserialize the state using bincode
     let mut state: SerializableState = bincode::deserialize(&encoded[..])
         .map_err(|e| RuntimeError::DeserializationError(e.to_string()))?;
+    // A checkpoint is taken by a running function: a file without frames, or with
+    // frames of unknown functions, was not written by `checkpoint`
+    let frames = state.stacks.activation_frame_stack.len();
+    if frames == 0 || state.frame_func_indices.len() != frames {
+        return Err(RuntimeError::DeserializationError(format!(
+            "{} frames of {} functions",
+            frames,
+            state.frame_func_indices.len()
+        )));
+    }
+    for &idx in &state.frame_func_indices {
+        func_ref(&module_inst, idx)?;
+    }
 
     // 3. Restore memory state (LZ4 decompress)
     if let Some(mem_addr) = module_inst.mem_addrs.get(0) {
-- 
2.43.0


From 08215c2789eab89e489f711ff89dc7a19ad99402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:22 +0000
Subject: [PATCH 30/30] fix: do not give a memory of 65536 pages no pages at
 all

---
 src/execution/mem.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/execution/mem.rs b/src/execution/mem.rs
index 0ea380c..7835bf2 100644
--- a/src/execution/mem.rs
+++ b/src/execution/mem.rs
@@ -23,7 +23,9 @@ pub struct MemInst {
 impl MemAddr {
     /// Creates a new memory instance with initial size from type.
     pub fn new(type_: &MemType) -> MemAddr {
-        let min = (type_.0.min * 65536) as usize;
+        let min = (type_.0.min as usize)
+            .checked_mul(65536)
+            .expect("memory of more bytes than can be addressed");
         let max = type_.0.max.map(|max| max);
         MemAddr {
             mem_inst: Rc::new(UnsafeCell::new(MemInst {
-- 
2.43.0

