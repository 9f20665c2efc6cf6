From db53fdfe852435c3c26fab3b8263e48b3e000b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 01/22] fix: do not fold an operand past a single-operand
 instruction

The two-instruction lookahead treated 'const/local.get x; const/local.get y;
unary' as if the unary instruction consumed x, so x replaced y as its operand.
---
 src/parser.rs | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 73a4004..3fdbd5b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -152,7 +152,7 @@ fn can_fold_i32<'a>(
             wasmparser::Operator::I32Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_i32_foldable_consumer(next_next_op)
+                is_i32_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -181,7 +181,7 @@ fn can_fold_i64<'a>(
             wasmparser::Operator::I64Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_i64_foldable_consumer(next_next_op)
+                is_i64_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -210,7 +210,7 @@ fn can_fold_f32<'a>(
             wasmparser::Operator::F32Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_f32_foldable_consumer(next_next_op)
+                is_f32_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -239,7 +239,7 @@ fn can_fold_f64<'a>(
             wasmparser::Operator::F64Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_f64_foldable_consumer(next_next_op)
+                is_f64_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -292,6 +292,37 @@ fn is_i32_foldable_consumer(op: &wasmparser::Operator) -> bool {
     )
 }
 
+/// Check if a foldable consumer takes a single operand. Such an instruction only
+/// consumes the operand right before it, so an earlier one must not be folded.
+#[inline]
+fn is_unary_consumer(op: &wasmparser::Operator) -> bool {
+    matches!(
+        op,
+        wasmparser::Operator::I32Clz
+            | wasmparser::Operator::I32Ctz
+            | wasmparser::Operator::I32Popcnt
+            | wasmparser::Operator::I32Eqz
+            | wasmparser::Operator::I64Clz
+            | wasmparser::Operator::I64Ctz
+            | wasmparser::Operator::I64Popcnt
+            | wasmparser::Operator::I64Eqz
+            | wasmparser::Operator::F32Abs
+            | wasmparser::Operator::F32Neg
+            | wasmparser::Operator::F32Ceil
+            | wasmparser::Operator::F32Floor
+            | wasmparser::Operator::F32Trunc
+            | wasmparser::Operator::F32Nearest
+            | wasmparser::Operator::F32Sqrt
+            | wasmparser::Operator::F64Abs
+            | wasmparser::Operator::F64Neg
+            | wasmparser::Operator::F64Ceil
+            | wasmparser::Operator::F64Floor
+            | wasmparser::Operator::F64Trunc
+            | wasmparser::Operator::F64Nearest
+            | wasmparser::Operator::F64Sqrt
+    )
+}
+
 /// Check if the instruction is a memory load (addr is I32, single operand)
 #[inline]
 fn is_memory_load(op: &wasmparser::Operator) -> bool {
-- 
2.43.0


From 153cae70438e2eea5e4ec7e7acf4d0204e1448c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 02/22] fix: trap on float-to-i32 truncation of values one past
 the range

i32::MAX as f32 and u32::MAX as f32 round up to 2^31 and 2^32, so the inclusive
bound let exactly these values through.
---
 src/execution/handlers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 2a40f8d..87a39a5 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -1137,7 +1137,7 @@ conv!(
 
 // Trapping float→int converters — branch + trap sentinel tail-call.
 macro_rules! conv_trap {
-    ($name:ident, $read:ident, $write:ident, $ty:ty, $min:expr, $max:expr, $cast:expr) => {
+    ($name:ident, $read:ident, $write:ident, $ty:ty, $min:expr, $end:expr, $cast:expr) => {
         pub fn $name(state: &mut VmState) -> Outcome {
             let (src, dst) = match state.current_instr() {
                 ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
@@ -1149,7 +1149,7 @@ macro_rules! conv_trap {
                 return trap(state);
             }
             let t = v.trunc();
-            if t < $min || t > $max {
+            if t < $min || t >= $end {
                 state.trap = Some(RuntimeError::IntegerOverflow);
                 return trap(state);
             }
@@ -1166,7 +1166,7 @@ conv_trap!(
     write_dst_i32,
     f32,
     i32::MIN as f32,
-    i32::MAX as f32,
+    2147483648.0_f32,
     |t: f32| t as i32
 );
 conv_trap!(
@@ -1175,7 +1175,7 @@ conv_trap!(
     write_dst_i32,
     f32,
     0.0_f32,
-    u32::MAX as f32,
+    4294967296.0_f32,
     |t: f32| (t as u32) as i32
 );
 conv_trap!(
@@ -1184,7 +1184,7 @@ conv_trap!(
     write_dst_i32,
     f64,
     i32::MIN as f64,
-    i32::MAX as f64,
+    2147483648.0_f64,
     |t: f64| t as i32
 );
 conv_trap!(
@@ -1193,7 +1193,7 @@ conv_trap!(
     write_dst_i32,
     f64,
     0.0_f64,
-    u32::MAX as f64,
+    4294967296.0_f64,
     |t: f64| (t as u32) as i32
 );
 
-- 
2.43.0


From 6389492ee42c8179a67532075e9b994de8e6ee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 03/22] fix: pass branch operands to loop parameters

---
 src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3fdbd5b..ae3bd98 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -5240,9 +5240,10 @@ fn decode_processed_instrs_and_fixups<'a>(
                     };
 
                     // Push params back - they're still on the stack inside the block
-                    for vtype in param_types.iter() {
-                        allocator.push(*vtype);
-                    }
+                    let param_regs: Vec<Reg> = param_types
+                        .iter()
+                        .map(|vtype| allocator.push(*vtype))
+                        .collect();
 
                     let arity = result_types.len();
                     let param_count = param_types.len();
@@ -5252,7 +5253,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         block_type: *blockty,
                         is_loop,
                         result_regs: result_regs.into(),
-                        param_regs: Vec::new(),
+                        param_regs,
                     });
 
                     let instr = ProcessedInstr::BlockReg {
-- 
2.43.0


From fd6da194dd1b2768fc1157d3763c22918313d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 04/22] fix: branches to the function label return their
 operands; route mixed-type branch operands

---
 src/execution/handlers.rs | 19 ++++++++++
 src/parser.rs             | 74 +++++++++++++++------------------------
 2 files changed, 47 insertions(+), 46 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 87a39a5..fccbc37 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -1406,6 +1406,16 @@ pub fn unreachable(_state: &mut VmState) -> Outcome {
     panic!("wasm unreachable executed")
 }
 
+/// A branch to the function's own label returns the branch operands.
+#[inline(always)]
+fn set_return_regs(state: &mut VmState, source_regs: &[Reg]) {
+    let dst = state.return_result_regs_mut();
+    dst.clear();
+    for r in source_regs.iter() {
+        dst.push(*r);
+    }
+}
+
 pub fn br(state: &mut VmState) -> Outcome {
     let instr = unsafe { &*state.instrs.add(state.pc) };
     let ProcessedInstr::BrReg {
@@ -1430,6 +1440,9 @@ pub fn br(state: &mut VmState) -> Outcome {
     state.label_stack_mut().truncate(keep_count);
     state.current_label_idx = state.label_stack().len() - 1;
     state.pc = target_ip;
+    if target_ip >= state.instrs_len {
+        set_return_regs(state, source_regs);
+    }
     advance!(state)
 }
 
@@ -1464,6 +1477,9 @@ pub fn br_if(state: &mut VmState) -> Outcome {
     state.label_stack_mut().truncate(keep_count);
     state.current_label_idx = state.label_stack().len() - 1;
     state.pc = target_ip;
+    if target_ip >= state.instrs_len {
+        set_return_regs(state, source_regs);
+    }
     advance!(state)
 }
 
@@ -1500,6 +1516,9 @@ pub fn br_table(state: &mut VmState) -> Outcome {
     state.label_stack_mut().truncate(keep_count);
     state.current_label_idx = state.label_stack().len() - 1;
     state.pc = target_ip;
+    if target_ip >= state.instrs_len {
+        set_return_regs(state, source_regs);
+    }
     advance!(state)
 }
 
diff --git a/src/parser.rs b/src/parser.rs
index ae3bd98..ff9cac5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1493,6 +1493,7 @@ fn preprocess_instructions(
     // Reuse control stack simulation logic, including runtime index tracking
     let mut current_control_stack_pass3: Vec<(usize, bool, wasmparser::BlockType)> = Vec::new();
 
+    let function_end_ip = processed.len();
     for pc in 0..processed.len() {
         if let Some(instr) = processed.get(pc) {
             match instr.handler_index() {
@@ -1543,7 +1544,12 @@ fn preprocess_instructions(
                     for (rel_depth, _, result_regs) in targets_clone.iter() {
                         let depth = *rel_depth as usize;
                         if current_control_stack_pass3.len() <= depth {
-                            resolved_reg_targets.push((*rel_depth, 0, result_regs.clone())); // Invalid
+                            // Branch to function level (return)
+                            resolved_reg_targets.push((
+                                *rel_depth,
+                                function_end_ip,
+                                result_regs.clone(),
+                            ));
                             continue;
                         }
                         let target_stack_level = current_control_stack_pass3.len() - 1 - depth;
@@ -1561,7 +1567,7 @@ fn preprocess_instructions(
                     // Compute target_ip for default target
                     // Note: block_end_map already stores End + 1 position
                     let default_target_ip = if current_control_stack_pass3.len() <= default_depth {
-                        0 // Invalid
+                        function_end_ip // Branch to function level (return)
                     } else {
                         let target_stack_level =
                             current_control_stack_pass3.len() - 1 - default_depth;
@@ -5513,6 +5519,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         &control_info_stack,
                         *relative_depth as usize,
                         reg_allocator.as_ref(),
+                        result_types,
                     );
 
                     let instr = ProcessedInstr::BrReg {
@@ -5543,6 +5550,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         &control_info_stack,
                         *relative_depth as usize,
                         reg_allocator.as_ref(),
+                        result_types,
                     );
 
                     let instr = ProcessedInstr::BrIfReg {
@@ -5580,6 +5588,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                             &control_info_stack,
                             *depth as usize,
                             reg_allocator.as_ref(),
+                            result_types,
                         );
                         table_targets.push((
                             *depth,
@@ -5594,6 +5603,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         &control_info_stack,
                         targets.default() as usize,
                         reg_allocator.as_ref(),
+                        result_types,
                     );
                     let default_target = (
                         targets.default(),
@@ -7338,15 +7348,22 @@ fn decode_processed_instrs_and_fixups<'a>(
 /// Compute source_regs and target_result_regs for branch instructions
 /// source_regs: current stack top registers that will be copied
 /// target_result_regs: where to copy them (the target block's result registers, or param_regs for loops)
+///
+/// A branch to the function's own label carries the function results. They are
+/// returned straight from the source registers, so both lists are the same.
 fn compute_branch_regs(
     control_info_stack: &[ControlBlockInfo],
     relative_depth: usize,
     reg_allocator: Option<&RegAllocator>,
+    func_result_types: &[ValueType],
 ) -> (Vec<Reg>, Vec<Reg>) {
     // Get target block from control_info_stack
     let stack_len = control_info_stack.len();
-    if stack_len == 0 || relative_depth >= stack_len {
-        return (Vec::new(), Vec::new());
+    if relative_depth >= stack_len {
+        let source_regs = reg_allocator
+            .map(|allocator| allocator.peek_regs_for_types(func_result_types))
+            .unwrap_or_default();
+        return (source_regs.clone(), source_regs);
     }
 
     let target_idx = stack_len - 1 - relative_depth;
@@ -7359,49 +7376,14 @@ fn compute_branch_regs(
         target_block.result_regs.clone()
     };
 
-    // Compute source_regs from current allocator state
+    // Compute source_regs from current allocator state: the values on top of the
+    // stack, whose types are those of the target registers
     let source_regs = if let Some(allocator) = reg_allocator {
-        // Get the registers at stack top matching result types
-        let result_count = target_result_regs.len();
-        if result_count == 0 {
-            Vec::new()
-        } else {
-            // Get current state and compute source registers
-            let state = allocator.save_state();
-            target_result_regs
-                .iter()
-                .enumerate()
-                .map(|(i, target_reg)| {
-                    // Source register is at current_depth - result_count + i
-                    match target_reg {
-                        Reg::I32(_) => {
-                            let src_idx = state.i32_depth.saturating_sub(result_count - i);
-                            Reg::I32(src_idx as u16)
-                        }
-                        Reg::I64(_) => {
-                            let src_idx = state.i64_depth.saturating_sub(result_count - i);
-                            Reg::I64(src_idx as u16)
-                        }
-                        Reg::F32(_) => {
-                            let src_idx = state.f32_depth.saturating_sub(result_count - i);
-                            Reg::F32(src_idx as u16)
-                        }
-                        Reg::F64(_) => {
-                            let src_idx = state.f64_depth.saturating_sub(result_count - i);
-                            Reg::F64(src_idx as u16)
-                        }
-                        Reg::Ref(_) => {
-                            let src_idx = state.ref_depth.saturating_sub(result_count - i);
-                            Reg::Ref(src_idx as u16)
-                        }
-                        Reg::V128(_) => {
-                            let src_idx = state.v128_depth.saturating_sub(result_count - i);
-                            Reg::V128(src_idx as u16)
-                        }
-                    }
-                })
-                .collect()
-        }
+        let types: Vec<ValueType> = target_result_regs
+            .iter()
+            .map(|reg| reg.value_type())
+            .collect();
+        allocator.peek_regs_for_types(&types)
     } else {
         Vec::new()
     };
-- 
2.43.0


From 66e58d2af5c2b13b5cccd42b04953e4f66ac3923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 05/22] fix: memory.grow takes an unsigned page count and fails
 with -1

---
 src/execution/handlers.rs | 9 +--------
 src/execution/mem.rs      | 7 ++++---
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index fccbc37..e430379 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -2016,14 +2016,7 @@ pub fn mem_grow(state: &mut VmState) -> Outcome {
         }
     };
     let delta = state.reg_file().get_i32(args[0].index());
-    let delta_u32: u32 = match delta.try_into() {
-        Ok(v) => v,
-        Err(_) => {
-            state.trap = Some(RuntimeError::InvalidParameterCount);
-            return trap(state);
-        }
-    };
-    let prev_size = mem_addr.mem_grow(delta_u32 as i32);
+    let prev_size = mem_addr.mem_grow(delta);
     if let Some(d) = dst {
         state.reg_file_mut().set_i32(d.index(), prev_size);
     }
diff --git a/src/execution/mem.rs b/src/execution/mem.rs
index 8c51a29..246442c 100644
--- a/src/execution/mem.rs
+++ b/src/execution/mem.rs
@@ -87,17 +87,18 @@ impl MemAddr {
         (mem.data.len() / 65536) as i32
     }
 
-    /// Grows memory by the given number of pages. Returns previous size or -1 on failure.
+    /// Grows memory by the given number of pages (an unsigned count). Returns
+    /// previous size or -1 on failure.
     pub fn mem_grow(&self, size: i32) -> i32 {
         let prev_size = self.mem_size();
-        let new = prev_size + size;
+        let new = prev_size as u64 + size as u32 as u64;
 
         // Safety: Single-threaded access
         let mem = unsafe { &*self.mem_inst.get() };
         let max_pages = mem._type_.0.max;
 
         if let Some(max) = max_pages {
-            if new > max as i32 {
+            if new > max as u64 {
                 return -1;
             }
         }
-- 
2.43.0


From ea40c3e6cb3a07bcbb54d0f5e9c25579a0d678f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 06/22] fix: memory.init of an empty out-of-bounds range traps

---
 src/execution/handlers.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index e430379..3eedb2b 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -2071,9 +2071,8 @@ pub fn mem_init(state: &mut VmState) -> Outcome {
     let dest = regs.get_i32(args[0].index()) as usize;
     let offset = regs.get_i32(args[1].index()) as usize;
     let len = regs.get_i32(args[2].index()) as usize;
-    if len > 0 {
-        mem_addr.init(dest, &data_bytes[offset..offset + len]);
-    }
+    // Out-of-bounds ranges (also empty ones) panic; host runtime traps.
+    mem_addr.init(dest, &data_bytes[offset..offset + len]);
     state.pc += 1;
     advance!(state)
 }
-- 
2.43.0


From 390ecceede0542634b61ad56e5eaa4b07e1d637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 07/22] fix: table.fill traps on every out-of-bounds range

---
 src/execution/table.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/execution/table.rs b/src/execution/table.rs
index ca359ee..5ac8fc5 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -57,9 +57,7 @@ impl TableAddr {
     /// Out-of-bounds panics; host runtime traps.
     pub fn fill(&self, i: usize, val: Val, n: usize) {
         let mut inst = self.0.borrow_mut();
-        for idx in i..i + n {
-            inst.elem[idx] = val.clone();
-        }
+        inst.elem[i..i.saturating_add(n)].fill(val);
     }
 
     /// Gets function address at index for call_indirect.
-- 
2.43.0


From 327bf9b5d4aa368467675f43800c00cecf4b6895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 08/22] fix: drop active data segments after instantiation

---
 src/execution/module.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/execution/module.rs b/src/execution/module.rs
index 6826a00..5ced8e4 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -186,6 +186,8 @@ impl ModuleInst {
                 };
 
                 module_inst.mem_addrs[idx as usize].init(offset as usize, &init);
+                // An active segment is dropped once it has been copied
+                module_inst.data_addrs.last().unwrap().drop_data();
             }
         }
 
-- 
2.43.0


From 294d805acd0199d42177d13fd861a714566073b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 09/22] fix: zero-initialise reference-typed locals of called
 functions

---
 src/execution/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 8795437..b56d064 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -12,7 +12,7 @@ use crate::execution::state::{Frame, FrameStack, Label, LabelStack, ModuleLevelI
 use crate::execution::stats::ExecutionStats;
 #[cfg(feature = "trace")]
 use crate::execution::trace::{TraceConfig, Tracer};
-use crate::execution::value::{Num, Val, Vec_};
+use crate::execution::value::{Num, Ref, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{NumType, ValueType, VecType};
 use crate::wasi::{WasiError, WasiResult};
@@ -1045,7 +1045,7 @@ impl Val {
             ValueType::NumType(NumType::F32) => Ok(Val::Num(Num::F32(0.0))),
             ValueType::NumType(NumType::F64) => Ok(Val::Num(Num::F64(0.0))),
             ValueType::VecType(VecType::V128) => Ok(Val::Vec_(Vec_::V128(0))),
-            ValueType::RefType(_) => todo!("Default value for RefType"),
+            ValueType::RefType(_) => Ok(Val::Ref(Ref::RefNull)),
         }
     }
 }
-- 
2.43.0


From 56cfcb77a800a0e1d6a501ac7f4f60636d5a3742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:56 +0000
Subject: [PATCH 10/22] fix: typed select on references selects the reference

---
 src/execution/handlers.rs | 5 +++++
 src/execution/stats.rs    | 3 ++-
 src/execution/trace.rs    | 3 ++-
 src/parser.rs             | 2 +-
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 3eedb2b..f5d5844 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -293,6 +293,9 @@ pub const HANDLER_IDX_REF_LOCAL_SET: usize = 0x102;
 // WASI call handler constant
 pub const HANDLER_IDX_CALL_WASI: usize = 0x103;
 
+// Select on references
+pub const HANDLER_IDX_SELECT_REF: usize = 0x104;
+
 // ============================================================================
 // advance! macro — the difference between tco and non-tco mode
 // ============================================================================
@@ -1391,6 +1394,7 @@ select!(select_i32, get_i32, set_i32);
 select!(select_i64, get_i64, set_i64);
 select!(select_f32, get_f32, set_f32);
 select!(select_f64, get_f64, set_f64);
+select!(select_ref, get_ref, set_ref);
 
 // ============================================================================
 // Nop / Unreachable
@@ -2309,6 +2313,7 @@ pub fn select_handler(instr: &ProcessedInstr) -> Handler {
             HANDLER_IDX_SELECT_I64 => select_i64,
             HANDLER_IDX_SELECT_F32 => select_f32,
             HANDLER_IDX_SELECT_F64 => select_f64,
+            HANDLER_IDX_SELECT_REF => select_ref,
             _ => invalid,
         },
         ProcessedInstr::GlobalGetReg { handler_index, .. } => match *handler_index {
diff --git a/src/execution/stats.rs b/src/execution/stats.rs
index 9381a3c..76a531e 100644
--- a/src/execution/stats.rs
+++ b/src/execution/stats.rs
@@ -52,7 +52,8 @@ impl ExecutionStats {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/execution/trace.rs b/src/execution/trace.rs
index c45a8b8..fdc0328 100644
--- a/src/execution/trace.rs
+++ b/src/execution/trace.rs
@@ -325,7 +325,8 @@ impl Tracer {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/parser.rs b/src/parser.rs
index ff9cac5..9880a86 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7084,7 +7084,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         ValueType::NumType(NumType::I64) => HANDLER_IDX_SELECT_I64,
                         ValueType::NumType(NumType::F32) => HANDLER_IDX_SELECT_F32,
                         ValueType::NumType(NumType::F64) => HANDLER_IDX_SELECT_F64,
-                        ValueType::RefType(_) => HANDLER_IDX_SELECT_I64,
+                        ValueType::RefType(_) => HANDLER_IDX_SELECT_REF,
                         ValueType::VecType(_) => panic!("VecType not supported for Select"),
                     };
 
-- 
2.43.0


From af0d9caf94f8991fa5b1d946dab9f6d78ea550a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 11/22] fix: instantiate element segments given as expressions;
 trap on empty out-of-range ones

---
 src/execution/elem.rs   | 12 ++++--------
 src/execution/module.rs | 28 +++++++++++++++++-----------
 src/execution/table.rs  | 13 ++++++-------
 3 files changed, 27 insertions(+), 26 deletions(-)

diff --git a/src/execution/elem.rs b/src/execution/elem.rs
index f7d98e1..d431ca7 100644
--- a/src/execution/elem.rs
+++ b/src/execution/elem.rs
@@ -1,6 +1,6 @@
 //! Element segment instances for table initialization.
 
-use super::{func::FuncAddr, module::*, value::Ref};
+use super::value::Ref;
 use crate::structure::types::*;
 use std::cell::RefCell;
 use std::rc::Rc;
@@ -18,15 +18,11 @@ pub struct ElemInst {
 }
 
 impl ElemAddr {
-    /// Creates a new element segment from function indices.
-    pub fn new(type_: &RefType, funcs: &Vec<FuncAddr>, init: &Vec<i32>) -> ElemAddr {
-        let elem: Vec<Ref> = init
-            .into_iter()
-            .map(|i| Ref::FuncAddr(funcs.get_by_idx(FuncIdx(*i as u32)).clone()))
-            .collect();
+    /// Creates a new element segment from its references.
+    pub fn new(type_: &RefType, init: &[Ref]) -> ElemAddr {
         ElemAddr(Rc::new(RefCell::new(ElemInst {
             _type_: *type_,
-            _elem: elem,
+            _elem: init.to_vec(),
         })))
     }
 }
diff --git a/src/execution/module.rs b/src/execution/module.rs
index 5ced8e4..c34fdd8 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -131,18 +131,25 @@ impl ModuleInst {
         }
 
         for elem in &module.elems {
-            if elem.type_ == RefType::ExternalRef {
-                panic!();
-            }
-            let mut init: Vec<i32> = Vec::new();
+            let mut init: Vec<Ref> = Vec::new();
             if let Some(idxes) = &elem.idxes {
                 for idx in idxes {
-                    init.push(idx.0 as i32);
+                    init.push(Ref::FuncAddr(
+                        module_inst.func_addrs.get_by_idx(FuncIdx(idx.0)).clone(),
+                    ));
+                }
+            }
+            if let Some(exprs) = &elem.init {
+                for expr in exprs {
+                    match module_inst.expr_to_const(expr) {
+                        Some(Val::Ref(r)) => init.push(r),
+                        _ => return Err(RuntimeError::InvalidConstantExpression),
+                    }
                 }
             }
             module_inst
                 .elem_addrs
-                .push(ElemAddr::new(&elem.type_, &module_inst.func_addrs, &init));
+                .push(ElemAddr::new(&elem.type_, &init));
 
             if elem.mode == ElemMode::Active {
                 let offset_res = match &elem.offset {
@@ -158,11 +165,7 @@ impl ModuleInst {
                     Some(i) => i.0,
                     None => 0,
                 };
-                module_inst.table_addrs[table_idx as usize].init(
-                    offset as usize,
-                    &module_inst.func_addrs,
-                    &init,
-                );
+                module_inst.table_addrs[table_idx as usize].init(offset as usize, &init);
             }
         }
 
@@ -255,6 +258,9 @@ impl ModuleInst {
             &[Instr::F64Const(i)] => Some(Val::Num(Num::F64(i as f64))),
             &[Instr::V128Const(i)] => Some(Val::Vec_(Vec_::V128(i))),
             &[Instr::RefNull(_)] => Some(Val::Ref(Ref::RefNull)),
+            [Instr::RefFunc(i)] => Some(Val::Ref(Ref::FuncAddr(
+                self.func_addrs.get_by_idx(FuncIdx(i.0)).clone(),
+            ))),
             [Instr::GlobalGet(i)] => Some(self.global_addrs.get_by_idx(*i).get()),
             _ => None,
         }
diff --git a/src/execution/table.rs b/src/execution/table.rs
index 5ac8fc5..dd0bfbb 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -2,7 +2,6 @@
 
 use super::{
     func::FuncAddr,
-    module::*,
     value::{self, Val},
 };
 use crate::error::RuntimeError;
@@ -34,13 +33,13 @@ impl TableAddr {
             },
         })))
     }
-    /// Initializes table elements from function indices.
-    pub fn init(&self, offset: usize, funcs: &Vec<FuncAddr>, init: &Vec<i32>) {
+    /// Initializes table elements from the references of a segment.
+    /// Out-of-bounds panics; host runtime traps.
+    pub fn init(&self, offset: usize, init: &[value::Ref]) {
         let mut addr_self = self.0.borrow_mut();
-        for (index, f) in init.iter().enumerate() {
-            addr_self.elem[index + offset] = Val::Ref(value::Ref::FuncAddr(
-                funcs.get_by_idx(FuncIdx(*f as u32)).clone(),
-            ));
+        let dst = &mut addr_self.elem[offset..offset.saturating_add(init.len())];
+        for (slot, r) in dst.iter_mut().zip(init) {
+            *slot = Val::Ref(r.clone());
         }
     }
     /// Gets element at index. Out-of-bounds panics; host runtime traps.
-- 
2.43.0


From b0bfae2479e10e013099176b95d4c0047d108a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 12/22] fix: carry the checkpoint poll counter across frames

---
 src/execution/runtime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index b56d064..e02568a 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -32,6 +32,8 @@ pub struct Runtime {
     #[cfg_attr(not(feature = "stats"), allow(dead_code))]
     enable_stats: bool,
     enable_checkpoint: bool,
+    /// Poll throttling counter, carried across frames
+    checkpoint_poll_counter: u32,
 }
 
 impl Drop for Runtime {
@@ -82,6 +84,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         })
     }
 
@@ -120,6 +123,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         }
     }
 
@@ -169,10 +173,11 @@ impl Runtime {
             yielded: None,
             return_result_regs: return_result_regs_ptr,
             enable_checkpoint,
-            checkpoint_poll_counter: 0,
+            checkpoint_poll_counter: self.checkpoint_poll_counter,
         };
 
         let outcome = dispatch::execute_instructions(&mut state);
+        self.checkpoint_poll_counter = state.checkpoint_poll_counter;
 
         let idx = state.current_label_idx;
         if idx < state.label_stack().len() {
-- 
2.43.0


From 0c72546fcb5eb6757ccefdb721954d275afc490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 13/22] fix: poll for checkpoint requests in every restored
 frame

---
 src/execution/runtime.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index e02568a..678bacd 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -224,8 +224,9 @@ impl Runtime {
             }
         }
 
-        // Set checkpoint enabled flag for initial frame stack
-        if let Some(frame_stack) = self.stacks.activation_frame_stack.first_mut() {
+        // Set checkpoint enabled flag for the frames already on the stack (the
+        // initial one, or all the restored ones)
+        for frame_stack in self.stacks.activation_frame_stack.iter_mut() {
             frame_stack.enable_checkpoint = self.enable_checkpoint;
         }
 
-- 
2.43.0


From 2142142ee9e47664ca91278a09e5af3207d1f8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 14/22] fix: honour checkpoint requests for modules without
 WASI imports

---
 src/execution/migration.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 0543d7a..a6a8f35 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -125,13 +125,15 @@ fn do_poll_checkpoint(state: &mut VmState) -> bool {
         if state.checkpoint_poll_counter & CHECKPOINT_POLL_MASK != 0 {
             return false;
         }
-        if let Some(ref wasi) = state.module().wasi_impl {
-            if wasi.check_file_exists(CHECKPOINT_TRIGGER_FILE) {
-                let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
-                return true;
-            }
+        let requested = match state.module().wasi_impl {
+            Some(ref wasi) => wasi.check_file_exists(CHECKPOINT_TRIGGER_FILE),
+            // Modules without WASI imports have no WASI implementation
+            None => Path::new(CHECKPOINT_TRIGGER_FILE).exists(),
+        };
+        if requested {
+            let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
         }
-        false
+        requested
     }
 }
 
-- 
2.43.0


From 201eb3ae40872311284c3bb603af4eebf5219ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 15/22] verif hook: cfg chiwawa_dense_poll polls for checkpoint
 requests at every instruction

---
 src/execution/migration.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index a6a8f35..26f6bac 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -36,6 +36,8 @@
 //! Either path triggers `Outcome::Trap(CheckpointRequested)`, which
 //! `runtime.rs` translates into a `checkpoint` call.
 
+#![allow(unexpected_cfgs)]
+
 use crate::error::RuntimeError;
 use crate::execution::func::FuncInst;
 use crate::execution::global::GlobalAddr;
@@ -138,7 +140,12 @@ fn do_poll_checkpoint(state: &mut VmState) -> bool {
 }
 
 /// Throttle interval for non-atomics file polling (= every 1024 instructions).
+#[cfg(not(chiwawa_dense_poll))]
 const CHECKPOINT_POLL_MASK: u32 = 0x3FF;
+/// Verification hook (`--cfg chiwawa_dense_poll`): poll at every instruction,
+/// like the atomics target does.
+#[cfg(chiwawa_dense_poll)]
+const CHECKPOINT_POLL_MASK: u32 = 0;
 
 /// Complete runtime state for checkpoint serialization.
 ///
-- 
2.43.0


From 4adc6c000d9e0fb8e56d97736fa56dc4f0d23c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 16/22] fix: save table contents in checkpoints

---
 src/execution/migration.rs | 80 +++++++++++++++++++++++++++++++++-----
 1 file changed, 70 insertions(+), 10 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 26f6bac..99422a6 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -9,13 +9,12 @@
 //! - Activation frame stack with register file and per-frame locals
 //! - Linear memory contents (LZ4 compressed)
 //! - Global variable values
+//! - Table contents (as function indices)
 //! - Per-frame function indices (used to rebuild skipped `Rc` fields on restore)
 //!
 //! `FrameStack` fields that are derived from the module instance
 //! (`handlers`, `processed_instrs`, `primary_mem`, `cached_mem_ptr`) are
-//! `#[serde(skip)]` and reconstructed during `restore`. Tables are excluded:
-//! they are deterministically initialized from element segments during
-//! module instantiation.
+//! `#[serde(skip)]` and reconstructed during `restore`.
 //!
 //! ## Trigger Mechanisms
 //!
@@ -39,12 +38,12 @@
 #![allow(unexpected_cfgs)]
 
 use crate::error::RuntimeError;
-use crate::execution::func::FuncInst;
+use crate::execution::func::{FuncAddr, FuncInst};
 use crate::execution::global::GlobalAddr;
 use crate::execution::mem::MemAddr;
 use crate::execution::module::ModuleInst;
 use crate::execution::state::{Stacks, VmState};
-use crate::execution::value::Val;
+use crate::execution::value::{Ref, Val};
 use serde::{Deserialize, Serialize};
 use std::fs::File;
 use std::io::{Read, Write};
@@ -153,15 +152,39 @@ const CHECKPOINT_POLL_MASK: u32 = 0;
 /// - Call stack and register state
 /// - Linear memory contents (LZ4 compressed)
 /// - Global variable values
-///
-/// Tables are excluded: they are deterministically initialized from element
-/// segments during module instantiation.
+/// - Table contents
 #[derive(Serialize, Deserialize, Debug)]
 pub struct SerializableState {
     pub stacks: Stacks,
     pub memory_data_compressed: Vec<u8>,
     pub global_values: Vec<Val>,
     pub frame_func_indices: Vec<u32>,
+    /// Table contents, as function indices
+    pub tables: Vec<Vec<Option<u32>>>,
+}
+
+/// Index of a function in the module instance; references to anything else
+/// cannot be saved.
+fn func_index(module_inst: &ModuleInst, func: &FuncAddr) -> Result<u32, RuntimeError> {
+    module_inst
+        .func_addrs
+        .iter()
+        .position(|f| Rc::ptr_eq(f.get_rc(), func.get_rc()))
+        .map(|i| i as u32)
+        .ok_or_else(|| {
+            RuntimeError::SerializationError("reference to a foreign function".to_string())
+        })
+}
+
+/// Function with the given index in the module instance.
+fn func_at(module_inst: &ModuleInst, idx: u32) -> Result<FuncAddr, RuntimeError> {
+    module_inst
+        .func_addrs
+        .get(idx as usize)
+        .cloned()
+        .ok_or_else(|| {
+            RuntimeError::DeserializationError(format!("no function with index {}", idx))
+        })
 }
 
 /// Serializes runtime state to a checkpoint file.
@@ -214,7 +237,27 @@ pub fn checkpoint<P: AsRef<Path>>(
         })
         .collect::<Vec<u32>>();
 
-    // 4. Assemble state
+    // 4. Gather table contents (table.set and table.fill change them)
+    let tables = module_inst
+        .table_addrs
+        .iter()
+        .map(|table_addr| {
+            table_addr
+                .read_lock()
+                .elem
+                .iter()
+                .map(|val| match val {
+                    Val::Ref(Ref::FuncAddr(func)) => func_index(module_inst, func).map(Some),
+                    Val::Ref(Ref::RefNull) => Ok(None),
+                    _ => Err(RuntimeError::SerializationError(
+                        "host reference in a table".to_string(),
+                    )),
+                })
+                .collect::<Result<Vec<_>, _>>()
+        })
+        .collect::<Result<Vec<_>, _>>()?;
+
+    // 5. Assemble state
     // Note: Register file is already compact because restore_offsets() truncates
     // register vectors on function return, so no checkpoint-time compaction needed.
     let state = SerializableState {
@@ -222,6 +265,7 @@ pub fn checkpoint<P: AsRef<Path>>(
         memory_data_compressed,
         global_values,
         frame_func_indices,
+        tables,
     };
 
     // 6. Serialize and write (with per-component size diagnostics)
@@ -327,7 +371,23 @@ pub fn restore<P: AsRef<Path>>(
         );
     }
 
-    // 5. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
+    // 5. Restore table contents
+    if module_inst.table_addrs.len() != state.tables.len() {
+        return Err(RuntimeError::DeserializationError(format!(
+            "checkpoint has {} tables, module has {}",
+            state.tables.len(),
+            module_inst.table_addrs.len()
+        )));
+    }
+    for (table_addr, elems) in module_inst.table_addrs.iter().zip(&state.tables) {
+        let elems = elems
+            .iter()
+            .map(|elem| elem.map(|idx| func_at(&module_inst, idx)).transpose())
+            .collect::<Result<Vec<_>, _>>()?;
+        table_addr.set_elements(elems)?;
+    }
+
+    // 6. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
     let primary_mem = module_inst.mem_addrs.first().cloned();
     for (frame_stack, &func_idx) in state
         .stacks
-- 
2.43.0


From 3fb598edbcd4c75a1257d3d0d3b98e8e4ef3379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 17/22] fix: save which data segments are dropped in
 checkpoints

---
 src/execution/migration.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 99422a6..e137c09 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -9,7 +9,7 @@
 //! - Activation frame stack with register file and per-frame locals
 //! - Linear memory contents (LZ4 compressed)
 //! - Global variable values
-//! - Table contents (as function indices)
+//! - Table contents (as function indices) and dropped data segments
 //! - Per-frame function indices (used to rebuild skipped `Rc` fields on restore)
 //!
 //! `FrameStack` fields that are derived from the module instance
@@ -152,7 +152,7 @@ const CHECKPOINT_POLL_MASK: u32 = 0;
 /// - Call stack and register state
 /// - Linear memory contents (LZ4 compressed)
 /// - Global variable values
-/// - Table contents
+/// - Table contents and dropped data segments
 #[derive(Serialize, Deserialize, Debug)]
 pub struct SerializableState {
     pub stacks: Stacks,
@@ -161,6 +161,8 @@ pub struct SerializableState {
     pub frame_func_indices: Vec<u32>,
     /// Table contents, as function indices
     pub tables: Vec<Vec<Option<u32>>>,
+    /// Data segments that have been dropped
+    pub dropped_data: Vec<bool>,
 }
 
 /// Index of a function in the module instance; references to anything else
@@ -257,6 +259,12 @@ pub fn checkpoint<P: AsRef<Path>>(
         })
         .collect::<Result<Vec<_>, _>>()?;
 
+    let dropped_data = module_inst
+        .data_addrs
+        .iter()
+        .map(|data_addr| data_addr.get_data().is_empty())
+        .collect();
+
     // 5. Assemble state
     // Note: Register file is already compact because restore_offsets() truncates
     // register vectors on function return, so no checkpoint-time compaction needed.
@@ -266,6 +274,7 @@ pub fn checkpoint<P: AsRef<Path>>(
         global_values,
         frame_func_indices,
         tables,
+        dropped_data,
     };
 
     // 6. Serialize and write (with per-component size diagnostics)
@@ -387,6 +396,12 @@ pub fn restore<P: AsRef<Path>>(
         table_addr.set_elements(elems)?;
     }
 
+    for (data_addr, dropped) in module_inst.data_addrs.iter().zip(&state.dropped_data) {
+        if *dropped {
+            data_addr.drop_data();
+        }
+    }
+
     // 6. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
     let primary_mem = module_inst.mem_addrs.first().cloned();
     for (frame_stack, &func_idx) in state
-- 
2.43.0


From fb5bf93ef13ea0aeef62b84ec715f4b668b8efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 18/22] fix: save function references of locals, registers and
 globals in checkpoints

---
 src/execution/migration.rs | 87 +++++++++++++++++++++++++++++++++++---
 1 file changed, 82 insertions(+), 5 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index e137c09..35eb0d6 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -163,6 +163,29 @@ pub struct SerializableState {
     pub tables: Vec<Vec<Option<u32>>>,
     /// Data segments that have been dropped
     pub dropped_data: Vec<bool>,
+    /// Function references in locals, registers and globals. They are pointers,
+    /// so the captured value is null and the function index is saved here.
+    pub func_refs: Vec<(RefSlot, u32)>,
+}
+
+/// Place of a function reference in the captured state.
+#[derive(Serialize, Deserialize, Debug)]
+pub enum RefSlot {
+    Local { frame: usize, idx: usize },
+    Reg(usize),
+    Global(usize),
+}
+
+/// Nulls a function reference and returns the index of the function.
+fn take_func_ref(module_inst: &ModuleInst, r: &mut Ref) -> Result<Option<u32>, RuntimeError> {
+    let idx = match r {
+        Ref::FuncAddr(func) => Some(func_index(module_inst, func)?),
+        _ => None,
+    };
+    if idx.is_some() {
+        *r = Ref::RefNull;
+    }
+    Ok(idx)
 }
 
 /// Index of a function in the module instance; references to anything else
@@ -212,7 +235,7 @@ pub fn checkpoint<P: AsRef<Path>>(
     };
 
     // 2. Gather Global state
-    let global_values = global_addrs
+    let mut global_values = global_addrs
         .iter()
         .map(|global_addr| Ok(global_addr.get()))
         .collect::<Result<Vec<Val>, RuntimeError>>()?;
@@ -265,19 +288,45 @@ pub fn checkpoint<P: AsRef<Path>>(
         .map(|data_addr| data_addr.get_data().is_empty())
         .collect();
 
-    // 5. Assemble state
+    // 5. Replace function references by function indices
+    let mut stacks = stacks.clone();
+    let mut func_refs = Vec::new();
+    for (frame, frame_stack) in stacks.activation_frame_stack.iter_mut().enumerate() {
+        for (idx, val) in frame_stack.frame.locals.iter_mut().enumerate() {
+            if let Val::Ref(r) = val {
+                if let Some(func) = take_func_ref(module_inst, r)? {
+                    func_refs.push((RefSlot::Local { frame, idx }, func));
+                }
+            }
+        }
+    }
+    for (idx, r) in stacks.reg_file.ref_regs.iter_mut().enumerate() {
+        if let Some(func) = take_func_ref(module_inst, r)? {
+            func_refs.push((RefSlot::Reg(idx), func));
+        }
+    }
+    for (idx, val) in global_values.iter_mut().enumerate() {
+        if let Val::Ref(r) = val {
+            if let Some(func) = take_func_ref(module_inst, r)? {
+                func_refs.push((RefSlot::Global(idx), func));
+            }
+        }
+    }
+
+    // 6. Assemble state
     // Note: Register file is already compact because restore_offsets() truncates
     // register vectors on function return, so no checkpoint-time compaction needed.
     let state = SerializableState {
-        stacks: stacks.clone(),
+        stacks,
         memory_data_compressed,
         global_values,
         frame_func_indices,
         tables,
         dropped_data,
+        func_refs,
     };
 
-    // 6. Serialize and write (with per-component size diagnostics)
+    // 7. Serialize and write (with per-component size diagnostics)
     let reg_file_size = bincode::serialize(&state.stacks.reg_file)
         .map(|v| v.len())
         .unwrap_or(0);
@@ -402,7 +451,35 @@ pub fn restore<P: AsRef<Path>>(
         }
     }
 
-    // 6. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
+    // 6. Restore function references
+    for (slot, idx) in &state.func_refs {
+        let func = Ref::FuncAddr(func_at(&module_inst, *idx)?);
+        let place = match slot {
+            RefSlot::Local { frame, idx } => state
+                .stacks
+                .activation_frame_stack
+                .get_mut(*frame)
+                .and_then(|f| f.frame.locals.get_mut(*idx))
+                .map(|val| *val = Val::Ref(func)),
+            RefSlot::Reg(idx) => state
+                .stacks
+                .reg_file
+                .ref_regs
+                .get_mut(*idx)
+                .map(|r| *r = func),
+            RefSlot::Global(idx) => match module_inst.global_addrs.get(*idx) {
+                Some(global_addr) => Some(global_addr.set(Val::Ref(func))?),
+                None => None,
+            },
+        };
+        if place.is_none() {
+            return Err(RuntimeError::DeserializationError(
+                "function reference outside the captured state".to_string(),
+            ));
+        }
+    }
+
+    // 7. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
     let primary_mem = module_inst.mem_addrs.first().cloned();
     for (frame_stack, &func_idx) in state
         .stacks
-- 
2.43.0


From 22e64691de5f697e9363d4d9943f9a7ad424e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:35 +0000
Subject: [PATCH 19/22] fix: keep the host stack bounded in the tail-call build

Handlers whose body needs stack memory are not compiled to end in
return_call_indirect, so global.get/set, end, jump, memory.*, table.* and
the trapping truncations added a host stack frame per executed instruction
and a long-running guest overflowed the stack. They now return to the
dispatcher, which starts the tail-call chain again.
---
 src/execution/dispatch_tco.rs | 23 ++++++++++------
 src/execution/handlers.rs     | 49 ++++++++++++++++++++++-------------
 src/execution/ir.rs           |  4 +--
 3 files changed, 48 insertions(+), 28 deletions(-)

diff --git a/src/execution/dispatch_tco.rs b/src/execution/dispatch_tco.rs
index 1937945..15a4c3b 100644
--- a/src/execution/dispatch_tco.rs
+++ b/src/execution/dispatch_tco.rs
@@ -13,6 +13,8 @@ use crate::execution::state::VmState;
 
 /// Kick off the tail-call chain at `state.pc`. Each handler self-perpetuates
 /// the chain via the `advance!` macro until a sentinel returns Halt/Trap/Yield.
+/// Handlers that cannot end in a tail call return `Continue` instead (see the
+/// `resume!` macro), and the chain is kicked off again from here.
 ///
 /// # Safety
 /// `state` must have all pointer fields valid for the duration of the call.
@@ -20,13 +22,18 @@ use crate::execution::state::VmState;
 /// last entry set to a sentinel handler (e.g., `halt`) so out-of-range
 /// dispatch terminates safely.
 pub fn execute_instructions(state: &mut VmState) -> Outcome {
-    if migration::poll_checkpoint(state) {
-        state.trap = Some(RuntimeError::CheckpointRequested);
-        return Outcome::Trap;
+    loop {
+        if migration::poll_checkpoint(state) {
+            state.trap = Some(RuntimeError::CheckpointRequested);
+            return Outcome::Trap;
+        }
+        if state.pc >= state.instrs_len {
+            return Outcome::Halt;
+        }
+        let h = unsafe { *state.handlers.add(state.pc) };
+        match h(state) {
+            Outcome::Continue => continue,
+            other => return other,
+        }
     }
-    if state.pc >= state.instrs_len {
-        return Outcome::Halt;
-    }
-    let h = unsafe { *state.handlers.add(state.pc) };
-    h(state)
 }
diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index f5d5844..1cad487 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -320,6 +320,19 @@ macro_rules! advance {
     }};
 }
 
+/// Continue with the next instruction by returning to the dispatcher instead
+/// of tail-calling its handler. Handlers whose body needs stack memory (a
+/// cloned `Rc`, a `Vec`, a `Val` passed by reference, an error to drop, ...)
+/// use this: LLVM does not turn their last call into `return_call_indirect`,
+/// so an `advance!` there would add a host stack frame per executed
+/// instruction and long-running guests would overflow the stack.
+macro_rules! resume {
+    ($state:expr) => {{
+        let _ = $state;
+        Outcome::Continue
+    }};
+}
+
 // ============================================================================
 // Sentinel handlers — chain terminators
 // ============================================================================
@@ -1158,7 +1171,7 @@ macro_rules! conv_trap {
             }
             operand::$write(state, &dst, $cast(t));
             state.pc += 1;
-            advance!(state)
+            resume!(state)
         }
     };
 }
@@ -1218,7 +1231,7 @@ pub fn conv_i64_trunc_f32_s(state: &mut VmState) -> Outcome {
     }
     operand::write_dst_i64(state, &dst, t as i64);
     state.pc += 1;
-    advance!(state)
+    resume!(state)
 }
 pub fn conv_i64_trunc_f32_u(state: &mut VmState) -> Outcome {
     let (src, dst) = match state.current_instr() {
@@ -1237,7 +1250,7 @@ pub fn conv_i64_trunc_f32_u(state: &mut VmState) -> Outcome {
     }
     operand::write_dst_i64(state, &dst, (t as u64) as i64);
     state.pc += 1;
-    advance!(state)
+    resume!(state)
 }
 pub fn conv_i64_trunc_f64_s(state: &mut VmState) -> Outcome {
     let (src, dst) = match state.current_instr() {
@@ -1256,7 +1269,7 @@ pub fn conv_i64_trunc_f64_s(state: &mut VmState) -> Outcome {
     }
     operand::write_dst_i64(state, &dst, t as i64);
     state.pc += 1;
-    advance!(state)
+    resume!(state)
 }
 pub fn conv_i64_trunc_f64_u(state: &mut VmState) -> Outcome {
     let (src, dst) = match state.current_instr() {
@@ -1275,7 +1288,7 @@ pub fn conv_i64_trunc_f64_u(state: &mut VmState) -> Outcome {
     }
     operand::write_dst_i64(state, &dst, (t as u64) as i64);
     state.pc += 1;
-    advance!(state)
+    resume!(state)
 }
 
 // ============================================================================
@@ -1631,7 +1644,7 @@ pub fn end(state: &mut VmState) -> Outcome {
         }
         state.pc = state.instrs_len;
     }
-    advance!(state)
+    resume!(state)
 }
 
 pub fn jump(state: &mut VmState) -> Outcome {
@@ -1644,7 +1657,7 @@ pub fn jump(state: &mut VmState) -> Outcome {
         state.current_label_idx = state.label_stack().len() - 1;
     }
     state.pc = target_ip;
-    advance!(state)
+    resume!(state)
 }
 
 // ============================================================================
@@ -1786,7 +1799,7 @@ macro_rules! global_get {
             let v = val.$to().unwrap_or(Default::default());
             operand::$write(state, &dst, v);
             state.pc += 1;
-            advance!(state)
+            resume!(state)
         }
     };
 }
@@ -1822,7 +1835,7 @@ macro_rules! global_set {
                 return trap(state);
             }
             state.pc += 1;
-            advance!(state)
+            resume!(state)
         }
     };
 }
@@ -1906,7 +1919,7 @@ pub fn ref_is_null(state: &mut VmState) -> Outcome {
     let is_null = matches!(ref_val, crate::execution::value::Ref::RefNull) as i32;
     rf.set_i32(regs[0], is_null);
     state.pc += 1;
-    advance!(state)
+    resume!(state)
 }
 
 pub fn table_get(state: &mut VmState) -> Outcome {
@@ -1929,7 +1942,7 @@ pub fn table_get(state: &mut VmState) -> Outcome {
         Val::Ref(r) => {
             state.reg_file_mut().set_ref(regs[0], r);
             state.pc += 1;
-            advance!(state)
+            resume!(state)
         }
         _ => {
             state.trap = Some(RuntimeError::TypeMismatch);
@@ -1957,7 +1970,7 @@ pub fn table_set(state: &mut VmState) -> Outcome {
     let ref_val = rf.get_ref(regs[1]);
     table_addr.set(index, Val::Ref(ref_val));
     state.pc += 1;
-    advance!(state)
+    resume!(state)
 }
 
 pub fn table_fill(state: &mut VmState) -> Outcome {
@@ -1980,7 +1993,7 @@ pub fn table_fill(state: &mut VmState) -> Outcome {
     let n = rf.get_i32(regs[2]) as usize;
     table_addr.fill(i, Val::Ref(ref_val), n);
     state.pc += 1;
-    advance!(state)
+    resume!(state)
 }
 
 // ============================================================================
@@ -2004,7 +2017,7 @@ pub fn mem_size(state: &mut VmState) -> Outcome {
         state.reg_file_mut().set_i32(d.index(), size);
     }
     state.pc += 1;
-    advance!(state)
+    resume!(state)
 }
 
 pub fn mem_grow(state: &mut VmState) -> Outcome {
@@ -2026,7 +2039,7 @@ pub fn mem_grow(state: &mut VmState) -> Outcome {
     }
     state.mem_ptr = mem_addr.data_ptr();
     state.pc += 1;
-    advance!(state)
+    resume!(state)
 }
 
 pub fn mem_copy(state: &mut VmState) -> Outcome {
@@ -2047,7 +2060,7 @@ pub fn mem_copy(state: &mut VmState) -> Outcome {
     let len = regs.get_i32(args[2].index());
     mem_addr.memory_copy(dest, src, len);
     state.pc += 1;
-    advance!(state)
+    resume!(state)
 }
 
 pub fn mem_init(state: &mut VmState) -> Outcome {
@@ -2078,7 +2091,7 @@ pub fn mem_init(state: &mut VmState) -> Outcome {
     // Out-of-bounds ranges (also empty ones) panic; host runtime traps.
     mem_addr.init(dest, &data_bytes[offset..offset + len]);
     state.pc += 1;
-    advance!(state)
+    resume!(state)
 }
 
 pub fn mem_fill(state: &mut VmState) -> Outcome {
@@ -2099,7 +2112,7 @@ pub fn mem_fill(state: &mut VmState) -> Outcome {
     let size = regs.get_i32(args[2].index());
     mem_addr.memory_fill(dest, val, size);
     state.pc += 1;
-    advance!(state)
+    resume!(state)
 }
 
 // ============================================================================
diff --git a/src/execution/ir.rs b/src/execution/ir.rs
index e8eddd7..ddc9b38 100644
--- a/src/execution/ir.rs
+++ b/src/execution/ir.rs
@@ -24,8 +24,8 @@ pub type RegSlice = Box<[Reg]>;
 ///
 /// In the loop-style dispatcher, handlers return `Continue` to indicate the
 /// outer loop should fetch the next instruction. In the tail-call dispatcher,
-/// handlers tail-call the next handler directly and `Continue` is normally
-/// not seen by the dispatcher driver.
+/// handlers tail-call the next handler directly; only the handlers that cannot
+/// end in a tail call return `Continue` to have the chain kicked off again.
 ///
 /// Trap conditions store the error in `state.trap`. Function-level yields
 /// (call/return/wasi) store the `ModuleLevelInstr` in `state.yielded`.
-- 
2.43.0


From 05d1d362c645cf9eb72fcca16797a7554e0d1a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:17 +0000
Subject: [PATCH 20/22] fix: args_get and environ_get wrote past the guest's
 pointer array

WASI's pointer arrays have exactly the count reported by *_sizes_get; the
extra null pointer overwrote four bytes of the guest's memory behind it.
---
 src/wasi/passthrough.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 9b44f41..67c43be 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -356,7 +356,7 @@ impl PassthroughWasiImpl {
         }
 
         // Calculate pointer offsets relative to environ_buf_ptr
-        let mut ptr_data = Vec::with_capacity((environ_count as usize + 1) * 4);
+        let mut ptr_data = Vec::with_capacity(environ_count as usize * 4);
         for i in 0..environ_count as usize {
             if !environ_ptrs[i].is_null() {
                 // Calculate offset from the start of environ_buf
@@ -367,8 +367,6 @@ impl PassthroughWasiImpl {
                 ptr_data.extend_from_slice(&0u32.to_le_bytes());
             }
         }
-        // Null terminator for environ array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
 
         // Write pointer array to WebAssembly memory
         memory.store_bytes(environ_ptr as i32, &ptr_data);
@@ -412,7 +410,7 @@ impl PassthroughWasiImpl {
 
         // Build the argument buffer and pointer array
         let mut argv_buf = Vec::with_capacity(total_len);
-        let mut ptr_data = Vec::with_capacity((args.len() + 1) * 4); // +1 for null terminator
+        let mut ptr_data = Vec::with_capacity(args.len() * 4);
 
         for arg in args {
             // Store pointer to current position in buffer (relative to argv_buf_ptr)
@@ -424,9 +422,6 @@ impl PassthroughWasiImpl {
             argv_buf.push(0); // null terminator
         }
 
-        // Add null terminator for the argv array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
-
         // Write pointer array to WebAssembly memory
         memory.store_bytes(argv_ptr as i32, &ptr_data);
 
-- 
2.43.0


From 999c9a2712779a0cf61e1251387afd388e547482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:39 +0000
Subject: [PATCH 21/22] fix: sock_recv and sock_send handed guest addresses to
 the host

The iovec array was passed on as it lies in the guest's memory, so the host
used the guest's addresses as addresses of the interpreter itself.
---
 src/wasi/passthrough.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 67c43be..47a4f08 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -146,6 +146,29 @@ pub struct PassthroughWasiImpl {
     argv: Vec<String>,
 }
 
+/// Reads the guest's iovec array, turning guest addresses into host pointers.
+fn guest_iovecs(memory: &[u8], iovs_ptr: Ptr, iovs_len: Size) -> WasiResult<Vec<WasiIovec>> {
+    let start = iovs_ptr as usize;
+    let iovs = start
+        .checked_add((iovs_len as usize).saturating_mul(8))
+        .and_then(|end| memory.get(start..end))
+        .ok_or(WasiError::Fault)?;
+    iovs.chunks_exact(8)
+        .map(|iov| {
+            let buf_ptr = u32::from_le_bytes([iov[0], iov[1], iov[2], iov[3]]) as usize;
+            let buf_len = u32::from_le_bytes([iov[4], iov[5], iov[6], iov[7]]);
+            let buf = buf_ptr
+                .checked_add(buf_len as usize)
+                .and_then(|end| memory.get(buf_ptr..end))
+                .ok_or(WasiError::Fault)?;
+            Ok(WasiIovec {
+                buf: buf.as_ptr(),
+                buf_len,
+            })
+        })
+        .collect()
+}
+
 impl PassthroughWasiImpl {
     pub fn new(argv: Vec<String>) -> Self {
         PassthroughWasiImpl { argv }
@@ -1212,11 +1235,12 @@ impl PassthroughWasiImpl {
     ) -> WasiResult<i32> {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
+        let iovecs = guest_iovecs(&memory_guard.data, ri_data_ptr, ri_data_len)?;
 
         let wasi_errno = unsafe {
             __wasi_sock_recv(
                 fd,
-                memory_base.add(ri_data_ptr as usize) as *const WasiIovec,
+                iovecs.as_ptr(),
                 ri_data_len,
                 ri_flags,
                 memory_base.add(ro_datalen_ptr as usize) as *mut u32,
@@ -1238,11 +1262,12 @@ impl PassthroughWasiImpl {
     ) -> WasiResult<i32> {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
+        let iovecs = guest_iovecs(&memory_guard.data, si_data_ptr, si_data_len)?;
 
         let wasi_errno = unsafe {
             __wasi_sock_send(
                 fd,
-                memory_base.add(si_data_ptr as usize) as *const WasiIovec,
+                iovecs.as_ptr(),
                 si_data_len,
                 si_flags,
                 memory_base.add(so_datalen_ptr as usize) as *mut u32,
-- 
2.43.0


From f03eab9a9979328fbd1e5ebfc7f1997781b5d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:29 +0000
Subject: [PATCH 22/22] fix: report a module that cannot be decoded instead of
 running what was read of it

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 163dc3f..fc17561 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -146,7 +146,8 @@ fn main() -> Result<()> {
     }
 
     let mut module = Module::new("test");
-    let _ = parser::parse_bytecode(&mut module, &cli.wasm_file);
+    parser::parse_bytecode(&mut module, &cli.wasm_file)
+        .map_err(|e| anyhow::anyhow!("Failed to load {}: {}", cli.wasm_file, e))?;
     let imports: ImportObjects = FxHashMap::default();
 
     let mut wasm_argv = vec![cli.wasm_file.clone()];
-- 
2.43.0

