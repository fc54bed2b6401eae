From 91f32f387de682ee73ff60be9813dfa24701ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:06 +0000
Subject: [PATCH 01/36] fix: fold copysign of two integer literals instead of
 aborting

---
 src/op.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/op.cpp b/src/op.cpp
index 5d59f0d..e835607 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -980,7 +980,7 @@ uint32_t jitc_var_copysign(uint32_t a0, uint32_t a1) {
 
     uint32_t result = 0;
     if (info.simplify) {
-        if (info.literal)
+        if (info.literal && jitc_is_float(info.type))
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return eval_copysign(l0, l1); }, v0, v1);
         else if (a0 == a1)
-- 
2.43.0


From 1f262e240bfbb43feb7bd5222122d50dc9c945b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:06 +0000
Subject: [PATCH 02/36] fix: LLVM: '!=' of floats holds when an operand is a
 NaN

---
 src/llvm_eval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index ba6e8aa..fa90702 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -834,7 +834,7 @@ static void jitc_llvm_render(Variable *v) {
             break;
 
         case VarKind::Neq:
-            fmt(jitc_is_float(a0) ? "    $v = fcmp one $V, $v\n"
+            fmt(jitc_is_float(a0) ? "    $v = fcmp une $V, $v\n"
                                   : "    $v = icmp ne $V, $v\n", v, a0, a1);
             break;
 
-- 
2.43.0


From fda0bb35567624b834cab605e7e520e08e505756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:48 +0000
Subject: [PATCH 03/36] fix: do not simplify 'x != x' of floats to false, x may
 be a NaN

---
 src/op.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/op.cpp b/src/op.cpp
index e835607..c21c8b8 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1145,7 +1145,7 @@ uint32_t jitc_var_neq(uint32_t a0, uint32_t a1) {
         if (info.literal)
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return l0 != l1; }, v0, v1);
-        else if (a0 == a1)
+        else if (a0 == a1 && !jitc_is_float(v0))
             result = jitc_make_zero(info);
     }
 
-- 
2.43.0


From 9f2dbfac22ed1d6640b8971c85773fb6f680fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:48 +0000
Subject: [PATCH 04/36] fix: LLVM: converting a NaN to bool yields true, as it
 does for literals

---
 src/llvm_eval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index fa90702..a7b09ba 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -956,7 +956,7 @@ static void jitc_llvm_render(Variable *v) {
 
         case VarKind::Cast:
             if (jitc_is_bool(v)) {
-                fmt(jitc_is_float(a0) ? "    $v = fcmp one $V, $z\n"
+                fmt(jitc_is_float(a0) ? "    $v = fcmp une $V, $z\n"
                                       : "    $v = icmp ne $V, $z\n",
                     v, a0);
             } else if (jitc_is_bool(a0)) {
-- 
2.43.0


From 4b5704518567509d48b7108f95ef7b7c69993eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 05/36] fix: LLVM: convert unsigned integers to half precision
 via single precision

---
 src/llvm_eval.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index a7b09ba..6ec7f81 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -966,6 +966,12 @@ static void jitc_llvm_render(Variable *v) {
                     v, v, v, jitc_is_float(v) ? "1.0" : "1",
                     v, v, v, v,
                     v, a0, v, v, v);
+            } else if (jitc_is_half(v) && jitc_is_uint(a0)) {
+                // LLVM's x86 backend turns direct conversions of 32-bit unsigned
+                // integers into NaNs. Converting via single precision is equivalent
+                fmt("    %cast_$u = uitofp $V to <$w x float>\n"
+                    "    $v = fptrunc <$w x float> %cast_$u to $T\n",
+                    v->reg_index, a0, v, v->reg_index, v);
             } else if (jitc_is_float(v) && !jitc_is_float(a0)) {
                 fmt(jitc_is_uint(a0) ? "    $v = uitofp $V to $T\n"
                                      : "    $v = sitofp $V to $T\n",
-- 
2.43.0


From 93137f04793b92b0d1749d8ce7bb1381f6a93f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 06/36] fix: LLVM: do not drop NaN values in
 local/conflict-free scatter-reductions

---
 src/llvm_scatter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/llvm_scatter.cpp b/src/llvm_scatter.cpp
index 2301d72..f7c9d04 100644
--- a/src/llvm_scatter.cpp
+++ b/src/llvm_scatter.cpp
@@ -235,7 +235,7 @@ const char *jitc_llvm_append_reduce_op_local(VarType vt, ReduceOp op, const Vari
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
     const char *op_name = reduce_op_name[(int) op],
-               *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
+               *cmp_op = jitc_is_float(v) ? "fcmp une" : "icmp ne";
 
     std::string atomic = jitc_llvm_render_atomic(vt, op, "%red_out", "do_scatter_end");
 
@@ -331,7 +331,7 @@ static const char *jitc_llvm_append_reduce_op_noconflict(VarType vt, ReduceOp op
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
     const char *op_name = reduce_op_name[(int) op],
-               *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
+               *cmp_op = jitc_is_float(v) ? "fcmp une" : "icmp ne";
 
 
     auto [vector_reduce_name, vector_reduce_modifier, vector_reduce_identity,
-- 
2.43.0


From 4c1bd5f54b6413af0724b2672b0fd7cf391b8ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 07/36] fix: LLVM: support expanded scatter-reductions of
 16-bit integers

---
 src/llvm_ts.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 816d6f5..1ec49dc 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -1069,6 +1069,8 @@ static ReduceExpanded reduce_expanded_create(ReduceOp op) {
 static ReduceExpanded reduce_expanded_create(VarType type, ReduceOp op) {
     using half = drjit::half;
     switch (type) {
+        case VarType::Int16:   return reduce_expanded_create<int16_t >(op);
+        case VarType::UInt16:  return reduce_expanded_create<uint16_t>(op);
         case VarType::Int32:   return reduce_expanded_create<int32_t >(op);
         case VarType::UInt32:  return reduce_expanded_create<uint32_t>(op);
         case VarType::Int64:   return reduce_expanded_create<int64_t >(op);
-- 
2.43.0


From a72e923c2bb8235e27cb0ede442bdeb021f50d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 08/36] fix: scatter exchange/CAS that is skipped returns the
 right values and leaks no reference

---
 src/op.cpp | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index c21c8b8..c9939c0 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2519,18 +2519,12 @@ uint32_t jitc_var_scatter_exch(uint32_t *target_p, uint32_t value,
             "jit_var_scatter_xchg(): input arrays are symbolic, but the "
             "operation was issued outside of a symbolic recording session.");
 
-    if (target_v->is_literal() && value_v->is_literal() &&
-        target_v->literal == value_v->literal) {
-        print_log("skipped, target/source are value variables with the "
-                  "same value");
-        target.release();
-        return *target_p;
-    }
-
     if (mask_v->is_literal() && mask_v->literal == 0) {
+        // Masked-off lanes return 0
         print_log("skipped, always masked");
-        target.release();
-        return *target_p;
+        uint64_t zero = 0;
+        return jitc_var_literal(target_info.backend, target_info.type, &zero,
+                                var_info.size, 0);
     }
 
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
@@ -2630,17 +2624,14 @@ void jitc_var_scatter_cas(uint32_t *target_p, uint32_t compare, uint32_t value,
             "jit_var_scatter_cas(): input arrays are symbolic, but the "
             "operation was issued outside of a symbolic recording session.");
 
-    if (target_v->is_literal() && value_v->is_literal() &&
-        target_v->literal == value_v->literal) {
-        print_log("skipped, target/source are value variables with the "
-                  "same value");
-        target.release();
-        return;
-    }
-
     if (mask_v->is_literal() && mask_v->literal == 0) {
+        // Masked-off lanes return 0
         print_log("skipped, always masked");
-        target.release();
+        uint64_t zero = 0;
+        *old = jitc_var_literal(target_info.backend, target_info.type, &zero,
+                                var_info.size, 0);
+        *success = jitc_var_literal(target_info.backend, VarType::Bool, &zero,
+                                    var_info.size, 0);
         return;
     }
 
-- 
2.43.0


From 897ba73eb088407c8cc9155ab6a16536c06782c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 09/36] fix: complete pending writes before a conflicting
 scatter, reduction or exchange

---
 src/op.cpp  | 75 ++++++++++++++++++++++++++++++++++++++++++++++-------
 src/var.cpp |  4 +++
 2 files changed, 69 insertions(+), 10 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index c9939c0..89014f8 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2383,6 +2383,53 @@ static const char *reduce_op_symbol[(int) ReduceOp::Count] = {
     "=", "+=", "*=", "= min", "= max", "&=", "|="
 };
 
+/// Are there pending writes to 'target' that must complete before recording
+/// another write of type 'op'? Within a kernel, and among kernels launched by
+/// the same jit_eval() call, only reductions of one type can be reordered.
+static bool jitc_scatter_must_flush(uint32_t target, ReduceOp op) {
+    const Variable *target_v = jitc_var(target);
+    if (!target_v->is_dirty())
+        return false;
+
+    if (op == ReduceOp::Identity)
+        return true;
+
+    for (uint32_t index : thread_state(target_v->backend)->side_effects) {
+        const Variable *v = jitc_var(index);
+        uint32_t ptr = v->dep[0];
+        ReduceOp pending = ReduceOp::Identity;
+
+        switch ((VarKind) v->kind) {
+            case VarKind::Scatter:
+                pending = (ReduceOp) (uint32_t) v->literal;
+                break;
+
+            case VarKind::PacketScatter:
+                pending = ((PacketScatterData *) v->data)->op;
+                break;
+
+            case VarKind::Nop: // scatter_inc, scatter_exch, scatter_cas
+                ptr = v->dep[3];
+                break;
+
+            default: // Nested side effects, be conservative
+                return true;
+        }
+
+        if (pending != op && (!ptr || jitc_var(ptr)->dep[3] == target))
+            return true;
+    }
+
+    return false;
+}
+
+/// Flush pending writes to 'target' that conflict with a write of type 'op'
+static void jitc_scatter_flush(uint32_t target, ReduceOp op) {
+    if (jitc_scatter_must_flush(target, op))
+        jitc_var_eval(target,
+                      /* raise_dirty_error = */ !jit_flag(JitFlag::SymbolicScope));
+}
+
 uint32_t jitc_var_scatter_inc(uint32_t *target_p, uint32_t index, uint32_t mask) {
     auto [var_info, index_v, mask_v] =
         jitc_var_check("jit_var_scatter_inc", index, mask);
@@ -2415,6 +2462,10 @@ uint32_t jitc_var_scatter_inc(uint32_t *target_p, uint32_t index, uint32_t mask)
     uint32_t flags = jitc_flags();
     var_info.symbolic |= (flags & (uint32_t) JitFlag::SymbolicScope) != 0;
 
+    // Flush pending writes to 'target'
+    jitc_scatter_flush(target, ReduceOp::Identity);
+    target_v = jitc_var(target);
+
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
     if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1)
         target = steal(jitc_var_copy(target));
@@ -2527,6 +2578,10 @@ uint32_t jitc_var_scatter_exch(uint32_t *target_p, uint32_t value,
                                 var_info.size, 0);
     }
 
+    // Flush pending writes to 'target'
+    jitc_scatter_flush(target, ReduceOp::Identity);
+    target_v = jitc_var(target);
+
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
     if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1) {
         target = steal(jitc_var_copy(target));
@@ -2635,6 +2690,10 @@ void jitc_var_scatter_cas(uint32_t *target_p, uint32_t compare, uint32_t value,
         return;
     }
 
+    // Flush pending writes to 'target'
+    jitc_scatter_flush(target, ReduceOp::Identity);
+    target_v = jitc_var(target);
+
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
     if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1) {
         target = steal(jitc_var_copy(target));
@@ -2978,11 +3037,9 @@ uint32_t jitc_var_scatter(uint32_t target_, uint32_t value, uint32_t index_,
     target_v = jitc_var(target);
 
     // Flush any potential conflicting writes by evaluating the target before the scatter
-    if (target_v->is_dirty() && op == ReduceOp::Identity
-                             && mode != ReduceMode::Permute
-                             && mode != ReduceMode::NoConflicts) {
-        bool raise_dirty_error = !jit_flag(JitFlag::SymbolicScope);
-        jitc_var_eval(target, raise_dirty_error);
+    if (op != ReduceOp::Identity || (mode != ReduceMode::Permute &&
+                                     mode != ReduceMode::NoConflicts)) {
+        jitc_scatter_flush(target, op);
         target_v = jitc_var(target);
     }
 
@@ -3125,11 +3182,9 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
     target_ = target;
 
     // Flush any potential conflicting writes by evaluating the target before the scatter
-    if (target_v->is_dirty() && op == ReduceOp::Identity
-                             && mode != ReduceMode::Permute
-                             && mode != ReduceMode::NoConflicts) {
-        bool raise_dirty_error = !jit_flag(JitFlag::SymbolicScope);
-        jitc_var_eval(target, raise_dirty_error);
+    if (op != ReduceOp::Identity || (mode != ReduceMode::Permute &&
+                                     mode != ReduceMode::NoConflicts)) {
+        jitc_scatter_flush(target, op);
         target_v = jitc_var(target);
     }
 
diff --git a/src/var.cpp b/src/var.cpp
index 7ff9e74..ca0b14d 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2910,6 +2910,10 @@ std::pair<uint32_t, uint32_t> jitc_var_expand(uint32_t index, ReduceOp op) {
 
     v = jitc_var(index);
     if (!v->is_literal() || v->literal != identity) {
+        // Writes that are still pending would not be visible in the copy
+        if (v->is_dirty())
+            jitc_var_eval(index, false);
+
         void *src_addr = nullptr;
         Ref src = steal(jitc_var_data(index, false, &src_addr));
         jitc_memcpy_async(backend, dst_addr, src_addr,
-- 
2.43.0


From e963bc17eba2748b421d55495dbbe8700abe08b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 10/36] fix: simplifications do not resize the caller's scalar
 operand in place

---
 src/api.cpp | 2 +-
 src/var.cpp | 4 ++--
 src/var.h   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index 5847f0f..ddb1db6 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1035,7 +1035,7 @@ int jit_var_is_unaligned(uint32_t index) {
 
 uint32_t jit_var_resize(uint32_t index, size_t size) {
     lock_guard guard(state.lock);
-    return jitc_var_resize(index, size);
+    return jitc_var_resize(index, size, /* in_place = */ true);
 }
 
 VarType jit_var_type(uint32_t index) {
diff --git a/src/var.cpp b/src/var.cpp
index ca0b14d..5228326 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1996,7 +1996,7 @@ uint32_t jitc_var_shrink(uint32_t index, size_t size) {
     return result;
 }
 
-uint32_t jitc_var_resize(uint32_t index, size_t size) {
+uint32_t jitc_var_resize(uint32_t index, size_t size, bool in_place) {
     if (index == 0 && size == 0)
         return 0;
 
@@ -2022,7 +2022,7 @@ uint32_t jitc_var_resize(uint32_t index, size_t size) {
     }
 
     uint32_t result;
-    if (!v->is_evaluated() && v->ref_count == 1) {
+    if (in_place && !v->is_evaluated() && v->ref_count == 1) {
         // Nobody else holds a reference -- we can directly resize this variable
         jitc_var_inc_ref(index, v);
         jitc_lvn_drop(index, v);
diff --git a/src/var.h b/src/var.h
index e68d12f..9910c70 100644
--- a/src/var.h
+++ b/src/var.h
@@ -102,7 +102,7 @@ extern uint32_t jitc_var_copy(uint32_t index);
 extern uint32_t jitc_var_copy_opaque(uint32_t index);
 
 /// Create a resized copy of a variable
-extern uint32_t jitc_var_resize(uint32_t index, size_t size);
+extern uint32_t jitc_var_resize(uint32_t index, size_t size, bool in_place = false);
 
 /// Increase the external reference count of a given variable
 extern void jitc_var_inc_ref(uint32_t index, Variable *v) noexcept;
-- 
2.43.0


From 1086a0827507db57f0d288a7a12927c623e9df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 11/36] fix: remainder and selection of empty operands do not
 dereference a null pointer

---
 src/op.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 89014f8..4ee849f 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -672,11 +672,11 @@ uint32_t jitc_var_mod(uint32_t a0, uint32_t a1) {
     if (info.simplify && info.literal) {
         result = jitc_eval_literal(
             info, [](auto l0, auto l1) { return eval_mod(l0, l1); }, v0, v1);
-    } else if (jitc_is_uint(info.type) && v1->is_literal() && jitc_is_pow2(v1->literal)) {
+    } else if (info.size && jitc_is_uint(info.type) && v1->is_literal() && jitc_is_pow2(v1->literal)) {
         uint64_t value = v1->literal - 1;
         Ref tmp = steal(jitc_var_literal(info.backend, info.type, &value, info.size, 0));
         return jitc_var_and(a0, tmp);
-    } else if (v1->is_literal() && jitc_is_one(v1)) {
+    } else if (info.size && v1->is_literal() && jitc_is_one(v1)) {
         uint64_t value = 0;
         result = jitc_var_literal(info.backend, info.type, &value, info.size, 0);
     }
@@ -1274,6 +1274,9 @@ uint32_t jitc_var_select(uint32_t a0, uint32_t a1, uint32_t a2) {
          (v1->is_array() != v2->is_array())))
         jitc_raise("jitc_var_select(): invalid operands!");
 
+    if (!info.size)
+        return 0;
+
     info.type = (VarType) v1->type;
 
     uint32_t result = 0;
-- 
2.43.0


From 654ebdd5458e189c7c65dd300162cc844cffd02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 12/36] fix: LLVM: block_mkperm with a partial last block does
 not run past the array

---
 src/llvm_ts.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 1ec49dc..1602999 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -845,7 +845,7 @@ uint32_t LLVMThreadState::block_mkperm(const uint32_t *ptr, uint32_t size,
             uint32_t *buckets_local = (uint32_t *) malloc_check(bsize);
             memset(buckets_local, 0, bsize);
 
-            for (uint32_t i = start; i != end; ++i)
+            for (uint32_t i = start; i < end; ++i)
                 buckets_local[ptr[i]]++;
 
             buckets[index] = buckets_local;
@@ -913,7 +913,7 @@ uint32_t LLVMThreadState::block_mkperm(const uint32_t *ptr, uint32_t size,
 
             uint32_t *buckets_local = buckets[index];
 
-            for (uint32_t i = start; i != end; ++i) {
+            for (uint32_t i = start; i < end; ++i) {
                 uint32_t idx = buckets_local[ptr[i]]++;
                 perm[idx] = i;
             }
-- 
2.43.0


From 2a417d05553e13ce5ea6ee8f8381baebf31cbfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 13/36] fix: reductions of constant arrays are exact and do not
 use a stale variable pointer

---
 src/var.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 5228326..8f43030 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2416,14 +2416,27 @@ uint32_t jitc_var_compress(uint32_t index) {
 template <typename T> static void jitc_var_reduce_scalar_add(uint32_t size, void *ptr) {
     T value;
     memcpy(&value, ptr, sizeof(T));
-    value = T(value * T(size));
+    if constexpr (std::is_integral_v<T>)
+        value = T((uint64_t) value * (uint64_t) size); // wraps around
+    else
+        value = T((double) value * (double) size);
     memcpy(ptr, &value, sizeof(T));
 }
 
 template <typename T> static void jitc_var_reduce_scalar_mul(uint32_t size, void *ptr) {
     T value;
     memcpy(&value, ptr, sizeof(T));
-    value = T(std::pow((double) value, (double) T(size)));
+    if constexpr (std::is_integral_v<T>) {
+        uint64_t base = (uint64_t) value, result = 1; // wraps around
+        for (uint32_t i = size; i; i >>= 1) {
+            if (i & 1)
+                result *= base;
+            base *= base;
+        }
+        value = T(result);
+    } else {
+        value = T(std::pow((double) value, (double) size));
+    }
     memcpy(ptr, &value, sizeof(T));
 }
 
@@ -2500,11 +2513,11 @@ uint32_t jitc_var_block_reduce(ReduceOp op, uint32_t index, uint32_t block_size,
                 break; // Nothing to do for the other reducion types
         }
 
-        Ref result = steal(jitc_var_literal((JitBackend) v->backend, (VarType) v->type, &value_header, reduced, 0));
+        Ref result = steal(jitc_var_literal(backend, vt, &value_header, reduced, 0));
 
         if (reduced * block_size != size) {
 
-            Ref trailer = steal(jitc_var_literal((JitBackend) v->backend, (VarType) v->type, &value_trailer, reduced, 0)),
+            Ref trailer = steal(jitc_var_literal(backend, vt, &value_trailer, reduced, 0)),
                 counter = steal(jitc_var_counter(backend, reduced, true)),
                 limit = steal(jitc_var_u32(backend, reduced - 1)),
                 mask = steal(jitc_var_lt(counter, limit));
-- 
2.43.0


From 91d1fab5cbd9e10124979fef2283b2b466e456aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 14/36] fix: CPU any()/all() do not write past the end of the
 array

---
 src/init.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/init.cpp b/src/init.cpp
index fdd3aef..0f39cc0 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -918,11 +918,12 @@ void ThreadState::notify_opaque_width(uint32_t, uint32_t) {}
 void ThreadState::notify_init_undefined(uint32_t) {}
 void ThreadState::block_reduce_bool(uint8_t *values, uint32_t size,
                                     uint8_t *out, ReduceOp op) {
-    /* When \c size is not a multiple of 4, the implementation will initialize
-       up to 3 bytes beyond the end of the supplied range so that an efficient
-       32 bit reduction algorithm can be used. This is fine for allocations made
-       using
-       \ref jit_malloc(), which allow for this. */
+    /* When \c size is not a multiple of 4, the GPU implementation will
+       initialize up to 3 bytes beyond the end of the supplied range so that an
+       efficient 32 bit reduction algorithm can be used. This is fine for
+       allocations made using \ref jit_malloc(), which allow for this. On the
+       CPU, the array may be a view of a larger one, or wrap memory that was
+       not allocated by Dr.Jit. Nothing may be written there. */
 
     uint32_t size_4   = ceil_div(size, 4),
              trailing = size_4 * 4 - size;
@@ -932,6 +933,11 @@ void ThreadState::block_reduce_bool(uint8_t *values, uint32_t size,
 
     if (trailing) {
         bool filler = op == ReduceOp::Or ? false : true;
+        if (!jitc_is_gpu(backend)) {
+            block_reduce(VarType::UInt8, op, size, size, values, out);
+            memset_async(out + 1, 3, sizeof(bool), &filler);
+            return;
+        }
         memset_async(values + size, trailing, sizeof(bool), &filler);
     }
 
-- 
2.43.0


From 5b58cda212454bd8d24098cd5f458212b1b8614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 15/36] fix: reductions of undefined arrays do not use a stale
 variable pointer

---
 src/var.cpp | 68 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 8f43030..5d9e8ae 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2306,10 +2306,13 @@ bool jitc_var_any(uint32_t index) {
     if (v->is_literal())
         return (bool) v->literal;
 
-    if (jitc_var_eval(index))
-        v = jitc_var(index);
+    JitBackend backend = (JitBackend) v->backend;
+    uint32_t size = v->size;
+
+    void *values = nullptr;
+    Ref in = steal(jitc_var_data(index, true, &values));
 
-    return jitc_any((JitBackend) v->backend, (uint8_t *) v->data, v->size);
+    return jitc_any(backend, (uint8_t *) values, size);
 }
 
 uint32_t jitc_var_any_async(JitBackend backend, uint32_t index) {
@@ -2328,12 +2331,14 @@ uint32_t jitc_var_any_async(JitBackend backend, uint32_t index) {
     if (v->kind == (uint32_t) VarKind::DefaultMask)
         return jitc_var_bool(backend, true);
 
-    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
+    uint32_t size = v->size;
 
-    jitc_var_eval(index);
-    v = jitc_var(index);
+    void *values = nullptr;
+    Ref in = steal(jitc_var_data(index, true, &values));
+
+    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
 
-    jitc_any_async(backend, (uint8_t *) v->data, v->size, mem);
+    jitc_any_async(backend, (uint8_t *) values, size, mem);
 
     return jitc_var_mem_map(backend, VarType::Bool, mem, 1, 1);
 }
@@ -2350,10 +2355,13 @@ bool jitc_var_all(uint32_t index) {
     if (v->is_literal())
         return (bool) v->literal;
 
-    if (jitc_var_eval(index))
-        v = jitc_var(index);
+    JitBackend backend = (JitBackend) v->backend;
+    uint32_t size = v->size;
 
-    return jitc_all((JitBackend) v->backend, (uint8_t *) v->data, v->size);
+    void *values = nullptr;
+    Ref in = steal(jitc_var_data(index, true, &values));
+
+    return jitc_all(backend, (uint8_t *) values, size);
 }
 
 uint32_t jitc_var_all_async(JitBackend backend, uint32_t index) {
@@ -2369,12 +2377,14 @@ uint32_t jitc_var_all_async(JitBackend backend, uint32_t index) {
     if (v->is_literal())
         return jitc_var_bool(backend, (bool) v->literal);
 
-    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
+    uint32_t size = v->size;
 
-    jitc_var_eval(index);
-    v = jitc_var(index);
+    void *values = nullptr;
+    Ref in = steal(jitc_var_data(index, true, &values));
+
+    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
 
-    jitc_all_async(backend, (uint8_t *) v->data, v->size, mem);
+    jitc_all_async(backend, (uint8_t *) values, size, mem);
 
     return jitc_var_mem_map(backend, VarType::Bool, mem, 1, 1);
 }
@@ -2558,14 +2568,15 @@ uint32_t jitc_var_block_reduce(ReduceOp op, uint32_t index, uint32_t block_size,
 
         return jitc_var_scatter(target, index, offset, t_mask, op, ReduceMode::Auto);
     } else if (symbolic == 0) {
-        jitc_var_eval(index);
+        void *in = nullptr;
+        Ref in_v = steal(jitc_var_data(index, true, &in));
 
         jitc_log(Debug, "jit_var_block_reduce(r%u, block_size=%u)", index, block_size);
 
         void *out =
             jitc_malloc(backend, reduced * (size_t) type_size[(int) vt]);
         Ref out_v = steal(jitc_var_mem_map(backend, vt, out, reduced, 1));
-        jitc_block_reduce(backend, vt, op, size, block_size, jitc_var(index)->data, out);
+        jitc_block_reduce(backend, vt, op, size, block_size, in, out);
 
         return out_v.release();
     } else {
@@ -2711,16 +2722,16 @@ uint32_t jitc_var_reduce(JitBackend backend, VarType vt, ReduceOp op,
     jitc_log(Debug, "jit_var_reduce(r%u, op=%s)", index,
              red_name[(int) op]);
 
-    if (jitc_var_eval(index))
-        v = jitc_var(index);
-
-    uint8_t *values = (uint8_t *) v->data;
     uint32_t size = v->size;
 
+    void *values = nullptr;
+    Ref in = steal(jitc_var_data(index, true, &values));
+
     void *data = jitc_malloc(backend, (size_t) type_size[(int) vt]);
+    Ref out = steal(jitc_var_mem_map(backend, vt, data, 1, 1));
     jitc_block_reduce(backend, vt, op, size, size, values, data);
 
-    return jitc_var_mem_map(backend, vt, data, 1, 1);
+    return out.release();
 }
 
 uint32_t jitc_var_reduce_dot(uint32_t index_1, uint32_t index_2) {
@@ -2747,16 +2758,13 @@ uint32_t jitc_var_reduce_dot(uint32_t index_1, uint32_t index_2) {
         uint32_t size = v1->size;
 
         // Fast path
-        bool eval = jitc_var_eval(index_1);
-        eval |= (bool)jitc_var_eval(index_2);
-        if (eval) {
-            v1 = jitc_var(index_1);
-            v2 = jitc_var(index_2);
-        }
+        void *ptr_1 = nullptr, *ptr_2 = nullptr;
+        jitc_var_schedule(index_1);
+        jitc_var_schedule(index_2);
+        Ref in_1 = steal(jitc_var_data(index_1, true, &ptr_1)),
+            in_2 = steal(jitc_var_data(index_2, true, &ptr_2));
 
-        void *ptr_1 = v1->data,
-             *ptr_2 = v2->data,
-             *data = jitc_malloc(backend, (size_t) type_size[(int) vt]);
+        void *data = jitc_malloc(backend, (size_t) type_size[(int) vt]);
 
         jitc_reduce_dot(backend, vt, ptr_1, ptr_2, size, data);
 
-- 
2.43.0


From 3e51e90306d6bbcba95cb0f1795e83fd0a72fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 16/36] fix: block prefix reductions of constant arrays

---
 src/var.cpp | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 5d9e8ae..5ab6aed 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2838,20 +2838,36 @@ uint32_t jitc_var_block_prefix_reduce(ReduceOp op,
     JitBackend backend = (JitBackend) v->backend;
     uint32_t size = v->size;
 
+    if (block_size == 0 || block_size > size)
+        jitc_raise("jit_var_block_prefix_reduce(): invalid block size (size=%u, "
+                   "block_size=%u)!", size, block_size);
+
     if (v->is_literal()) {
-        if (op == ReduceOp::Max || op == ReduceOp::Min) {
+        if ((op == ReduceOp::Max || op == ReduceOp::Min) && !exclusive) {
             jitc_var_inc_ref(index);
             return index;
         } else if (op == ReduceOp::Add) {
             Ref ctr = steal(jitc_var_counter(backend, size, true));
-            if (block_size != size) {
-                Ref bsize = steal(jitc_var_u32(backend, block_size));
-                ctr = steal(jitc_var_mod(ctr, bsize));
-            }
 
-            if (reverse) {
-                Ref size_v = steal(jitc_var_u32(backend, block_size - 1));
-                ctr = steal(jitc_var_sub(size_v, ctr));
+            if (!reverse) {
+                if (block_size != size) {
+                    Ref bsize = steal(jitc_var_u32(backend, block_size));
+                    ctr = steal(jitc_var_mod(ctr, bsize));
+                }
+            } else {
+                // Index of the last entry of the current block
+                Ref last = steal(jitc_var_u32(backend, size - 1));
+
+                if (block_size != size) {
+                    Ref bsize = steal(jitc_var_u32(backend, block_size)),
+                        bsize_1 = steal(jitc_var_u32(backend, block_size - 1)),
+                        offset = steal(jitc_var_mod(ctr, bsize)),
+                        start = steal(jitc_var_sub(ctr, offset)),
+                        end = steal(jitc_var_add(start, bsize_1));
+                    last = steal(jitc_var_min(end, last));
+                }
+
+                ctr = steal(jitc_var_sub(last, ctr));
             }
 
             if (!exclusive) {
@@ -2866,12 +2882,8 @@ uint32_t jitc_var_block_prefix_reduce(ReduceOp op,
         }
     }
 
-    if (!v->is_evaluated() || v->is_dirty()) {
-        jitc_var_eval(index);
-        v = jitc_var(index);
-    }
-
-    const void *data_in = v->data;
+    void *data_in = nullptr;
+    Ref in = steal(jitc_var_data(index, true, &data_in));
 
     void *data_out =
         jitc_malloc(backend, (size_t) type_size[(int) vt] * size);
-- 
2.43.0


From a579d635313c9eab406792eb17cc4ef892f41611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 17/36] fix: define jit_reduce() with the signature declared in
 the header

---
 src/api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api.cpp b/src/api.cpp
index ddb1db6..8fb88ff 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1301,7 +1301,7 @@ void jit_memcpy_async(JitBackend backend, void *dst, const void *src, size_t siz
 }
 
 void jit_reduce(JitBackend backend, VarType type, ReduceOp op,
-                uint32_t size, const void *in, void *out) {
+                const void *in, uint32_t size, void *out) {
     lock_guard guard(state.lock);
     jitc_reduce(backend, type, op, size, in, out);
 }
-- 
2.43.0


From 8e551bfbdac18bca13677b351bbe9f8c67a90d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 18/36] fix: matrix products with an empty sum write zeros

---
 src/util.cpp | 14 +++++++++++++-
 src/util.h   | 15 ++++-----------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index abc9ed4..4c765c5 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -70,7 +70,7 @@ void jitc_batched_gemm(JitBackend backend, VarType type, bool At, bool Bt,
                  uint32_t M, uint32_t N, uint32_t K,
                  const GemmBatch *batch,
                  const void *A, const void *B, void *C) {
-    if (M == 0 || N == 0 || K == 0)
+    if (M == 0 || N == 0)
         return;
     if (batch && batch->n_bdims + batch->n_rdims > DRJIT_GEMM_MAX_BDIMS)
         jitc_raise("jit_batched_gemm(): n_bdims + n_rdims exceeds "
@@ -85,6 +85,18 @@ void jitc_batched_gemm(JitBackend backend, VarType type, bool At, bool Bt,
                    "types Float16, Float32, and Float64.",
                    type_name[(int) type]);
 
+    uint32_t grid_count, reduce_count;
+    jitc_gemm_batch_counts(batch, grid_count, reduce_count);
+    if (grid_count == 0)
+        return;
+    if (K == 0 || reduce_count == 0) {
+        // Sum over an empty range
+        uint64_t zero = 0;
+        jitc_memset_async(backend, C, grid_count * M * N,
+                          type_size[(int) type], &zero);
+        return;
+    }
+
     // Beyond pruning trivial (``extent == 1``) dimensions, some batch
     // shapes are mathematically equivalent to a non-batched (or
     // less-batched) GEMM whose ``M`` or ``K`` dimension has been
diff --git a/src/util.h b/src/util.h
index 069c816..1645a64 100644
--- a/src/util.h
+++ b/src/util.h
@@ -60,18 +60,11 @@ inline bool jitc_gemm_batch_counts(const GemmBatch *batch,
     reduce_count = 1;
     if (!batch)
         return true;
-    for (uint32_t d = 0; d < batch->n_bdims; ++d) {
-        if (batch->extent[d] == 0)
-            return false;
+    for (uint32_t d = 0; d < batch->n_bdims; ++d)
         grid_count *= batch->extent[d];
-    }
-    for (uint32_t d = 0; d < batch->n_rdims; ++d) {
-        uint32_t dd = batch->n_bdims + d;
-        if (batch->extent[dd] == 0)
-            return false;
-        reduce_count *= batch->extent[dd];
-    }
-    return true;
+    for (uint32_t d = 0; d < batch->n_rdims; ++d)
+        reduce_count *= batch->extent[batch->n_bdims + d];
+    return grid_count != 0 && reduce_count != 0;
 }
 
 /// 'All' reduction for boolean arrays (synchronous)
-- 
2.43.0


From 016290f52480408d6a14d60452f487a70c8e289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 19/36] fix: views of arrays with pending writes and of
 undefined arrays

---
 src/var.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 5ab6aed..ad0eece 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1983,11 +1983,10 @@ uint32_t jitc_var_shrink(uint32_t index, size_t size) {
         result = jitc_var_literal(backend, vt, &v->literal, size, 0);
     } else {
         void *dst_addr = nullptr;
-        Ref dst = steal(jitc_var_data(index, false, &dst_addr));
+        Ref dst = steal(jitc_var_data(index, true, &dst_addr));
 
         result = jitc_var_mem_map(backend, vt, dst_addr, size, false);
-        jitc_var(result)->dep[3] = index;
-        jitc_var_inc_ref(index);
+        jitc_var(result)->dep[3] = dst.release();
     }
 
     jitc_log(Debug, "jit_var_shrink(): %s r%u[%zu] = shrink(r%u)",
-- 
2.43.0


From 906164589ac6f08422b93ac130170b1d2c748be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:20 +0000
Subject: [PATCH 20/36] fix: conditionals whose results are used by kernels of
 different sizes

---
 src/eval.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eval.cpp b/src/eval.cpp
index ea25e80..5bd6396 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -1144,6 +1144,11 @@ void jitc_eval_impl(ThreadState *ts) {
     for (ScheduledGroup &group : schedule_groups) {
         jitc_assemble(ts, group);
         jitc_run(ts, group);
+
+        // Registers are local to a kernel. Variables of this group should not
+        // be mistaken for active ones (e.g. outputs of conditionals) below.
+        for (uint32_t i = group.start; i != group.end; ++i)
+            jitc_var(schedule[i].index)->reg_index = 0;
     }
 
     // Subsequent kernel launches must be serialized wrt. the launches above.
-- 
2.43.0


From 39df65eed2be76f4265b70b947944d648349c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:20 +0000
Subject: [PATCH 21/36] fix: results of a scalar conditional take the size of
 its branches

---
 src/cond.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cond.cpp b/src/cond.cpp
index d23e516..e4e3bf8 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -168,6 +168,7 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
                        i_cond, i_t, i_f, l1, l2, l3);
         }
 
+        v2.size = lm;
         v2.dep[0] = i_t;
         v2.dep[1] = i_f;
         v2.dep[2] = pred;
-- 
2.43.0


From 5e22130a87922e99c05a3f5334fc49a0efd776a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 22/36] fix: refuse a third or fourth operand with unfinished
 writes like the others

---
 src/var.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index ad0eece..7e8d49c 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1270,7 +1270,7 @@ uint32_t jitc_var_new_node_3(JitBackend backend, VarKind kind, VarType vt,
             jitc_raise_dirty_error(a1);
 
         v2 = jitc_var(a2);
-        if (v1->is_dirty())
+        if (v2->is_dirty())
             jitc_raise_dirty_error(a2);
     }
 
@@ -1309,11 +1309,11 @@ uint32_t jitc_var_new_node_4(JitBackend backend, VarKind kind, VarType vt,
             jitc_raise_dirty_error(a1);
 
         v2 = jitc_var(a2);
-        if (v1->is_dirty())
+        if (v2->is_dirty())
             jitc_raise_dirty_error(a2);
 
         v3 = jitc_var(a3);
-        if (v1->is_dirty())
+        if (v3->is_dirty())
             jitc_raise_dirty_error(a3);
     }
 
-- 
2.43.0


From 44698e9e26926c3df840fbee897b269ffb714f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 23/36] fix: masked reads of initialized local arrays, size and
 pending writes of the mask

jit_array_read() ignored the mask when it could directly return the value
used to initialize the array, the size of the mask did not contribute to
that of the result, and a mask with pending side effects was not evaluated.
---
 src/array.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index 4ab7c6e..36b983d 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -9,6 +9,7 @@
 
 #include "internal.h"
 #include "var.h"
+#include "op.h"
 #include "log.h"
 #include "eval.h"
 #include "array.h"
@@ -160,30 +161,36 @@ uint32_t jitc_array_read(uint32_t source, uint32_t offset, uint32_t mask_) {
 
     if ((flags & (uint32_t) JitFlag::SymbolicScope) == 0) {
         if (vs->kind == (uint32_t) VarKind::ArrayInit) {
-            jitc_var_inc_ref(vs->dep[1]);
-            return vs->dep[1];
+            // Disabled entries evaluate to zero
+            Ref value = borrow(vs->dep[1]);
+            if (vm->kind != (uint32_t) VarKind::DefaultMask)
+                value = steal(jitc_var_and(value, mask));
+            return jitc_var_resize(value, size);
         } else if (vs->kind == (uint32_t) VarKind::Array) {
             // uninitialized read
             return jitc_var_undefined(backend, (VarType) vs->type, size);
         }
     }
 
-    if (vo->is_dirty()) {
+    if (vo->is_dirty() || vm->is_dirty()) {
         jitc_eval(thread_state((JitBackend) vs->backend));
 
         vs = jitc_var(source);
         vo = jitc_var(offset);
+        vm = jitc_var(mask);
 
         if (vo->is_dirty())
             jitc_raise_dirty_error(offset);
+        if (vm->is_dirty())
+            jitc_raise_dirty_error(mask);
     }
 
     Variable v;
     v.kind = (uint32_t) VarKind::ArrayRead;
     v.backend = vs->backend;
     v.type = vs->type;
-    v.size = std::max(vs->size, vo->size);
-    v.symbolic = vs->symbolic || vo->symbolic;
+    v.size = (uint32_t) size;
+    v.symbolic = vs->symbolic || vo->symbolic || vm->symbolic;
 
     v.dep[0] = source;
     jitc_var_inc_ref(source, vs);
-- 
2.43.0


From a4bf763c4d18fb972dd51e9d626a521faf003728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 24/36] fix: local array accesses with an offset that diverges
 in a symbolic loop

A symbolic variable with size 1 (e.g. the state of a loop) can differ
between lanes and must not be treated as uniform.
---
 src/array.cpp      |  4 ++--
 src/llvm_array.cpp | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index 36b983d..3bc109f 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -121,7 +121,7 @@ uint32_t jitc_array_read(uint32_t source, uint32_t offset, uint32_t mask_) {
         uint64_t zero = 0;
         return jitc_var_literal(backend, (VarType) jitc_var(source)->type,
                                 &zero, 1, 0);
-    } else if ((vo->is_literal() || vo->size == 1) &&
+    } else if ((vo->is_literal() || (vo->size == 1 && !vo->symbolic)) &&
                (vm->kind == (uint32_t) VarKind::DefaultMask ||
                 vm->kind == (uint32_t) VarKind::CallMask)) {
         // When we know that the read is always from a uniform location, we
@@ -265,7 +265,7 @@ uint32_t jitc_array_write(uint32_t target, uint32_t offset, uint32_t value,
         // Elide the write (it is fully masked)
         jitc_var_inc_ref(target);
         return target;
-    } else if ((vo->is_literal() || vo->size == 1) &&
+    } else if ((vo->is_literal() || (vo->size == 1 && !vo->symbolic)) &&
                (vm->kind == (uint32_t) VarKind::DefaultMask ||
                 vm->kind == (uint32_t) VarKind::CallMask)) {
         // When we know that the write is always to a uniform location, we
diff --git a/src/llvm_array.cpp b/src/llvm_array.cpp
index b694b2d..8165bd1 100644
--- a/src/llvm_array.cpp
+++ b/src/llvm_array.cpp
@@ -43,8 +43,15 @@ static bool mask_safe_to_ignore (const Variable *mask) {
             mask->kind == (uint32_t) VarKind::DefaultMask);
 }
 
+/// Is the offset a literal or scalar? (The elements of symbolic variables with
+/// size 1 can diverge, e.g., when updating the state of a loop)
+static bool is_uniform(const Variable *offset) {
+    return !offset || (offset->size == 1 && !offset->symbolic);
+}
+
 extern void jitc_llvm_render_array_init(Variable *v, Variable *pred, Variable *value) {
-    v->reg_index = pred->reg_index;
+    // The index 'v->reg_index' is unique and used to name temporaries/labels
+    uint32_t reg_index = pred->reg_index;
 
     const char *ext = "";
     const Variable *src = value;
@@ -88,7 +95,7 @@ void jitc_llvm_render_array_read(Variable *v, Variable *source, Variable *mask,
     if (v->type == (uint32_t) VarType::Bool)
         ext = "_r";
 
-    if (!offset || offset->size == 1) {
+    if (is_uniform(offset)) {
         // Scalar/literal offset case: we can avoid a gather operation
         if (offset) {
             fmt_intrinsic("declare i32 @llvm.vector.reduce.umax.v$wi32(<$w x i32>)");
@@ -225,7 +232,7 @@ void jitc_llvm_render_array_write(Variable *v, Variable *target,
         ext = "_e";
     }
 
-    if (!offset || offset->size == 1) {
+    if (is_uniform(offset)) {
         // Scalar/literal offset case: we can avoid a scatter operation
         if (offset) {
             fmt_intrinsic("declare i32 @llvm.vector.reduce.umax.v$wi32(<$w x i32>)");
-- 
2.43.0


From 7049cd007e875d458e340952827db2c113777dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 25/36] fix: broadcast the first lane when loading evaluated
 scalar local arrays

The remaining lanes of a scalar array that was written under a mask hold
undefined contents.
---
 src/llvm_array.cpp | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/llvm_array.cpp b/src/llvm_array.cpp
index 8165bd1..49917e4 100644
--- a/src/llvm_array.cpp
+++ b/src/llvm_array.cpp
@@ -345,6 +345,43 @@ void jitc_llvm_render_array_write(Variable *v, Variable *target,
 }
 
 void jitc_llvm_render_array_memcpy_in(const Variable *v) {
+    if (v->size == 1) {
+        // Scalar array: broadcast the first lane, the others may be undefined
+        uint32_t id = v->reg_index;
+        fmt( "    $v_p1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
+             "    $v_p2 = load ptr, ptr $v_p1, align 8, !alias.scope !2\n"
+             "    br label %l_$u_pre\n\n"
+             "l_$u_pre:\n"
+             "    br label %l_$u_loop\n\n"
+             "l_$u_loop:\n"
+             "    $v_cur = phi i64 [ 0, %l_$u_pre ], [ $v_next, %l_$u_loop ]\n"
+             "    $v_src = getelementptr inbounds $M, ptr $v_p2, i64 $v_cur\n"
+             "    $v_dst = getelementptr inbounds $M, ptr %arr_$u, i64 $v_cur\n"
+             "    $v_0 = load $m, ptr $v_src, align $a\n"
+             "    $v_1 = insertelement $M undef, $m $v_0, i32 0\n"
+             "    $v_2 = shufflevector $M $v_1, $M undef, <$w x i32> $z\n"
+             "    store $M $v_2, ptr $v_dst, align $A\n"
+             "    $v_next = add i64 $v_cur, 1\n"
+             "    $v_cont = icmp ult i64 $v_next, $u\n"
+             "    br i1 $v_cont, label %l_$u_loop, label %l_$u_done\n\n"
+             "l_$u_done:\n",
+            v, v,
+            v, v,
+            id, id, id, id,
+            v, id, v, id,
+            v, v, v, v,
+            v, v, id, v,
+            v, v, v, v,
+            v, v, v, v,
+            v, v, v, v,
+            v, v, v, v,
+            v, v,
+            v, v, (uint32_t) v->array_length,
+            v, id, id, id
+        );
+        return;
+    }
+
     fmt_intrinsic("declare void @llvm.memcpy.inline.p0.p0.i32(ptr, ptr, i32, i1)");
     fmt( "    $v_p1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
          "    $v_p2 = load ptr, ptr $v_p1, align 8, !alias.scope !2\n"
@@ -353,7 +390,7 @@ void jitc_llvm_render_array_memcpy_in(const Variable *v) {
          "    call void @llvm.memcpy.inline.p0.p0.i32(ptr align($A) %arr_$u, ptr align($A) $v_p4, i32 $u, i1 0)\n",
         v, v,
         v, v,
-        v, v->size == 1 ? 0 : v->array_length,
+        v, v->array_length,
         v, v, v, v,
         v, v->reg_index, v, v, v->array_length * type_size[v->type] * jitc_llvm_vector_width
     );
-- 
2.43.0


From e2adb316636346f15ab98463e8d002885f86f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 26/36] fix: aliasing of local arrays following conflicting
 accesses

Two arrays derived from the same initialized array, the array outputs of
conditionals and selections, and the array state of loops could end up
sharing one storage region, so that writes to one of them were visible
through the other. Temporaries of the generated LLVM IR could also have
conflicting names.
---
 src/array.cpp       | 123 +++++++++++++++++++++++++++++++++++++-------
 src/array.h         |  15 ++++++
 src/cond.cpp        |  63 +++++++++++++++++------
 src/cuda_array.cpp  |   7 ++-
 src/eval.cpp        |   3 +-
 src/llvm_array.cpp  |  41 +++++++++------
 src/loop.cpp        |  48 ++++++++++++++---
 src/metal_array.cpp |   7 ++-
 8 files changed, 248 insertions(+), 59 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index 3bc109f..461e8db 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -216,6 +216,8 @@ uint32_t jitc_array_buffer(const Variable *v, uint32_t index) {
             index = v->dep[0];
         else if (v->kind == (uint32_t) VarKind::ArrayPhi)
             index = v->dep[0];
+        else if (v->kind == (uint32_t) VarKind::ArraySelect && !v->dep[3])
+            index = v->dep[2]; // in-place
         else if (v->extra) {
             index = (uint32_t) (uintptr_t) state.extra[v->extra].callback_data;
             if (!index)
@@ -394,25 +396,75 @@ uint32_t jitc_array_write(uint32_t target, uint32_t offset, uint32_t value,
     return op;
 }
 
-void jitc_process_array_op(VarKind kind, Variable *v) {
-    // This function evolves a simple state machine that elides unnecessary
-    // array copies. For context, a 'write' operation performed via the
-    // jit_array_* API does not modify the input. Instead, it produces a copy of
-    // the input array representing the array state following the write. In most
-    // cases, this copy is not actually needed, and we wish to avoid the
-    // expense. The following detects cases where an array is modified and
-    // subsequently accessed via further reads/writes. In this case, the
-    // original array is marked as 'conflicted', which means that any subsequent
-    // writes to it must make a copy.
-    //
-    if (v->is_array()) {
-        v->array_state = (uint32_t) ArrayState::Clean;
+uint32_t jitc_array_select(uint32_t mask, uint32_t t, uint32_t f,
+                           bool in_place) {
+    const Variable *vm = jitc_var(mask),
+                   *vt = jitc_var(t),
+                   *vf = jitc_var(f);
+
+    if (!vt->is_array() || !vf->is_array() || vt->backend != vf->backend ||
+        vt->type != vf->type || vt->array_length != vf->array_length)
+        jitc_raise("jit_array_select(mask=r%u, t=r%u, f=r%u): incompatible "
+                   "operands!", mask, t, f);
+
+    uint32_t size = std::max(vm->size, std::max(vt->size, vf->size));
+    if ((vm->size != size && vm->size != 1) ||
+        (vt->size != size && vt->size != 1) ||
+        (vf->size != size && vf->size != 1))
+        jitc_raise("jit_array_select(mask=r%u, t=r%u, f=r%u): incompatible "
+                   "sizes (%u, %u, and %u)", mask, t, f, vm->size, vt->size,
+                   vf->size);
 
-        if (kind == VarKind::Array)
-            return;
+    Variable v;
+    v.kind = (uint32_t) VarKind::ArraySelect;
+    v.backend = vt->backend;
+    v.type = vt->type;
+    v.size = size;
+    v.array_state = (uint32_t) ArrayState::Clean;
+    v.array_length = vt->array_length;
+    v.symbolic = vm->symbolic || vt->symbolic || vf->symbolic;
+    JitBackend backend = (JitBackend) v.backend;
+
+    if (!in_place)
+        v.dep[3] = jitc_array_create(backend, (VarType) v.type, size,
+                                     v.array_length,
+                                     t == f ? jitc_array_buffer(t) : 0);
+
+    v.dep[0] = mask;
+    v.dep[1] = t;
+    v.dep[2] = f;
+    jitc_var_inc_ref(mask);
+    jitc_var_inc_ref(t);
+    jitc_var_inc_ref(f);
+
+    jitc_new_scope(backend);
+    uint32_t result = jitc_var_new(v, true);
+    jitc_new_scope(backend);
+    return result;
+}
+
+uint32_t jitc_array_copy(uint32_t index) {
+    uint64_t one = 1;
+    Ref mask = steal(jitc_var_literal((JitBackend) jitc_var(index)->backend,
+                                      VarType::Bool, &one, 1, 0));
+    return jitc_array_select(mask, index, index, false);
+}
+
+bool jitc_array_select_target(const Variable *v, const Variable *t,
+                              const Variable *f, uint32_t &reg_index) {
+    if (!v->dep[3]) {
+        reg_index = f->reg_index;
+        return t->reg_index != f->reg_index;
+    } else if (t == f && t->array_state != (uint32_t) ArrayState::Conflicted) {
+        reg_index = t->reg_index;
+        return false;
+    } else {
+        reg_index = jitc_array_buffer(v)->reg_index;
+        return true;
     }
+}
 
-    uint32_t parent_id = v->dep[0];
+static void jitc_process_array_parent(VarKind kind, Variable *v, uint32_t parent_id) {
     Variable *parent = jitc_var(parent_id);
 
     ArrayState array_state = (ArrayState) parent->array_state;
@@ -441,8 +493,43 @@ void jitc_process_array_op(VarKind kind, Variable *v) {
         jitc_raise("jit_process_array_op(): internal error! (2)");
 
     parent->array_state = (uint32_t) array_state;
-    if (parent->kind == (uint32_t) VarKind::ArrayWrite) {
+    if (parent->kind == (uint32_t) VarKind::ArrayWrite ||
+        parent->kind == (uint32_t) VarKind::ArrayInit ||
+        parent->kind == (uint32_t) VarKind::ArrayPhi ||
+        parent->kind == (uint32_t) VarKind::LoopPhi ||
+        parent->kind == (uint32_t) VarKind::ArraySelect) {
         Variable *buf = jitc_var(jitc_array_buffer(parent_id));
-        buf->array_state = (uint32_t) array_state;
+        buf->array_state = std::max((uint32_t) buf->array_state,
+                                    (uint32_t) array_state);
+    }
+}
+
+void jitc_process_array_op(VarKind kind, Variable *v) {
+    // This function evolves a simple state machine that elides unnecessary
+    // array copies. For context, a 'write' operation performed via the
+    // jit_array_* API does not modify the input. Instead, it produces a copy of
+    // the input array representing the array state following the write. In most
+    // cases, this copy is not actually needed, and we wish to avoid the
+    // expense. The following detects cases where an array is modified and
+    // subsequently accessed via further reads/writes. In this case, the
+    // original array is marked as 'conflicted', which means that any subsequent
+    // writes to it must make a copy.
+    //
+    if (v->is_array()) {
+        v->array_state = (uint32_t) ArrayState::Clean;
+
+        if (kind == VarKind::Array)
+            return;
+    }
+
+    if (kind == VarKind::ArraySelect) {
+        bool copy = v->dep[1] == v->dep[2],
+             in_place = v->dep[3] == 0;
+        jitc_process_array_parent(copy ? VarKind::ArrayWrite : VarKind::ArrayRead,
+                                  v, v->dep[1]);
+        if (!copy && !in_place)
+            jitc_process_array_parent(VarKind::ArrayRead, v, v->dep[2]);
+    } else {
+        jitc_process_array_parent(kind, v, v->dep[0]);
     }
 }
diff --git a/src/array.h b/src/array.h
index bd8384f..509a6eb 100644
--- a/src/array.h
+++ b/src/array.h
@@ -34,5 +34,20 @@ extern uint32_t jitc_array_write(uint32_t target, uint32_t offset,
 extern uint32_t jitc_array_buffer(uint32_t index);
 extern const Variable *jitc_array_buffer(const Variable *v);
 
+/// Create an operation that selects between two arrays. The result uses a new
+/// storage region, or that of 'f' (which it then replaces) if 'in_place' is set.
+/// The operation merely copies the array when 't' and 'f' are identical. Such
+/// copies are elided when the original is no longer accessed.
+extern uint32_t jitc_array_select(uint32_t mask, uint32_t t, uint32_t f,
+                                  bool in_place);
+
+/// Return an array that can be modified in-place (e.g., by a loop)
+extern uint32_t jitc_array_copy(uint32_t index);
+
+/// Determine the storage region of an array selection operation during code
+/// generation. Returns 'false' if no data must be moved.
+extern bool jitc_array_select_target(const Variable *v, const Variable *t,
+                                     const Variable *f, uint32_t &reg_index);
+
 /// Evolve array state machine during jitc_assemble()
 extern void jitc_process_array_op(VarKind kind, Variable *v);
diff --git a/src/cond.cpp b/src/cond.cpp
index e4e3bf8..947d6f0 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -3,6 +3,7 @@
 #include "cond.h"
 #include "log.h"
 #include "eval.h"
+#include "op.h"
 #include <vector>
 
 uint32_t jitc_var_cond_start(const char *name, bool symbolic, uint32_t cond_t, uint32_t cond_f) {
@@ -127,24 +128,52 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
 
         storage += type_size[(int) vt];
 
-        if (v_f->is_array()) {
-            Variable v3;
-            v3.kind = (uint32_t) VarKind::ArrayPhi;
-            v3.backend = (uint32_t) backend;
-            v3.type = (uint32_t) vt;
-            v3.symbolic = symbolic;
-            v3.size = std::max(size, size);
-            v3.array_state = (uint32_t) ArrayState::Clean;
-            v3.array_length = v_f->array_length;
-            v3.dep[0] = i_f;
-            v3.dep[1] = i_t;
-            v3.dep[2] = pred;
-            jitc_var_inc_ref(i_f);
-            jitc_var_inc_ref(i_t);
-            jitc_var_inc_ref(pred);
-
-            rv_out[i] = jitc_var_new(v3, true);
+        if (v_f->is_array() || v_t->is_array()) {
             cd->indices_out.emplace_back(0, 0);
+
+            if (i_t == i_f) {
+                jitc_var_inc_ref(i_f, v_f);
+                rv_out[i] = i_f;
+                continue;
+            }
+
+            // Reference the array contents at the end of the conditional..
+            auto phi = [&](uint32_t i_a) {
+                const Variable *v_a = jitc_var(i_a);
+                Variable v3;
+                v3.kind = (uint32_t) VarKind::ArrayPhi;
+                v3.backend = (uint32_t) backend;
+                v3.type = v_a->type;
+                v3.symbolic = symbolic;
+                v3.size = std::max(size, v_a->size);
+                v3.array_state = (uint32_t) ArrayState::Clean;
+                v3.array_length = v_a->array_length;
+                v3.dep[0] = i_a;
+                v3.dep[1] = pred;
+                jitc_var_inc_ref(i_a);
+                jitc_var_inc_ref(pred);
+                return jitc_var_new(v3, true);
+            };
+
+            // .. and select the one corresponding to the active branch
+            bool valid = v_t->is_array() && v_f->is_array();
+            Ref phi_t, phi_f;
+            if (valid) {
+                phi_t = steal(phi(i_t));
+                phi_f = steal(phi(i_f));
+            }
+
+            try {
+                if (!valid)
+                    jitc_raise("jit_var_cond(): return variable %zu must be "
+                               "an array in both branches (r%u, r%u).",
+                               i, i_t, i_f);
+                rv_out[i] = jitc_var_select(i_cond, phi_t, phi_f);
+            } catch (...) {
+                for (size_t j = 0; j < i; ++j)
+                    jitc_var_dec_ref(rv_out[j]);
+                throw;
+            }
             continue;
         }
 
diff --git a/src/cuda_array.cpp b/src/cuda_array.cpp
index 0a25060..37a9add 100644
--- a/src/cuda_array.cpp
+++ b/src/cuda_array.cpp
@@ -152,7 +152,12 @@ void jitc_cuda_render_array_memcpy_out(const Variable *v) {
 }
 
 void jitc_cuda_render_array_select(Variable *v, Variable *mask, Variable *t, Variable *f) {
-    uint32_t reg_index = jitc_array_buffer(v)->reg_index;
+    uint32_t reg_index;
+    if (!jitc_array_select_target(v, t, f, reg_index)) {
+        v->reg_index = reg_index;
+        return;
+    }
+
     fmt("    mov.u32 %r3, 0;\n\n"
         "l_$u_select:\n"
         "    {\n"
diff --git a/src/eval.cpp b/src/eval.cpp
index 5bd6396..29db4f8 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -460,7 +460,8 @@ void jitc_assemble(ThreadState *ts, ScheduledGroup group) {
                      kind == VarKind::ArrayInit ||
                      kind == VarKind::ArrayPhi ||
                      kind == VarKind::ArrayWrite ||
-                     kind == VarKind::ArrayRead)) {
+                     kind == VarKind::ArrayRead ||
+                     kind == VarKind::ArraySelect)) {
             jitc_process_array_op(kind, v);
         }
 
diff --git a/src/llvm_array.cpp b/src/llvm_array.cpp
index 49917e4..aa4afa7 100644
--- a/src/llvm_array.cpp
+++ b/src/llvm_array.cpp
@@ -78,7 +78,7 @@ extern void jitc_llvm_render_array_init(Variable *v, Variable *pred, Variable *v
         // phi
         v, v->reg_index, v, v->reg_index,
         // gep
-        v, v, v->reg_index, v,
+        v, v, reg_index, v,
         // store
         value, src, ext, v, v,
         v, v,
@@ -86,6 +86,8 @@ extern void jitc_llvm_render_array_init(Variable *v, Variable *pred, Variable *v
         v, v->reg_index, v->reg_index,
         v->reg_index
     );
+
+    v->reg_index = reg_index;
 }
 
 void jitc_llvm_render_array_read(Variable *v, Variable *source, Variable *mask,
@@ -398,11 +400,12 @@ void jitc_llvm_render_array_memcpy_in(const Variable *v) {
 
 void jitc_llvm_render_array_memcpy_out(const Variable *v) {
     fmt_intrinsic("declare void @llvm.memcpy.inline.p0.p0.i32(ptr, ptr, i32, i1)");
-    fmt( "    $v_p1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
-         "    $v_p2 = load ptr, ptr $v_p1, align 8, !alias.scope !2\n"
-         "    $v_p3 = mul i64 %index, $u\n"
-         "    $v_p4 = getelementptr inbounds $m, ptr $v_p2, i64 $v_p3\n"
-         "    call void @llvm.memcpy.inline.p0.p0.i32(ptr align($A) $v_p4, ptr align($A) %arr_$u, i32 $u, i1 0)\n",
+    // Temporaries are named after the kernel parameter ('v' may share its register)
+    fmt( "    %out_$o_1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
+         "    %out_$o_2 = load ptr, ptr %out_$o_1, align 8, !alias.scope !2\n"
+         "    %out_$o_3 = mul i64 %index, $u\n"
+         "    %out_$o_4 = getelementptr inbounds $m, ptr %out_$o_2, i64 %out_$o_3\n"
+         "    call void @llvm.memcpy.inline.p0.p0.i32(ptr align($A) %out_$o_4, ptr align($A) %arr_$u, i32 $u, i1 0)\n",
         v, v,
         v, v,
         v, v->array_length,
@@ -412,8 +415,14 @@ void jitc_llvm_render_array_memcpy_out(const Variable *v) {
 }
 
 void jitc_llvm_render_array_select(Variable *v, Variable *mask, Variable *t, Variable *f) {
-    uint32_t reg_index = jitc_array_buffer(v)->reg_index;
-    v->reg_index = reg_index;
+    uint32_t reg_index;
+    if (!jitc_array_select_target(v, t, f, reg_index)) {
+        v->reg_index = reg_index;
+        return;
+    }
+
+    // The index 'id' is unique and used to name temporaries/labels
+    uint32_t id = v->reg_index;
 
     fmt("    br label %l_$u_pre\n\n"
         "l_$u_pre:\n"
@@ -431,11 +440,11 @@ void jitc_llvm_render_array_select(Variable *v, Variable *mask, Variable *t, Var
         "    $v_cont = icmp ult i64 $v_next, $u\n"
         "    br i1 $v_cont, label %l_$u_loop, label %l_$u_done\n\n"
         "l_$u_done:\n",
-        reg_index,
-        reg_index,
-        reg_index,
-        reg_index,
-        v, reg_index, v, reg_index,
+        id,
+        id,
+        id,
+        id,
+        v, id, v, id,
         v, v, t->reg_index, v,
         v, v, f->reg_index, v,
         v, v, reg_index, v,
@@ -445,7 +454,9 @@ void jitc_llvm_render_array_select(Variable *v, Variable *mask, Variable *t, Var
         v, v, v, v,
         v, v,
         v, v, v->array_length,
-        v, reg_index, reg_index,
-        reg_index
+        v, id, id,
+        id
     );
+
+    v->reg_index = reg_index;
 }
diff --git a/src/loop.cpp b/src/loop.cpp
index 3f27f1d..9fe97ad 100644
--- a/src/loop.cpp
+++ b/src/loop.cpp
@@ -4,6 +4,7 @@
 #include "log.h"
 #include "eval.h"
 #include "op.h"
+#include "array.h"
 
 uint32_t jitc_var_loop_start(const char *name, bool symbolic, size_t n_indices, uint32_t *indices) {
     JitBackend backend = JitBackend::None;
@@ -43,6 +44,13 @@ uint32_t jitc_var_loop_start(const char *name, bool symbolic, size_t n_indices,
         }
     }
 
+    // Loops modify arrays in-place. Preserve the originals if they are still used
+    std::vector<Ref> arrays(n_indices);
+    for (size_t i = 0; i < n_indices; ++i) {
+        if (jitc_var(indices[i])->is_array())
+            arrays[i] = steal(jitc_array_copy(indices[i]));
+    }
+
     Ref loop_start;
     {
         Variable v;
@@ -71,7 +79,7 @@ uint32_t jitc_var_loop_start(const char *name, bool symbolic, size_t n_indices,
     v_phi.dep[0] = ld->loop_start;
 
     for (size_t i = 0; i < n_indices; ++i) {
-        uint32_t index = indices[i];
+        uint32_t index = arrays[i] ? (uint32_t) arrays[i] : indices[i];
         Variable *v2 = jitc_var(index);
         jitc_var_inc_ref(index, v2);
         jitc_var_inc_ref(index, v2);
@@ -252,9 +260,33 @@ bool jitc_var_loop_end(uint32_t loop, uint32_t cond, uint32_t *indices, uint32_t
     }
 
     {
-        cond_v = jitc_var(cond);
+        uint32_t active = jitc_var(cond)->dep[1];
+
+        // Arrays that exchange their contents must be copied before the loop
+        // state is updated
+        std::vector<Ref> arrays(ld->size);
+        for (size_t i = 0; i < ld->size; ++i) {
+            uint32_t index = indices[i], origin = index;
+            if (!index || !jitc_var(index)->is_array())
+                continue;
+
+            while (true) {
+                const Variable *v = jitc_var(origin);
+                if (v->kind != (uint32_t) VarKind::ArrayWrite &&
+                    v->kind != (uint32_t) VarKind::ArrayInit &&
+                    v->kind != (uint32_t) VarKind::ArrayPhi)
+                    break;
+                origin = v->dep[0];
+            }
+
+            const Variable *v = jitc_var(origin);
+            if (origin != ld->inner_in[i] &&
+                v->kind == (uint32_t) VarKind::LoopPhi &&
+                v->dep[0] == ld->loop_start)
+                arrays[i] = steal(jitc_array_select(active, index,
+                                                    ld->inner_in[i], false));
+        }
 
-        uint32_t active = cond_v->dep[1];
         for (size_t i = 0; i < ld->size; ++i) {
             uint32_t index = indices[i];
             if (!index)
@@ -266,7 +298,11 @@ bool jitc_var_loop_end(uint32_t loop, uint32_t cond, uint32_t *indices, uint32_t
             Variable *v2 = jitc_var(index);
 
             uint32_t new_index;
-            if (v2->is_array() || v2->is_dirty()) {
+            if (v2->is_array() && index != ld->inner_in[i]) {
+                new_index = jitc_array_select(
+                    active, arrays[i] ? (uint32_t) arrays[i] : index,
+                    ld->inner_in[i], true);
+            } else if (v2->is_array() || v2->is_dirty()) {
                 jitc_var_inc_ref(index);
                 new_index = index;
             } else if (ld->inner_in[i] != ld->outer_in[i]) {
@@ -343,10 +379,10 @@ bool jitc_var_loop_end(uint32_t loop, uint32_t cond, uint32_t *indices, uint32_t
             v3.size = std::max(v2->size, size);
             v3.array_state = (uint32_t) ArrayState::Clean;
             v3.array_length = (uint16_t) array_length;
-            v3.dep[0] = index;
+            v3.dep[0] = ld->inner_out[i];
             v3.dep[1] = loop_end;
             jitc_var_inc_ref(loop_end);
-            jitc_var_inc_ref(index);
+            jitc_var_inc_ref(ld->inner_out[i]);
             index_new = jitc_var_new(v3, true);
             state_vars_actual_size += type_size[(int) vt]*array_length;
             state_vars_actual++;
diff --git a/src/metal_array.cpp b/src/metal_array.cpp
index a271532..703dbe7 100644
--- a/src/metal_array.cpp
+++ b/src/metal_array.cpp
@@ -109,7 +109,12 @@ void jitc_metal_render_array_memcpy_out(const Variable *v) {
 }
 
 void jitc_metal_render_array_select(Variable *v, Variable *mask, Variable *t, Variable *f) {
-    uint32_t reg_index = jitc_array_buffer(v)->reg_index;
+    uint32_t reg_index;
+    if (!jitc_array_select_target(v, t, f, reg_index)) {
+        v->reg_index = reg_index;
+        return;
+    }
+
     fmt("if ($v) {\n"
               "    for (uint _i = 0; _i < $uu; _i++)\n"
               "        arr_$u[_i] = arr_$u[_i];\n"
-- 
2.43.0


From 5270c417f984a19208e9c22c2fc78c776fbb0ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 27/36] fix: exclude out-of-range SIMD lanes under masks on the
 mask stack

---
 src/var.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 7e8d49c..159dab7 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2249,8 +2249,10 @@ uint32_t jitc_var_mask_apply(uint32_t index, uint32_t size) {
         Ref default_mask = steal(jitc_var_mask_default(backend, size));
         if (!mask) {
             mask = borrow(default_mask);
-        } else if (jitc_var(mask)->is_evaluated() && size == 1) {
-            // Scalar evaluated parameters get broadcasted, we need to re-apply the default mask
+        } else if (!jitc_var(mask)->symbolic) {
+            // Evaluated, literal, and computed masks don't exclude SIMD lanes
+            // beyond the end of the range, we need to re-apply the default
+            // mask. Symbolic masks (loops, calls) already account for them.
             mask = steal(jitc_var_and(mask, default_mask));
         }
     }
-- 
2.43.0


From 52e5ce543d118fafa63b3d8952b3eee053e35a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 28/36] fix: update the peak memory usage when migrating
 allocations

---
 src/malloc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 2d7b380..e28f479 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -337,6 +337,9 @@ void* jitc_malloc_migrate(void *ptr, JitBackend dst_backend, int move) {
             state.alloc_usage[(int) dst_backend] += size;
             state.alloc_allocated[(int) src_backend] -= size;
             state.alloc_allocated[(int) dst_backend] += size;
+            state.alloc_watermark[(int) dst_backend] =
+                std::max(state.alloc_allocated[(int) dst_backend],
+                         state.alloc_watermark[(int) dst_backend]);
             it.value() = alloc_info_encode(size, dst_backend, 0, 0);
             return ptr;
         }
-- 
2.43.0


From d6d8f19acea9dc1a1c2e0201f6aa98cda553368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 29/36] fix: report unsatisfiable allocations as errors

---
 src/malloc.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index e28f479..721ef30 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -80,7 +80,7 @@ static void *aligned_malloc(size_t size) {
             madvise(ptr, size, MADV_HUGEPAGE);
 #endif
 
-        return ptr;
+        return ptr != MAP_FAILED ? ptr : nullptr;
     }
 #else
     return _aligned_malloc(size, 64);
@@ -107,6 +107,12 @@ void* jitc_malloc(JitBackend backend, size_t size, bool shared) {
     if (backend == JitBackend::None)
         shared = false;
 
+    // Sizes beyond this limit overflow below, and exceed any address space
+    if (unlikely(size > ((size_t) 1 << 52)))
+        jitc_raise("jit_malloc(): out of memory! Could not allocate %zu bytes "
+                   "(backend=%s, shared=%i).", size,
+                   jitc_backend_name(backend), (int) shared);
+
     bool host_alloc = (backend == JitBackend::None) ||
                       (jitc_is_llvm(backend));
 
@@ -203,6 +209,11 @@ void* jitc_malloc(JitBackend backend, size_t size, bool shared) {
             jitc_metal_register_buffer(ptr, metal_buf, size);
 #endif
 
+        if (unlikely(!ptr))
+            jitc_raise("jit_malloc(): out of memory! Could not allocate %zu bytes "
+                       "(backend=%s, shared=%i).", size,
+                       jitc_backend_name(backend), (int) shared);
+
         descr = "new allocation";
 
         state.alloc_allocated[(int) backend] += size;
@@ -211,11 +222,6 @@ void* jitc_malloc(JitBackend backend, size_t size, bool shared) {
                      state.alloc_watermark[(int) backend]);
     }
 
-    if (unlikely(!ptr))
-        jitc_raise("jit_malloc(): out of memory! Could not allocate %zu bytes "
-                   "(backend=%s, shared=%i).", size,
-                   jitc_backend_name(backend), (int) shared);
-
     state.alloc_used.emplace((uintptr_t) ptr, ai);
     state.alloc_usage[(int) backend] += size;
 
-- 
2.43.0


From 7596f94a3eae3cbf102424e5b04128f3ee410784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 30/36] fix: replay of any()/all() skipped part of the array

---
 src/record_ts.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 9a553b2..9e7f108 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -1351,7 +1351,8 @@ int Recording::replay_block_reduce_bool(Operation &op) {
     ReplayVariable &in_var = replay_variables[in_info.slot];
     ReplayVariable &out_var = replay_variables[out_info.slot];
 
-    out_var.alloc(backend, 1, VarType::Bool);
+    // The operation produces 4 partial results
+    out_var.alloc(backend, 4, VarType::Bool);
 
     uint32_t size = in_var.size(VarType::Bool);
 
-- 
2.43.0


From d9f06409c6190514a530bcdfdccddb18c995eae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 31/36] fix: frozen functions returning the same array twice

---
 src/record_ts.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 9e7f108..ccc3a2a 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -452,6 +452,19 @@ int Recording::replay(const uint32_t *replay_inputs, uint32_t *replay_outputs) {
             if (log_debug)
                 jitc_log(LogLevel::Debug, "    output %u: from slot s%u", i,
                          slot);
+
+            // Several outputs may refer to the same variable
+            uint32_t k = 0;
+            while (k < i && (outputs[k].slot != slot ||
+                             outputs[k].vtype != info.vtype))
+                k++;
+            if (k < i) {
+                replay_outputs[i] = replay_outputs[k];
+                if (replay_outputs[i])
+                    jitc_var_inc_ref(replay_outputs[i]);
+                continue;
+            }
+
             if (!rv.data)
                 jitc_fail("replay(): freed slot %u used for output.", slot);
             replay_outputs[i] = jitc_var_mem_map(backend, info.vtype, rv.data,
-- 
2.43.0


From 45f6cfa3691dee4a2684b8618f2f98484c183172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 32/36] fix: replay of frozen functions with an empty result

---
 src/record_ts.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index ccc3a2a..8e70dd7 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -467,6 +467,13 @@ int Recording::replay(const uint32_t *replay_inputs, uint32_t *replay_outputs) {
 
             if (!rv.data)
                 jitc_fail("replay(): freed slot %u used for output.", slot);
+
+            // Operations like compress() may produce an empty result
+            if (rv.data_size == 0) {
+                replay_outputs[i] = 0;
+                continue;
+            }
+
             replay_outputs[i] = jitc_var_mem_map(backend, info.vtype, rv.data,
                                           rv.size(info.vtype), true);
         }
@@ -478,7 +485,8 @@ int Recording::replay(const uint32_t *replay_inputs, uint32_t *replay_outputs) {
         uint32_t slot      = outputs[i].slot;
         ReplayVariable &rv = replay_variables[slot];
 
-        rv.data = nullptr;
+        if (rv.init == RecordedVarInit::Input || rv.data_size != 0)
+            rv.data = nullptr;
     }
 
     for (ReplayVariable &rv : replay_variables) {
-- 
2.43.0


From 89fd9d66c00983de4462c273266397d7131f9d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 33/36] fix: refuse null pointers and raise an error for
 unknown ones in the registry

---
 src/registry.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index 0aaaa26..cf12e0d 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -66,6 +66,10 @@ static Registry registry;
 uint32_t jitc_registry_put(const char *variant, const char *domain_name, void *ptr) {
     Registry &r = registry;
 
+    if (unlikely(!ptr))
+        jitc_raise("jit_registry_put(domain=\"%s\"): cannot register a null "
+                   "pointer!", domain_name);
+
     auto [it1, result1] =
         r.rev_map.try_emplace(ptr, ReverseKey{});
     if (unlikely(!result1))
@@ -113,10 +117,8 @@ void jitc_registry_remove(const void *ptr) {
     size_t ptr_hash = PointerHasher()(ptr);
 
     auto it = r.rev_map.find((void *) ptr, ptr_hash);
-    if (it == r.rev_map.end()) {
-        jitc_fail("jit_registry_remove(ptr=%p): pointer is not registered!", ptr);
-        return;
-    }
+    if (it == r.rev_map.end())
+        jitc_raise("jit_registry_remove(ptr=%p): pointer is not registered!", ptr);
 
     ReverseKey rk = it->second;
     r.rev_map.erase_fast(it);
-- 
2.43.0


From 1154040aad5af5ca06bac2c268c71ef0cfc0d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 34/36] fix: stashed reference counts of frequently referenced
 variables

---
 src/var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index 159dab7..40a4166 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -528,7 +528,8 @@ uint64_t jitc_var_stash_ref(uint32_t index) {
     if (v->ref_count_stashed || v->is_array())
         return 0;
 
-    v->ref_count_stashed = (uint16_t) v->ref_count;
+    // The counter is narrower, and COW only depends on whether it equals 1
+    v->ref_count_stashed = (uint16_t) std::min(v->ref_count, (uint32_t) 0xffff);
     jitc_trace("jit_var_stash_ref(r%u): %u", index, v->ref_count);
     return (((uint64_t) v->counter) << 32) | index;
 }
-- 
2.43.0


From 756fc73ef8e4bf91525123ddce0f189491dce6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 35/36] fix: callbacks removed by a preceding callback

---
 src/eval.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 29db4f8..fe77ed1 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -1015,7 +1015,9 @@ void jitc_eval(ThreadState *ts) {
         jitc_log(Trace, "jit_eval(): running %zu callbacks ..", cb.size());
         for (uint32_t index: cb) {
             VariableExtra &extra = state.extra[jitc_var(index)->extra];
-            if (extra.callback_internal) {
+            if (!extra.callback) {
+                // Removed by one of the preceding callbacks
+            } else if (extra.callback_internal) {
                 extra.callback(index, 0, extra.callback_data);
             } else {
                 unlock_guard guard_2(state.lock);
-- 
2.43.0


From 93c488cae04afeb24d476a77769712c6d6e2861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 36/36] fix: variable labels that are refused or consist of
 several components

---
 src/api.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index 8fb88ff..dd982ed 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1077,7 +1077,7 @@ uint32_t jit_var_set_label(uint32_t index, size_t argc, ...) {
     } else if (argc > 1) {
         for (size_t i = 0; i < argc; ++i) {
             const char *s = va_arg(ap, const char *);
-            bool isnum = s[0] >= '0' || s[1] <= '9';
+            bool isnum = s[0] >= '0' && s[0] <= '9';
 
             if (isnum) {
                 buf.put('[');
@@ -1102,9 +1102,9 @@ uint32_t jit_var_set_label(uint32_t index, size_t argc, ...) {
         jitc_var_inc_ref(index, v);
         return index;
     } else {
-        uint32_t result = jitc_var_copy(index);
+        Ref result = steal(jitc_var_copy(index));
         jitc_var_set_label(result, label);
-        return result;
+        return result.release();
     }
 }
 
-- 
2.43.0

