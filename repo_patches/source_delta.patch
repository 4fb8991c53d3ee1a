From 7166138559ef37734cd99fe811aa6ba024259ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 01/60] fix: sign extended value used when expanding constant
 memset

---
 src/jit/jit-optim.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index 56de995..9466cbd 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -878,8 +878,9 @@ static void jit_lvn_memset(jit_ir_t *ir, lvn_state_t *state)
          0xff, 0xffff, 0xffffffff, 0xffffffffffffffff
       };
 
-      uint64_t bits = value;
-      if (value == 0) {
+      // The constant may have been sign extended from a narrower type
+      uint64_t bits = value & mask[ir->size];
+      if (bits == 0) {
          ir->op = MACRO_BZERO;
          ir->size = JIT_SZ_UNSPEC;
          ir->arg2.kind = JIT_VALUE_INVALID;
-- 
2.43.0


From 87e89f3ba68ece403e084cb49ee7c7f98ba16f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 02/60] fix: sla and sra fill with the wrong end of the array

---
 src/vhdl/vhdl-predef.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/vhdl/vhdl-predef.c b/src/vhdl/vhdl-predef.c
index 3fe340b..e46d839 100644
--- a/src/vhdl/vhdl-predef.c
+++ b/src/vhdl/vhdl-predef.c
@@ -78,27 +78,33 @@ static void predef_bit_shift(mir_unit_t *mu, tree_t decl,
    mir_block_t body_bb = mir_add_block(mu);
    mir_block_t exit_bb = mir_add_block(mu);
 
+   mir_value_t shift_cast = mir_build_cast(mu, t_offset, shift);
+   mir_value_t shift_is_neg = mir_build_cmp(mu, MIR_CMP_LT, shift_cast, zero);
+
    mir_value_t def_val = MIR_NULL_VALUE;
    switch (kind) {
    case S_SLL: case S_SRL: case S_ROL: case S_ROR:
       def_val = zero;
       break;
-   case S_SRA:
+   case S_SLA: case S_SRA:
       {
+         // Shifting left fills with the rightmost element and shifting
+         // right fills with the leftmost element
          mir_value_t len_minus_1 = mir_build_sub(mu, t_offset, len, one);
          mir_value_t last_ptr = mir_build_array_ref(mu, data, len_minus_1);
-         def_val = mir_build_load(mu, last_ptr);
+         mir_value_t left = mir_build_load(mu, data);
+         mir_value_t right = mir_build_load(mu, last_ptr);
+         mir_type_t t_elem = mir_get_type(mu, left);
+         if (kind == S_SLA)
+            def_val = mir_build_select(mu, t_elem, shift_is_neg, left, right);
+         else
+            def_val = mir_build_select(mu, t_elem, shift_is_neg, right, left);
       }
       break;
-   case S_SLA:
-      def_val = mir_build_load(mu, data);
-      break;
    default:
       should_not_reach_here();
    }
 
-   mir_value_t shift_cast = mir_build_cast(mu, t_offset, shift);
-   mir_value_t shift_is_neg = mir_build_cmp(mu, MIR_CMP_LT, shift_cast, zero);
    mir_build_jump(mu, cmp_bb);
 
    mir_set_cursor(mu, cmp_bb, MIR_APPEND);
-- 
2.43.0


From 67dfd9937dd2717cc2b4ba735f47713b084cd0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 03/60] fix: overflow checked multiplication folded as a
 subtraction

---
 src/mir/mir-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 9328d96..3b47fed 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -1160,7 +1160,7 @@ mir_value_t mir_build_trap_mul(mir_unit_t *mu, mir_type_t type,
                                mir_value_t left, mir_value_t right,
                                mir_value_t locus)
 {
-   return mir_build_sub_op(mu, MIR_OP_TRAP_MUL, type, left, right, locus);
+   return mir_build_mul_op(mu, MIR_OP_TRAP_MUL, type, left, right, locus);
 }
 
 mir_value_t mir_build_div(mir_unit_t *mu, mir_type_t type, mir_value_t left,
-- 
2.43.0


From 9528ddd660c539617cfc3c3be78a504f237d2917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 04/60] fix: constant case statement with non-matching range
 choice selected it

---
 src/simp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simp.c b/src/simp.c
index 540a285..b5b7963 100644
--- a/src/simp.c
+++ b/src/simp.c
@@ -909,6 +909,7 @@ static bool simp_match_case_choice(tree_t alt, int64_t ival)
             else if (ival >= low && ival <= high)
                return true;
          }
+         break;
 
       case A_OTHERS:
          return true;
-- 
2.43.0


From cfd3695abdcbfde5e2e0ef62d1ce9a9ebb38a66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 05/60] fix: less-than operator on two null arrays returned
 true

---
 src/lower.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index 9b35f29..5bab3cd 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -10319,7 +10319,18 @@ static void lower_array_cmp_inner(lower_unit_t *lu,
       vcode_block_t check_r_len_bb = emit_block();
 
       vcode_reg_t len_ge_l = emit_cmp(VCODE_CMP_GEQ, i_loaded, left_len);
-      emit_cond(len_ge_l, exit_bb, check_r_len_bb);
+
+      if (pred == VCODE_CMP_LT) {
+         // The left array is a prefix of the right array but is only less
+         // than it if the right array is longer
+         vcode_block_t prefix_bb = emit_block();
+         emit_cond(len_ge_l, prefix_bb, check_r_len_bb);
+
+         vcode_select_block(prefix_bb);
+         emit_cond(len_eq, fail_bb, exit_bb);
+      }
+      else
+         emit_cond(len_ge_l, exit_bb, check_r_len_bb);
 
       vcode_select_block(check_r_len_bb);
 
-- 
2.43.0


From ee862e0e404451bbdfe352dde5c6fc7379971dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 06/60] fix: wrong bounds inferred for results of division and
 rem with negative operands

---
 src/mir/mir-type.c | 3 ++-
 src/vcode.c        | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mir/mir-type.c b/src/mir/mir-type.c
index 931d6e7..1558de0 100644
--- a/src/mir/mir-type.c
+++ b/src/mir/mir-type.c
@@ -1100,7 +1100,8 @@ mir_stamp_t mir_stamp_rem(mir_unit_t *mu, mir_stamp_t left, mir_stamp_t right)
 
    switch (lsd->kind) {
    case MIR_STAMP_INT:
-      if (lsd->u.intg.low >= 0 && rsd->u.intg.high > 0)
+      if (lsd->u.intg.low >= 0 && rsd->u.intg.low >= 0
+          && rsd->u.intg.high > 0)
          return mir_int_stamp(mu, 0, rsd->u.intg.high - 1);
       else
          return MIR_NULL_STAMP;
diff --git a/src/vcode.c b/src/vcode.c
index 8bb0a8f..c2dd2e1 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -3961,7 +3961,7 @@ vcode_reg_t emit_div(vcode_reg_t lhs, vcode_reg_t rhs)
 
    vtype_t *bl = vcode_type_data(vcode_reg_data(lhs)->bounds);
 
-   if (bl->kind == VCODE_TYPE_INT && r_is_const && rconst != 0) {
+   if (bl->kind == VCODE_TYPE_INT && r_is_const && rconst > 0) {
       reg_t *rr = vcode_reg_data(reg);
       rr->bounds = vtype_int(bl->low / rconst, bl->high / rconst);
    }
@@ -4034,7 +4034,7 @@ vcode_reg_t emit_rem(vcode_reg_t lhs, vcode_reg_t rhs)
 
    if (bl->low >= 0 && br->low >= 0) {
       reg_t *rr = vcode_reg_data(reg);
-      rr->bounds = vtype_int(0, br->high - 1);
+      rr->bounds = vtype_int(0, MAX(0, br->high - 1));
    }
 
    return reg;
-- 
2.43.0


From 5edef11bfd598a2a6d5fd423c993dc219acade9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 07/60] fix: subtraction from zero negated or checked
 incorrectly

---
 src/mir/mir-node.c | 8 ++------
 src/vcode.c        | 3 ++-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 3b47fed..7cab9ba 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -1034,9 +1034,7 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
    const bool lconst = mir_get_const(mu, left, &lval);
    const bool rconst = mir_get_const(mu, right, &rval);
 
-   if (lconst && lval == 0)
-      return right;
-   else if (rconst && rval == 0)
+   if (rconst && rval == 0)
       return left;
    else if (lconst && rconst && !__builtin_sub_overflow(lval, rval, &cval))
       return mir_const(mu, type, cval);
@@ -1048,9 +1046,7 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
    const bool lconst_real = mir_get_const_real(mu, left, &lreal);
    const bool rconst_real = mir_get_const_real(mu, right, &rreal);
 
-   if (lconst_real && (lreal == 0.0 || lreal == -0.0))
-      return right;
-   else if (rconst_real && (rreal == 0.0 || rreal == -0.0))
+   if (rconst_real && (rreal == 0.0 || rreal == -0.0))
       return left;
    else if (lconst_real && rconst_real)
       return mir_const_real(mu, type, lreal - rreal);
diff --git a/src/vcode.c b/src/vcode.c
index c2dd2e1..ff4654d 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -4107,7 +4107,8 @@ static vcode_reg_t emit_sub_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
    else if (r_is_const && rconst == 0)
       return lhs;
    else if (l_is_const && lconst == 0)
-      return emit_neg(rhs);
+      return op == VCODE_OP_TRAP_SUB
+         ? emit_trap_neg(rhs, locus) : emit_neg(rhs);
 
    vcode_type_t vbounds = VCODE_INVALID_TYPE;
    if (vcode_reg_kind(lhs) != VCODE_TYPE_REAL) {
-- 
2.43.0


From 2f43e54c57e22e653d34c72d02708b09f52507e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 08/60] fix: constant string and repeated array values had a
 non-pointer stamp

---
 src/mir/mir-node.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 7cab9ba..a497d79 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -906,7 +906,8 @@ mir_value_t mir_const_string(mir_unit_t *mu, const char *str)
 
    mir_type_t t_char = mir_char_type(mu);
    mir_type_t type = mir_carray_type(mu, count, t_char);
-   mir_stamp_t stamp = mir_int_stamp(mu, low, high);
+   mir_stamp_t elem = mir_int_stamp(mu, low, high);
+   mir_stamp_t stamp = mir_pointer_stamp(mu, MIR_MEM_CONST, elem);
 
    node_data_t *n = mir_add_node(mu, MIR_OP_CONST_ARRAY, type,
                                  stamp, count);
@@ -920,7 +921,8 @@ mir_value_t mir_const_string(mir_unit_t *mu, const char *str)
 mir_value_t mir_build_const_rep(mir_unit_t *mu, mir_type_t type,
                                 mir_value_t value, unsigned rep)
 {
-   mir_stamp_t stamp = mir_get_stamp(mu, value);
+   mir_stamp_t elem = mir_get_stamp(mu, value);
+   mir_stamp_t stamp = mir_pointer_stamp(mu, MIR_MEM_CONST, elem);
    mir_value_t result = mir_build_2(mu, MIR_OP_CONST_REP, type, stamp,
                                     value, mir_enum(rep));
 
-- 
2.43.0


From 5f47f852d62aaeeec1118af3b891757c0a1f4d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 09/60] fix: wrong right bound for array concatenation with
 descending or negative index subtype

---
 src/lower.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 5bab3cd..ff867b9 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -3686,13 +3686,30 @@ static vcode_reg_t lower_aggregate_bounds(lower_unit_t *lu, tree_t expr,
       if (length_reg != VCODE_INVALID_REG) {
          vcode_type_t vindex = lower_type(index_type);
          vcode_reg_t delta_reg = emit_sub(length_reg, emit_const(voffset, 1));
-         vcode_reg_t cast_reg = emit_cast(vindex, vindex, delta_reg);
+
+         // The length may not be a value of the index type
+         vcode_type_t vtype = vindex;
+         if (vtype_low(vindex) > INT32_MIN || vtype_high(vindex) < INT32_MAX)
+            vtype = voffset;
+
+         delta_reg = emit_cast(vtype, vtype, delta_reg);
 
          vcode_reg_t index_right_reg;
          lower_get_scalar_type_bounds(lu, index_type, &left_reg,
                                       &index_right_reg, &dir_reg);
 
-         right_reg = emit_add(left_reg, cast_reg);
+         vcode_reg_t base_reg = emit_cast(vtype, vtype, left_reg);
+
+         int64_t dir_const;
+         if (!vcode_reg_const(dir_reg, &dir_const))
+            right_reg = emit_select(dir_reg, emit_sub(base_reg, delta_reg),
+                                    emit_add(base_reg, delta_reg));
+         else if (dir_const == RANGE_DOWNTO)
+            right_reg = emit_sub(base_reg, delta_reg);
+         else
+            right_reg = emit_add(base_reg, delta_reg);
+
+         right_reg = emit_cast(vindex, vindex, right_reg);
       }
    }
 
-- 
2.43.0


From f852e9c0bac0832f74e984ae8cbcade36116f1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 10/60] fix: stale flags tested after overflow checked
 operation was constant folded

---
 src/jit/jit-optim.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index 9466cbd..e47c185 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -414,6 +414,17 @@ static inline void lvn_kill_flags(lvn_state_t *state)
    state->regvn[state->func->nregs] = VN_INVALID;
 }
 
+static void lvn_convert_mov_no_overflow(jit_ir_t *ir, lvn_state_t *state,
+                                        jit_value_t value)
+{
+   // The move does not write the flags so record that the original
+   // operation would not have set the overflow flag
+   if (ir->cc != JIT_CC_NONE)
+      state->regvn[state->func->nregs] = 0;
+
+   lvn_convert_mov(ir, state, value);
+}
+
 static void lvn_kill_args(lvn_state_t *state)
 {
    for (int i = 0; i < TRACK_ARGS; i++)
@@ -513,7 +524,7 @@ static void jit_lvn_mul(jit_ir_t *ir, lvn_state_t *state)
 #define FOLD_MUL(type) do {                                             \
          type result;                                                   \
          if (!__builtin_mul_overflow(lhs, rhs, &result)) {              \
-            lvn_convert_mov(ir, state, LVN_CONST(result));              \
+            lvn_convert_mov_no_overflow(ir, state, LVN_CONST(result));  \
             return;                                                     \
          }                                                              \
       } while (0)
@@ -526,11 +537,11 @@ static void jit_lvn_mul(jit_ir_t *ir, lvn_state_t *state)
 
    if (lvn_is_const(ir->arg2, state, &rhs)) {
       if (rhs == 0) {
-         lvn_convert_mov(ir, state, LVN_CONST(0));
+         lvn_convert_mov_no_overflow(ir, state, LVN_CONST(0));
          return;
       }
       else if (rhs == 1) {
-         lvn_convert_mov(ir, state, LVN_REG(ir->arg1.reg));
+         lvn_convert_mov_no_overflow(ir, state, LVN_REG(ir->arg1.reg));
          return;
       }
       else if (rhs > 0 && is_power_of_2(rhs) && ir->size == JIT_SZ_UNSPEC) {
@@ -579,7 +590,7 @@ static void jit_lvn_add(jit_ir_t *ir, lvn_state_t *state)
 #define FOLD_ADD(type) do {                                             \
          type result;                                                   \
          if (!__builtin_add_overflow(lhs, rhs, &result)) {              \
-            lvn_convert_mov(ir, state, LVN_CONST(result));              \
+            lvn_convert_mov_no_overflow(ir, state, LVN_CONST(result));  \
             return;                                                     \
          }                                                              \
       } while (0)
@@ -591,7 +602,7 @@ static void jit_lvn_add(jit_ir_t *ir, lvn_state_t *state)
    lvn_commute_const(ir, state);
 
    if (lvn_is_const(ir->arg2, state, &rhs) && rhs == 0) {
-      lvn_convert_mov(ir, state, LVN_REG(ir->arg1.reg));
+      lvn_convert_mov_no_overflow(ir, state, LVN_REG(ir->arg1.reg));
       return;
    }
 
@@ -608,7 +619,7 @@ static void jit_lvn_sub(jit_ir_t *ir, lvn_state_t *state)
 #define FOLD_SUB(type) do {                                             \
          type result;                                                   \
          if (!__builtin_sub_overflow(lhs, rhs, &result)) {              \
-            lvn_convert_mov(ir, state, LVN_CONST(result));              \
+            lvn_convert_mov_no_overflow(ir, state, LVN_CONST(result));  \
             return;                                                     \
          }                                                              \
       } while (0)
@@ -618,7 +629,7 @@ static void jit_lvn_sub(jit_ir_t *ir, lvn_state_t *state)
    }
 
    if (lvn_is_const(ir->arg2, state, &rhs) && rhs == 0) {
-      lvn_convert_mov(ir, state, LVN_REG(ir->arg1.reg));
+      lvn_convert_mov_no_overflow(ir, state, LVN_REG(ir->arg1.reg));
       return;
    }
    else if (lvn_is_const(ir->arg1, state, &lhs) && lhs == 0
-- 
2.43.0


From 43cfe5cdb5007bb645b2642d4ddf2e60e00a66ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 11/60] fix: array types with different element bounds merged
 in intermediate code

---
 src/vcode.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/vcode.c b/src/vcode.c
index ff4654d..3853f17 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -2430,6 +2430,35 @@ void vcode_dump(void)
    vcode_dump_with_mark(-1, NULL, NULL);
 }
 
+static bool vtype_same_bounds(vcode_type_t a, vcode_type_t b)
+{
+   // Types which are equal but have different element bounds must not be
+   // merged as the bounds are propagated to values loaded from the array
+
+   if (a == b)
+      return true;
+
+   const vtype_t *at = vcode_type_data(a);
+   const vtype_t *bt = vcode_type_data(b);
+
+   switch (at->kind) {
+   case VCODE_TYPE_CARRAY:
+   case VCODE_TYPE_UARRAY:
+      return vtype_eq(at->bounds, bt->bounds)
+         && vtype_same_bounds(at->elem, bt->elem);
+   case VCODE_TYPE_POINTER:
+   case VCODE_TYPE_ACCESS:
+      return vtype_same_bounds(at->pointed, bt->pointed);
+   case VCODE_TYPE_RESOLUTION:
+   case VCODE_TYPE_CLOSURE:
+   case VCODE_TYPE_SIGNAL:
+   case VCODE_TYPE_FILE:
+      return vtype_same_bounds(at->base, bt->base);
+   default:
+      return true;
+   }
+}
+
 static vcode_type_t vtype_new(vtype_t *new)
 {
    int index = active_unit->types.count - 1;
@@ -2437,7 +2466,7 @@ static vcode_type_t vtype_new(vtype_t *new)
 
    for (int i = 0; i < index; i++) {
       vcode_type_t this = MAKE_HANDLE(active_unit->depth, i);
-      if (vtype_eq(this, type)) {
+      if (vtype_eq(this, type) && vtype_same_bounds(this, type)) {
          active_unit->types.count--;
          return this;
       }
-- 
2.43.0


From 6c55971c467656bb0db8530085c974dfefc66d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 12/60] fix: bounds check elided for value of 'pos attribute in
 a subtype context

---
 src/lower.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index ff867b9..5a6a31c 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -5038,8 +5038,10 @@ static vcode_reg_t lower_attr_ref(lower_unit_t *lu, tree_t expr)
          tree_t value = tree_value(tree_param(expr, 0));
          vcode_reg_t arg_reg = lower_attr_param(lu, value, NULL, C_CONSTANT);
 
-         type_t type = tree_type(expr);
-         return emit_cast(lower_type(type), lower_bounds(type), arg_reg);
+         // The type of the expression may be a subtype taken from the
+         // context which the value has not been checked against yet
+         vcode_type_t vtype = lower_type(tree_type(expr));
+         return emit_cast(vtype, vtype, arg_reg);
       }
 
    case ATTR_VAL:
-- 
2.43.0


From 0fe9f33d3e17e30833104fe05cbc4132a67fbf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:29 +0000
Subject: [PATCH 13/60] fix: overflow missed when operands of checked operation
 become constant

---
 src/mir/mir-node.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index a497d79..f73c742 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -982,6 +982,27 @@ static mir_value_t mir_build_arith(mir_unit_t *mu, mir_op_t op, mir_type_t type,
    return result;
 }
 
+static bool mir_can_fold_arith(mir_unit_t *mu, mir_op_t op, mir_type_t type,
+                               int64_t cval)
+{
+   // The result of a trapping operation must be representable otherwise
+   // the error needs to be reported at runtime
+
+   switch (op) {
+   case MIR_OP_TRAP_ADD:
+   case MIR_OP_TRAP_SUB:
+   case MIR_OP_TRAP_MUL:
+      {
+         const type_data_t *td = mir_type_data(mu, type);
+         return td->class == MIR_TYPE_INT
+            && cval >= td->u.intg.low
+            && cval <= td->u.intg.high;
+      }
+   default:
+      return true;
+   }
+}
+
 static mir_value_t mir_build_add_op(mir_unit_t *mu, mir_op_t op,
                                     mir_type_t type, mir_value_t left,
                                     mir_value_t right, mir_value_t locus)
@@ -994,7 +1015,8 @@ static mir_value_t mir_build_add_op(mir_unit_t *mu, mir_op_t op,
       return right;
    else if (rconst && rval == 0)
       return left;
-   else if (lconst && rconst && !__builtin_add_overflow(lval, rval, &cval))
+   else if (lconst && rconst && !__builtin_add_overflow(lval, rval, &cval)
+            && mir_can_fold_arith(mu, op, type, cval))
       return mir_const(mu, type, cval);
 
    double lreal, rreal;
@@ -1038,7 +1060,8 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
 
    if (rconst && rval == 0)
       return left;
-   else if (lconst && rconst && !__builtin_sub_overflow(lval, rval, &cval))
+   else if (lconst && rconst && !__builtin_sub_overflow(lval, rval, &cval)
+            && mir_can_fold_arith(mu, op, type, cval))
       return mir_const(mu, type, cval);
    else if (mir_equals(left, right))
       return mir_get_class(mu, type) == MIR_TYPE_REAL
@@ -1131,7 +1154,8 @@ static mir_value_t mir_build_mul_op(mir_unit_t *mu, mir_op_t op,
       return left;
    else if (rconst && rval == 0)
       return right;
-   else if (lconst && rconst && !__builtin_mul_overflow(lval, rval, &cval))
+   else if (lconst && rconst && !__builtin_mul_overflow(lval, rval, &cval)
+            && mir_can_fold_arith(mu, op, type, cval))
       return mir_const(mu, type, cval);
 
    double lreal, rreal;
-- 
2.43.0


From 363d9ee0bee6c7595ef174aaf4518ab5c0a39c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 14/60] fix: function result and qualified expression not
 checked against subtype

---
 src/lower.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index 5a6a31c..ba347ad 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -5074,6 +5074,10 @@ static vcode_reg_t lower_qualified(lower_unit_t *lu, tree_t expr)
 
    if (type_is_array(to_type))
       return lower_coerce_arrays(lu, from_type, to_type, value_reg);
+   else if (type_is_scalar(to_type)) {
+      lower_check_scalar_bounds(lu, value_reg, to_type, value, NULL);
+      return value_reg;
+   }
    else
       return value_reg;
 }
@@ -6399,7 +6403,7 @@ static void lower_return(lower_unit_t *lu, tree_t stmt)
       vcode_reg_t value_reg = lower_rvalue(lu, value);
 
       if (type_is_scalar(type)) {
-         lower_check_scalar_bounds(lu, value_reg, type, value, NULL);
+         lower_check_scalar_bounds(lu, value_reg, tree_type(stmt), value, NULL);
          emit_return(value_reg);
       }
       else if (type_is_access(type)) {
-- 
2.43.0


From 8b52052815e6e9b22c3085ee05ecabbe1cad8c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 15/60] fix: false index error for concatenation with null
 array when index subtype is narrow

---
 src/lower.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index ba347ad..9171f4a 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -3753,6 +3753,21 @@ static vcode_reg_t lower_aggregate_bounds(lower_unit_t *lu, tree_t expr,
    }
 }
 
+static vcode_reg_t lower_aggregate_index(vcode_reg_t low_reg,
+                                         vcode_reg_t off_reg,
+                                         vcode_type_t vindex)
+{
+   // The offset may not be a value of the index type
+   vcode_type_t vtype = vindex;
+   if (vtype_low(vindex) > INT32_MIN || vtype_high(vindex) < INT32_MAX)
+      vtype = vtype_offset();
+
+   vcode_reg_t base_reg = emit_cast(vtype, vtype, low_reg);
+   vcode_reg_t cast_reg = emit_cast(vtype, vtype, off_reg);
+
+   return emit_cast(vindex, vindex, emit_add(base_reg, cast_reg));
+}
+
 static vcode_reg_t lower_array_aggregate(lower_unit_t *lu, tree_t expr,
                                          vcode_reg_t hint)
 {
@@ -4064,8 +4079,8 @@ static vcode_reg_t lower_array_aggregate(lower_unit_t *lu, tree_t expr,
                vcode_reg_t locus = lower_debug_locus(a);
                vcode_reg_t hint = lower_debug_locus(index_r);
 
-               vcode_reg_t off_cast_reg = emit_cast(vindex, vindex, off_reg);
-               vcode_reg_t index_reg = emit_add(low_reg, off_cast_reg);
+               vcode_reg_t index_reg =
+                  lower_aggregate_index(low_reg, off_reg, vindex);
 
                emit_index_check(index_reg, left_reg, right_reg,
                                 dir_reg, locus, hint);
@@ -4082,18 +4097,17 @@ static vcode_reg_t lower_array_aggregate(lower_unit_t *lu, tree_t expr,
                vcode_reg_t locus = lower_debug_locus(a);
                vcode_reg_t hint = lower_debug_locus(index_r);
 
-               vcode_reg_t off_cast_reg = emit_cast(vindex, vindex, off_reg);
-               vcode_reg_t index_reg = emit_add(low_reg, off_cast_reg);
+               vcode_reg_t index_reg =
+                  lower_aggregate_index(low_reg, off_reg, vindex);
 
                if (i == 0)
                   emit_index_check(index_reg, left_reg, right_reg,
                                    dir_reg, locus, hint);
                else if (i == last_pos) {
-                  vcode_reg_t one_reg = emit_const(vindex, 1);
-                  vcode_reg_t next_index_reg =
-                     emit_sub(emit_cast(vindex, vindex, count_reg), one_reg);
+                  vcode_reg_t high_off_reg =
+                     emit_sub(next_pos, emit_const(voffset, 1));
                   vcode_reg_t high_index_reg =
-                     emit_add(index_reg, next_index_reg);
+                     lower_aggregate_index(low_reg, high_off_reg, vindex);
 
                   emit_index_check(high_index_reg, left_reg, right_reg,
                                    dir_reg, locus, hint);
-- 
2.43.0


From bab8681aef8dbd2bf9188a759f27f73db2dffc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 16/60] fix: wrong transactions deleted from the projected
 output waveform of a driver

---
 src/rt/model.c | 70 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 20 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index fc5bd30..890e28f 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1126,6 +1126,18 @@ static void free_value(rt_nexus_t *n, rt_value_t v)
    }
 }
 
+#define NULL_TRANSACTION (UINT64_C(1) << 63)   // Time is at most INT64_MAX
+
+static inline bool is_null_transaction(const waveform_t *w)
+{
+   return !!(w->when & NULL_TRANSACTION);
+}
+
+static inline uint64_t transaction_time(const waveform_t *w)
+{
+   return w->when & ~NULL_TRANSACTION;
+}
+
 static inline uint8_t *value_ptr(rt_nexus_t *n, rt_value_t *v)
 {
    const size_t valuesz = n->width * n->size;
@@ -1532,8 +1544,8 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
 
             split_value(nexus, &w_new->value, &w_old->value, offset);
 
-            assert(w_old->when >= m->now);
-            deltaq_insert_driver(m, w_new->when - m->now, new);
+            assert(transaction_time(w_old) >= m->now);
+            deltaq_insert_driver(m, transaction_time(w_new) - m->now, new);
          }
       }
       break;
@@ -2566,23 +2578,38 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
 {
    waveform_t *last = &(source->u.driver.waveforms);
    waveform_t *it   = last->next;
-   while (it != NULL && it->when < when) {
-      // If the current transaction is within the pulse rejection interval
-      // and the value is different to that of the new transaction then
-      // delete the current transaction
-      assert(it->when >= m->now);
-      if (it->when >= when - reject
-          && !cmp_values(nexus, it->value, w->value)) {
-         waveform_t *next = it->next;
-         last->next = next;
-         free_value(nexus, it->value);
-         free_waveform(m, it);
-         it = next;
-      }
-      else {
+
+   // Transactions before the pulse rejection interval are not affected
+   while (it != NULL && transaction_time(it) < when - reject) {
+      assert(transaction_time(it) >= m->now);
+      last = it;
+      it = it->next;
+   }
+
+   waveform_t *const keep = last;
+
+   while (it != NULL && transaction_time(it) < when) {
+      assert(transaction_time(it) >= m->now);
+      if (is_null_transaction(it) == is_null_transaction(w)
+          && (is_null_transaction(w)
+              || cmp_values(nexus, it->value, w->value))) {
          last = it;
          it = it->next;
       }
+      else {
+         // The value is different to that of the new transaction so
+         // delete this and all preceding transactions that are within
+         // the pulse rejection interval
+         waveform_t *const end = it->next;
+         for (waveform_t *next, *d = keep->next; d != end; d = next) {
+            next = d->next;
+            free_value(nexus, d->value);
+            free_waveform(m, d);
+         }
+
+         keep->next = it = end;
+         last = keep;
+      }
    }
    last->next = w;
 
@@ -2593,7 +2620,7 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
    bool already_scheduled = false;
    for (waveform_t *next; it != NULL; it = next) {
       next = it->next;
-      already_scheduled |= (it->when == when);
+      already_scheduled |= (transaction_time(it) == when);
       free_value(nexus, it->value);
       free_waveform(m, it);
    }
@@ -2685,9 +2712,9 @@ static void sched_disconnect(rt_model_t *m, rt_nexus_t *nexus, uint64_t after,
    nexus->flags &= ~NET_F_FAST_DRIVER;
 
    waveform_t *w = alloc_waveform(m);
-   w->when = -when;   // Use sign bit to represent null
+   w->when = when | NULL_TRANSACTION;
    w->next = NULL;
-   w->value.qword = 0;
+   w->value = alloc_value(m, nexus);
 
    if (!insert_transaction(m, nexus, d, w, when, reject))
       deltaq_insert_driver(m, after, d);
@@ -3015,9 +3042,12 @@ static void update_driver(rt_model_t *m, rt_nexus_t *n, rt_source_t *source)
       source->disconnected = 0;
       update_driving(m, n, false);
    }
-   else if (unlikely(w_next != NULL && w_next->when == -m->now)) {
+   else if (unlikely(w_next != NULL && is_null_transaction(w_next)
+                     && transaction_time(w_next) == m->now)) {
       // Disconnect source due to null transaction
+      free_value(n, w_now->value);
       *w_now = *w_next;
+      w_now->when = m->now;
       free_waveform(m, w_next);
       source->disconnected = 1;
       update_driving(m, n, false);
-- 
2.43.0


From 856fb1f2c31f3111abdd26cbabb52fbc06ac3e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 17/60] fix: pending transactions compared with undefined bytes
 after a signal is split

---
 src/rt/model.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 890e28f..a0df551 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1164,8 +1164,11 @@ static void copy_value_ptr(rt_nexus_t *n, rt_value_t *v, const void *p)
 static inline bool cmp_values(rt_nexus_t *n, rt_value_t a, rt_value_t b)
 {
    const size_t valuesz = n->width * n->size;
-   if (valuesz <= sizeof(rt_value_t))
-      return a.qword == b.qword;
+   if (valuesz <= sizeof(rt_value_t)) {
+      // Bytes past the end may be undefined after a nexus is split
+      const int unused = (sizeof(rt_value_t) - valuesz) * 8;
+      return (a.qword ^ b.qword) << unused == 0;
+   }
    else
       return cmp_bytes(a.ext, b.ext, valuesz);
 }
-- 
2.43.0


From d19b28c133ee5afceeee72f63e4b42f5b37f29ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 18/60] fix: pulse rejection limit not set correctly in
 selected signal assignment

---
 src/parse.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 77b973c..a456f7e 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -10926,10 +10926,8 @@ static void p_selected_waveforms(tree_t stmt, tree_t target, tree_t reject)
    do {
       tree_t a = tree_new(T_SIGNAL_ASSIGN);
       tree_set_target(a, target);
-      if (reject != NULL)
-         tree_set_reject(a, reject);
-
       p_waveform(a, target);
+      set_delay_mechanism(a, reject);
 
       sem_check(a, nametab);
 
-- 
2.43.0


From 2250d9775282cc23a5242380adbd59fff88677ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 19/60] fix: redundant event condition elided in process that
 can run without an event

---
 src/lower.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 9171f4a..6fd8943 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -11226,7 +11226,8 @@ static bool can_use_transfer_signal(tree_t proc, driver_set_t *ds)
    return true;
 }
 
-static vcode_reg_t lower_trigger(lower_unit_t *lu, tree_t fcall, tree_t proc)
+static vcode_reg_t lower_trigger(lower_unit_t *lu, tree_t fcall, tree_t proc,
+                                 bool *exact)
 {
    tree_t decl = tree_ref(fcall);
 
@@ -11241,7 +11242,7 @@ static vcode_reg_t lower_trigger(lower_unit_t *lu, tree_t fcall, tree_t proc)
 
       if (tree_kind(p0) != T_REF || class_of(p0) != C_SIGNAL)
          return VCODE_INVALID_REG;
-      else if (!is_literal(p1))
+      else if (!is_literal(p1) || type_is_real(tree_type(p1)))
          return VCODE_INVALID_REG;
 
       vcode_reg_t left_reg = lower_lvalue(lu, p0);
@@ -11250,8 +11251,8 @@ static vcode_reg_t lower_trigger(lower_unit_t *lu, tree_t fcall, tree_t proc)
       return emit_cmp_trigger(left_reg, right_reg);
    }
    else if (kind == S_SCALAR_AND) {
-      // Testing x'event is redundant if the process is only
-      // sensitive to x
+      // Testing x'event is redundant if the process is only sensitive
+      // to x except for the initial execution or if it is postponed
       tree_t w = tree_stmt(proc, 1);
       assert(tree_kind(w) == T_WAIT);
 
@@ -11277,7 +11278,8 @@ static vcode_reg_t lower_trigger(lower_unit_t *lu, tree_t fcall, tree_t proc)
       if (!same_tree(tree_name(aref), tree_trigger(w, 0)))
          return VCODE_INVALID_REG;
 
-      return lower_trigger(lu, other, proc);
+      *exact = false;
+      return lower_trigger(lu, other, proc, exact);
    }
    else if (kind != S_USER && kind != S_FALLING_EDGE && kind != S_RISING_EDGE)
       return VCODE_INVALID_REG;
@@ -11315,8 +11317,11 @@ static vcode_reg_t lower_trigger(lower_unit_t *lu, tree_t fcall, tree_t proc)
    return emit_function_trigger(name, args, nparams + 1);
 }
 
-static vcode_reg_t lower_process_trigger(lower_unit_t *lu, tree_t proc)
+static vcode_reg_t lower_process_trigger(lower_unit_t *lu, tree_t proc,
+                                         bool *exact)
 {
+   *exact = true;
+
    if (cover_enabled(lu->cover, COVER_MASK_BRANCH | COVER_MASK_EXPRESSION))
       return VCODE_INVALID_REG;   // Would have incorrect branch coverage
    else if (tree_stmts(proc) != 2)
@@ -11344,7 +11349,7 @@ static vcode_reg_t lower_process_trigger(lower_unit_t *lu, tree_t proc)
       if (tree_kind(value) != T_FCALL)
          return VCODE_INVALID_REG;
 
-      branches[i] = lower_trigger(lu, value, proc);
+      branches[i] = lower_trigger(lu, value, proc, exact);
    }
 
    if (nconds == 1)
@@ -11399,6 +11404,7 @@ void lower_process(lower_unit_t *parent, tree_t proc, driver_set_t *ds)
 
    const bool transfer = can_use_transfer_signal(proc, ds);
    vcode_reg_t trigger_reg = VCODE_INVALID_REG;
+   bool trigger_exact = false;
 
    if (transfer) {
       tree_t s0 = tree_stmt(proc, 0);
@@ -11445,7 +11451,7 @@ void lower_process(lower_unit_t *parent, tree_t proc, driver_set_t *ds)
          for (int i = 0; i < ntriggers; i++)
             lower_sched_event(lu, tree_trigger(wait, i));
 
-         trigger_reg = lower_process_trigger(lu, proc);
+         trigger_reg = lower_process_trigger(lu, proc, &trigger_exact);
 
          if (trigger_reg != VCODE_INVALID_REG)
             emit_add_trigger(trigger_reg);
@@ -11458,7 +11464,7 @@ void lower_process(lower_unit_t *parent, tree_t proc, driver_set_t *ds)
 
    if (transfer)
       emit_return(VCODE_INVALID_REG);
-   else if (trigger_reg != VCODE_INVALID_REG) {
+   else if (trigger_reg != VCODE_INVALID_REG && trigger_exact) {
       tree_t s0 = tree_stmt(proc, 0);
       assert(tree_kind(s0) == T_IF);
       lower_stmt_coverage(lu, s0);
-- 
2.43.0


From 8140bfeda1698daff959e45e0320adbe90d44c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 20/60] fix: signal attributes report an event during
 initialisation

The initial value of a signal with several sources or with separate
driving and effective values was recorded as an event which gave
wrong results from 'last_event and 'last_value.
---
 src/rt/model.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rt/model.c b/src/rt/model.c
index a0df551..34c99da 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2455,6 +2455,12 @@ void model_reset(rt_model_t *m)
       calculate_effective_value(m, n);
    }
 
+   // Determining the initial value is not an event
+   for (rt_nexus_t *n = m->nexuses; n != NULL; n = n->chain) {
+      memcpy(nexus_last_value(n), nexus_effective(n), n->size * n->width);
+      n->last_event = TIME_HIGH;
+   }
+
    tlab_reset(thread->tlab);   // No allocations can be live past here
 
    global_event(m, RT_END_OF_INITIALISATION);
-- 
2.43.0


From e325cc636fe08051045cdb24f17e8b2a619f2aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 21/60] fix: event reported for part of a signal when another
 part changed

When a signal was first split because of a reference to 'event the new
parts inherited the event on the whole.
---
 src/rt/model.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rt/model.c b/src/rt/model.c
index 34c99da..5cac0d9 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1647,6 +1647,17 @@ static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset)
       }
    }
 
+   if (old->event_delta == m->iteration && old->last_event == m->now) {
+      // There may have been an event on only one part in this cycle
+      rt_nexus_t *parts[] = { old, new };
+      for (int i = 0; i < ARRAY_LEN(parts); i++) {
+         rt_nexus_t *n = parts[i];
+         if (cmp_bytes(nexus_last_value(n), nexus_effective(n),
+                       n->size * n->width))
+            n->event_delta = DELTA_CYCLE_MAX;
+      }
+   }
+
    if (signal->index == NULL && signal->n_nexus >= NEXUS_INDEX_MIN)
       build_index(signal);
    else if (signal->index != NULL)
-- 
2.43.0


From 43599c700e327f13a8725c7d1b99b6c30eee4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 22/60] fix: initial value of 'delayed was not that of its
 prefix

---
 src/lower.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index 6fd8943..585cd7c 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -8240,8 +8240,9 @@ static void lower_implicit_decl(lower_unit_t *parent, tree_t decl)
 
    case IMPLICIT_DELAYED:
       {
+         // The initial value is that of the prefix
          vcode_reg_t init_reg =
-            lower_default_value(parent, type, VCODE_INVALID_REG);
+            lower_rvalue(parent, tree_value(tree_value(decl)));
 
          lower_sub_signals(parent, type, type, type, decl, NULL, var,
                            VCODE_INVALID_REG, init_reg, VCODE_INVALID_REG,
-- 
2.43.0


From 2c3e91f3a8047d7a28290c8209e11e96a36406ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 23/60] fix: crash with 'delayed of array of records

The process for the implicit signal must resume at block one.
---
 src/lower.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index 585cd7c..c3dbf85 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -8101,6 +8101,10 @@ static void lower_implicit_delayed(lower_unit_t *lu, object_t *obj)
    type_t type = tree_type(decl);
    tree_t expr = tree_value(wave);
 
+   // Execution resumes at block one: see lower_process
+   vcode_block_t main_bb = emit_block();
+   assert(main_bb == 1);
+
    vcode_reg_t nets_reg = lower_signal_ref(lu, decl);
 
    if (type_is_homogeneous(type)) {
@@ -8116,7 +8120,6 @@ static void lower_implicit_delayed(lower_unit_t *lu, object_t *obj)
 
    emit_return(VCODE_INVALID_REG);
 
-   vcode_block_t main_bb = emit_block();
    vcode_select_block(main_bb);
 
    vcode_type_t vtime = vtype_time();
-- 
2.43.0


From 7f741378ddfeb2961ab2a329e9dedf59dbf3b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 24/60] fix: 'stable, 'quiet, and 'transaction not updated
 after signal is split

When a nexus with more than one implicit signal was split the outputs of
both parts were linked incorrectly.
---
 src/rt/model.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 5cac0d9..3280326 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1623,11 +1623,17 @@ static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset)
          new->outputs = old_o;
          add_conversion_input(m, old_o->u.port.conv_func, new);
       }
+      else if (old_o->tag == SOURCE_IMPLICIT) {
+         // Both parts are inputs of the same implicit signal
+         rt_source_t *src =
+            add_source(m, old_o->u.port.output, SOURCE_IMPLICIT);
+         src->u.port.input = new;
+         src->chain_output = new->outputs;
+         new->outputs = src;
+      }
       else {
          rt_nexus_t *out_n;
-         if (old_o->tag == SOURCE_IMPLICIT)
-            out_n = old_o->u.port.output;
-         else if (old_o->u.port.output->width == offset)
+         if (old_o->u.port.output->width == offset)
             out_n = old_o->u.port.output->chain;   // Cycle breaking
          else {
             RT_LOCK(old_o->u.port.output->signal->lock);
-- 
2.43.0


From 90c43e44eafbd4dda081785740d1fd35c98279fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 25/60] fix: compiled code missed overflow of exponentiation

The overflow flag of the repeated squaring was not accumulated so an
overflow was forgotten if a later square did not overflow.
---
 src/jit/jit-llvm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jit/jit-llvm.c b/src/jit/jit-llvm.c
index 256c5a5..9f0bb49 100644
--- a/src/jit/jit-llvm.c
+++ b/src/jit/jit-llvm.c
@@ -3257,7 +3257,8 @@ static void cgen_exp_overflow_body(llvm_obj_t *obj, llvm_fn_t which,
    LLVMValueRef x2_pair = LLVMBuildCall2(obj->builder, multype, mulfn, x2_args,
                                          ARRAY_LEN(x2_args), "");
    LLVMValueRef x2 = LLVMBuildExtractValue(obj->builder, x2_pair, 0, "x2");
-   LLVMValueRef xo2 = LLVMBuildExtractValue(obj->builder, x2_pair, 1, "");
+   LLVMValueRef x2_ovf = LLVMBuildExtractValue(obj->builder, x2_pair, 1, "");
+   LLVMValueRef xo2 = LLVMBuildOr(obj->builder, xo1, x2_ovf, "xo2");
 
    LLVMValueRef x1_in[] = { x0, x2 };
    LLVMBasicBlockRef x1_bb[] = { entry, tail };
-- 
2.43.0


From cb8869fcb2b025aa2fd776aa1bb344bd8d9505f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 26/60] fix: exponent truncated to the width of the base type

The exponent is always of type INTEGER but was narrowed to the size of
the left operand, which gave a wrong result or an endless loop for types
narrower than 32 bits.
---
 src/jit/jit-interp.c |  8 ++++----
 src/jit/jit-llvm.c   | 16 +++++++++-------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/jit/jit-interp.c b/src/jit/jit-interp.c
index 69ec3f9..79e47b7 100644
--- a/src/jit/jit-interp.c
+++ b/src/jit/jit-interp.c
@@ -700,8 +700,8 @@ static void interp_exp(jit_interp_t *state, jit_ir_t *ir)
       int overflow = 0, xo = 0;
 
 #define EXP_OVERFLOW(type) do {                                         \
-         type xt = x, yt = y, r = 1;                                    \
-         while (yt) {                                                   \
+         type xt = x, r = 1;                                            \
+         for (int64_t yt = y; yt > 0;) {                                \
             if (yt & 1)                                                 \
                overflow |= xo || __builtin_mul_overflow(r, xt, &r);     \
             yt >>= 1;                                                   \
@@ -718,8 +718,8 @@ static void interp_exp(jit_interp_t *state, jit_ir_t *ir)
       int overflow = 0, xo = 0;
 
 #define UEXP_OVERFLOW(type) do {                                        \
-         u##type xt = x, yt = y, r = 1;                                 \
-         while (yt) {                                                   \
+         u##type xt = x, r = 1;                                         \
+         for (int64_t yt = y; yt > 0;) {                                \
             if (yt & 1)                                                 \
                overflow |= xo || __builtin_mul_overflow(r, xt, &r);     \
             yt >>= 1;                                                   \
diff --git a/src/jit/jit-llvm.c b/src/jit/jit-llvm.c
index 9f0bb49..7b8bda8 100644
--- a/src/jit/jit-llvm.c
+++ b/src/jit/jit-llvm.c
@@ -676,7 +676,7 @@ static LLVMValueRef llvm_get_fn(llvm_obj_t *obj, llvm_fn_t which)
          jit_size_t sz = which - LLVM_EXP_OVERFLOW_S8;
          LLVMTypeRef int_type = obj->types[LLVM_INT8 + sz];
          LLVMTypeRef pair_type = obj->types[LLVM_PAIR_I8_I1 + sz];
-         LLVMTypeRef args[] = { int_type, int_type };
+         LLVMTypeRef args[] = { int_type, obj->types[LLVM_INT64] };
          obj->fntypes[which] = LLVMFunctionType(pair_type, args,
                                                 ARRAY_LEN(args), false);
 
@@ -699,7 +699,7 @@ static LLVMValueRef llvm_get_fn(llvm_obj_t *obj, llvm_fn_t which)
          jit_size_t sz = which - LLVM_EXP_OVERFLOW_U8;
          LLVMTypeRef int_type = obj->types[LLVM_INT8 + sz];
          LLVMTypeRef pair_type = obj->types[LLVM_PAIR_I8_I1 + sz];
-         LLVMTypeRef args[] = { int_type, int_type };
+         LLVMTypeRef args[] = { int_type, obj->types[LLVM_INT64] };
          obj->fntypes[which] = LLVMFunctionType(pair_type, args,
                                                 ARRAY_LEN(args), false);
 
@@ -1962,7 +1962,7 @@ static void cgen_macro_exp(llvm_obj_t *obj, cgen_block_t *cgb, jit_ir_t *ir)
 
    llvm_type_t type = LLVM_INT8 + ir->size;
    LLVMValueRef arg1 = cgen_coerce_value(obj, cgb, ir->arg1, type);
-   LLVMValueRef arg2 = cgen_coerce_value(obj, cgb, ir->arg2, type);
+   LLVMValueRef arg2 = cgen_coerce_value(obj, cgb, ir->arg2, LLVM_INT64);
 
    LLVMValueRef args[] = { arg1, arg2 };
    LLVMValueRef pair = llvm_call_fn(obj, fn, args, 2);
@@ -3189,10 +3189,12 @@ static void cgen_exp_overflow_body(llvm_obj_t *obj, llvm_fn_t which,
    LLVMValueRef mulfn = llvm_get_fn(obj, mulbase + sz);
    LLVMTypeRef multype = obj->fntypes[mulbase + sz];
 
-   LLVMValueRef zero = LLVMConstInt(int_type, 0, false);
-   LLVMValueRef one = LLVMConstInt(int_type, 1, false);
+   LLVMTypeRef exp_type = obj->types[LLVM_INT64];
+
+   LLVMValueRef zero = LLVMConstInt(exp_type, 0, false);
+   LLVMValueRef one = LLVMConstInt(exp_type, 1, false);
 
-   LLVMValueRef r0 = one;
+   LLVMValueRef r0 = LLVMConstInt(int_type, 1, false);
    LLVMValueRef o0 = llvm_int1(obj, false);
    LLVMValueRef xo0 = llvm_int1(obj, false);
 
@@ -3207,7 +3209,7 @@ static void cgen_exp_overflow_body(llvm_obj_t *obj, llvm_fn_t which,
    LLVMPositionBuilderAtEnd(obj->builder, header);
 
    LLVMValueRef x1 = LLVMBuildPhi(obj->builder, int_type, "x1");
-   LLVMValueRef y1 = LLVMBuildPhi(obj->builder, int_type, "y1");
+   LLVMValueRef y1 = LLVMBuildPhi(obj->builder, exp_type, "y1");
    LLVMValueRef r1 = LLVMBuildPhi(obj->builder, int_type, "r1");
    LLVMValueRef o1 = LLVMBuildPhi(obj->builder, obj->types[LLVM_INT1], "o1");
    LLVMValueRef xo1 = LLVMBuildPhi(obj->builder, obj->types[LLVM_INT1], "xo1");
-- 
2.43.0


From feb1e7f9f9c082924dedf6bc2bc632b512b4b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 27/60] fix: force and release of records and arrays of records
 crashed

---
 src/lower.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index c3dbf85..345995d 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6253,7 +6253,12 @@ static void lower_force(lower_unit_t *lu, tree_t stmt)
    type_t value_type = tree_type(value);
    vcode_reg_t value_reg = lower_rvalue(lu, value);
 
-   if (type_is_array(type)) {
+   if (!type_is_homogeneous(type)) {
+      vcode_reg_t locus = lower_debug_locus(target);
+      lower_for_each_field_2(lu, type, value_type, nets, value_reg, locus,
+                             lower_force_field_cb, NULL);
+   }
+   else if (type_is_array(type)) {
       vcode_reg_t locus = lower_debug_locus(target);
       lower_check_array_sizes(lu, type, value_type, nets, value_reg, locus);
 
@@ -6261,15 +6266,24 @@ static void lower_force(lower_unit_t *lu, tree_t stmt)
       vcode_reg_t data_reg = lower_array_data(value_reg);
       emit_force(lower_array_data(nets), count_reg, data_reg);
    }
-   else if (type_is_record(type)) {
-      vcode_reg_t locus = lower_debug_locus(value);
-      lower_for_each_field_2(lu, type, value_type, nets, value_reg, locus,
-                             lower_force_field_cb, NULL);
-   }
    else
       emit_force(nets, emit_const(vtype_offset(), 1), value_reg);
 }
 
+static void lower_release_field_cb(lower_unit_t *lu, tree_t field,
+                                   vcode_reg_t ptr, vcode_reg_t unused,
+                                   vcode_reg_t locus, void *__ctx)
+{
+   type_t type = tree_type(field);
+   if (type_is_homogeneous(type)) {
+      vcode_reg_t nets_reg = emit_load_indirect(ptr);
+      vcode_reg_t count_reg = lower_type_width(lu, type, nets_reg);
+      emit_release(lower_array_data(nets_reg), count_reg);
+   }
+   else
+      lower_for_each_field(lu, type, ptr, locus, lower_release_field_cb, NULL);
+}
+
 static void lower_release(lower_unit_t *lu, tree_t stmt)
 {
    tree_t target = tree_target(stmt);
@@ -6277,13 +6291,13 @@ static void lower_release(lower_unit_t *lu, tree_t stmt)
 
    vcode_reg_t nets = lower_lvalue(lu, target);
 
-   if (type_is_array(type)) {
+   if (!type_is_homogeneous(type))
+      lower_for_each_field(lu, type, nets, VCODE_INVALID_REG,
+                           lower_release_field_cb, NULL);
+   else if (type_is_array(type)) {
       vcode_reg_t count_reg = lower_array_total_len(lu, type, nets);
       emit_release(lower_array_data(nets), count_reg);
    }
-   else if (type_is_record(type)) {
-      should_not_reach_here();
-   }
    else
       emit_release(nets, emit_const(vtype_offset(), 1));
 }
-- 
2.43.0


From 62a33683cf3cdc4addd7138434ecbfc93b09e6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 28/60] fix: forced or released source lost its state when a
 signal is split

---
 src/rt/model.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 3280326..9d21cef 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1557,7 +1557,12 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
    case SOURCE_DEPOSIT:
       split_value(nexus, &(new->u.pseudo.value), &(old->u.pseudo.value),
                   offset);
-      assert(!old->pseudoqueued);   // TODO
+      new->disconnected = old->disconnected;
+
+      if (old->pseudoqueued) {
+         deltaq_insert_pseudo_source(m, new);
+         new->pseudoqueued = 1;
+      }
       break;
 
    case SOURCE_IMPLICIT:
-- 
2.43.0


From 23fcfb5068c6ba629ef33e72325a0c2295f92c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 29/60] fix: assertion failed when an undriven element is
 forced while a fast update is pending

---
 src/rt/model.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 9d21cef..4bb40e6 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1263,9 +1263,13 @@ static rt_source_t *add_source(rt_model_t *m, rt_nexus_t *n, source_kind_t kind)
    src->tag          = kind;
    src->disconnected = 0;
    src->fastqueued   = 0;
-   src->sigqueued    = 0;
    src->pseudoqueued = 0;
 
+   // This flag is for the whole signal and may have been set already if
+   // this is the first source of the first nexus
+   if (src != &(n->signal->nexus.sources))
+      src->sigqueued = 0;
+
    switch (kind) {
    case SOURCE_DRIVER:
       {
-- 
2.43.0


From 969365bbc313aa7c534435df32f0ebec01e4d0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 30/60] fix: elaboration never ended as a hash table of size
 two could fill up

---
 src/hash.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 5af46e5..4cf44b2 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -61,7 +61,7 @@ void hash_free(hash_t *h)
 
 bool hash_put(hash_t *h, const void *key, void *value)
 {
-   if (unlikely(h->members > h->size / 2)) {
+   if (unlikely(h->members >= h->size / 2)) {
       // Rebuild the hash table with a larger size
       // This is expensive so a conservative initial size should be chosen
 
@@ -236,7 +236,7 @@ static void shash_put_copy(shash_t *h, char *key, void *value)
 
 void shash_put(shash_t *h, const char *key, void *value)
 {
-   if (unlikely(h->members > h->size / 2)) {
+   if (unlikely(h->members >= h->size / 2)) {
       // Rebuild the hash table with a larger size
 
       const int old_size = h->size;
@@ -357,7 +357,7 @@ void ihash_free(ihash_t *h)
 
 void ihash_put(ihash_t *h, uint64_t key, void *value)
 {
-   if (unlikely(h->members > h->size / 2)) {
+   if (unlikely(h->members >= h->size / 2)) {
       // Rebuild the hash table with a larger size
 
       const int old_size = h->size;
@@ -455,7 +455,7 @@ void hset_free(hset_t *h)
 
 void hset_insert(hset_t *h, const void *key)
 {
-   if (unlikely(h->members > h->size / 2)) {
+   if (unlikely(h->members >= h->size / 2)) {
       const int old_size = h->size;
       h->size *= 2;
 
@@ -851,7 +851,7 @@ void ghash_free(ghash_t *h)
 
 void ghash_put(ghash_t *h, const void *key, void *value)
 {
-   if (unlikely(h->members > h->size / 2)) {
+   if (unlikely(h->members >= h->size / 2)) {
       // Rebuild the hash table with a larger size
 
       const int old_size = h->size;
-- 
2.43.0


From b1a3fdccff16b03648ed41b6fae0729818abb5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 31/60] fix: ports with conversion functions or connected to
 inout ports took stale or wrong values

---
 src/rt/model.c   | 168 ++++++++++++++++++++++++++++++++++++++++-------
 src/rt/structs.h |   1 +
 2 files changed, 144 insertions(+), 25 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 4bb40e6..7f03680 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1451,6 +1451,22 @@ static void add_conversion_input(rt_model_t *m, rt_conv_func_t *cf,
    };
 }
 
+static void add_conversion_output(rt_model_t *m, rt_conv_func_t *cf,
+                                  rt_nexus_t *in)
+{
+   // The outputs of the conversion are reached through cf->outputs as a
+   // nexus may be an input of several conversions
+   rt_source_t *link = static_alloc(m, sizeof(rt_source_t));
+   memset(link, '\0', sizeof(rt_source_t));
+   link->tag = SOURCE_PORT;
+   link->inward = cf->outputs != NULL && cf->outputs->inward;
+   link->u.port.conv_func = cf;
+   link->u.port.input = in;
+   link->chain_output = in->outputs;
+
+   in->outputs = link;
+}
+
 static rt_value_t *find_conversion_input(rt_conv_func_t *cf, rt_nexus_t *n)
 {
    for (int i = 0; i < cf->ninputs; i++) {
@@ -1500,14 +1516,23 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
                          rt_source_t *old, int offset)
 {
    rt_source_t *new = add_source(m, nexus, old->tag);
+   new->inward = old->inward;
 
    switch (old->tag) {
    case SOURCE_PORT:
       {
          new->u.port.input = old->u.port.input;
 
-         if (old->u.port.conv_func != NULL)
-            new->u.port.conv_func = old->u.port.conv_func;
+         if (old->u.port.conv_func != NULL) {
+            rt_conv_func_t *cf = old->u.port.conv_func;
+
+            new->u.port.conv_func = cf;
+            split_value(nexus, &new->u.port.conv_result,
+                        &old->u.port.conv_result, offset);
+
+            new->chain_output = cf->outputs;
+            cf->outputs = new;
+         }
          else {
             if (old->u.port.input->width == offset)
                new->u.port.input = old->u.port.input->chain;  // Cycle breaking
@@ -1629,8 +1654,11 @@ static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset)
       assert(old_o->tag == SOURCE_PORT || old_o->tag == SOURCE_IMPLICIT);
 
       if (old_o->tag == SOURCE_PORT && old_o->u.port.conv_func != NULL) {
-         new->outputs = old_o;
-         add_conversion_input(m, old_o->u.port.conv_func, new);
+         rt_conv_func_t *cf = old_o->u.port.conv_func;
+         add_conversion_output(m, cf, new);
+         add_conversion_input(m, cf, new);
+         split_value(new, find_conversion_input(cf, new),
+                     find_conversion_input(cf, old), offset);
       }
       else if (old_o->tag == SOURCE_IMPLICIT) {
          // Both parts are inputs of the same implicit signal
@@ -1983,6 +2011,38 @@ static rt_source_t *get_pseudo_source(rt_model_t *m, rt_nexus_t *n,
    return add_source(m, n, kind);
 }
 
+static int effective_order(rt_nexus_t *n)
+{
+   // An effective value only depends on signals in enclosing scopes
+   int depth = 0;
+   for (rt_scope_t *s = n->signal->parent; s != NULL; s = s->parent) {
+      if (!is_signal_scope(s))
+         depth++;
+   }
+
+   return depth;
+}
+
+static void enqueue_effective(rt_model_t *m, rt_nexus_t *n)
+{
+   if (n->flags & NET_F_PENDING)
+      return;
+
+   n->flags |= NET_F_PENDING;
+   heap_insert(m->effective_heap, effective_order(n), n);
+}
+
+static void enqueue_inward(rt_model_t *m, rt_source_t *o)
+{
+   if (o->u.port.conv_func != NULL) {
+      rt_source_t *s = o->u.port.conv_func->outputs;
+      for (; s; s = s->chain_output)
+         enqueue_effective(m, s->u.port.output);
+   }
+   else
+      enqueue_effective(m, o->u.port.output);
+}
+
 __attribute__((cold, noinline))
 static void schedule_implicit_update(rt_model_t *m, rt_nexus_t *n)
 {
@@ -1994,6 +2054,23 @@ static void schedule_implicit_update(rt_model_t *m, rt_nexus_t *n)
    }
 }
 
+static inline bool is_inward(rt_nexus_t *n)
+{
+   return n->n_sources == 1 && n->sources.inward;
+}
+
+static const void *inward_value(rt_nexus_t *n, rt_source_t *s)
+{
+   // The effective value of a port of mode in is the effective value of
+   // the actual
+   if (s->u.port.conv_func == NULL)
+      return nexus_effective(s->u.port.input);
+   else {
+      convert_driving(s->u.port.conv_func);
+      return value_ptr(n, &(s->u.port.conv_result));
+   }
+}
+
 static void calculate_driving_value(rt_model_t *m, rt_nexus_t *n)
 {
    // Algorithm for driving values is in LRM 08 section 14.7.3.2
@@ -2051,6 +2128,8 @@ static void calculate_driving_value(rt_model_t *m, rt_nexus_t *n)
       else
          call_resolution(m, n, r, nonnull, s0);
    }
+   else if (s0->inward)
+      put_driving(m, n, inward_value(n, s0));
    else if (r == NULL) {
       switch (s0->tag) {
       case SOURCE_DRIVER:
@@ -2093,12 +2172,17 @@ static void calculate_effective_value(rt_model_t *m, rt_nexus_t *n)
 {
    // Algorithm for effective values is in LRM 08 section 14.7.7.3
 
+   if (is_inward(n)) {
+      put_effective(m, n, inward_value(n, &(n->sources)));
+      return;
+   }
+
    // If S is a connected port of mode in or inout, then the effective
    // value of S is the same as the effective value of the actual part
    // of the association element that associates an actual with S
    if (n->flags & NET_F_INOUT) {
       for (rt_source_t *s = n->outputs; s; s = s->chain_output) {
-         if (s->tag == SOURCE_PORT) {
+         if (s->tag == SOURCE_PORT && !s->inward) {
             if (likely(s->u.port.conv_func == NULL))
                put_effective(m, n, nexus_effective(s->u.port.output));
             else {
@@ -2459,6 +2543,8 @@ void model_reset(rt_model_t *m)
       if (rank > MAX_RANK)
          fatal_at(tree_loc(n->signal->where), "signal rank %d is greater "
                   "than the maximum supported %d", rank, MAX_RANK);
+      else if (is_inward(n))
+         enqueue_effective(m, n);   // Depends on effective value of actual
       else if (rank > 0 || n->n_sources > 1)
          heap_insert(m->driving_heap, rank, n);
       else {
@@ -2479,6 +2565,9 @@ void model_reset(rt_model_t *m)
       n->flags &= ~NET_F_PENDING;
 
       calculate_effective_value(m, n);
+
+      if (is_inward(n))
+         check_undriven_std_logic(n);
    }
 
    // Determining the initial value is not an event
@@ -2971,14 +3060,6 @@ static void put_effective(rt_model_t *m, rt_nexus_t *n, const void *value)
    }
 }
 
-static void enqueue_effective(rt_model_t *m, rt_nexus_t *n)
-{
-   if (n->flags & NET_F_PENDING)
-      return;
-
-   n->flags |= NET_F_PENDING;
-   heap_insert(m->effective_heap, MAX_RANK - n->rank, n);
-}
 
 static void update_effective(rt_model_t *m, rt_nexus_t *n)
 {
@@ -2989,7 +3070,7 @@ static void update_effective(rt_model_t *m, rt_nexus_t *n)
 
    if (n->n_sources > 0) {
       for (rt_source_t *s = &(n->sources); s; s = s->chain_input) {
-         if (s->tag != SOURCE_PORT)
+         if (s->tag != SOURCE_PORT || s->inward)
             continue;
          else if (s->u.port.conv_func != NULL) {
             rt_conv_func_t *cf = s->u.port.conv_func;
@@ -3002,6 +3083,13 @@ static void update_effective(rt_model_t *m, rt_nexus_t *n)
             enqueue_effective(m, s->u.port.input);
       }
    }
+
+   for (rt_source_t *o = n->outputs; o; o = o->chain_output) {
+      if (o->tag == SOURCE_IMPLICIT)
+         calculate_driving_value(m, o->u.pseudo.nexus);
+      else if (o->inward)
+         enqueue_inward(m, o);
+   }
 }
 
 static void put_driving(rt_model_t *m, rt_nexus_t *n, const void *value)
@@ -3014,7 +3102,7 @@ static void put_driving(rt_model_t *m, rt_nexus_t *n, const void *value)
       assert(!(n->flags & NET_F_PENDING));
       n->flags |= NET_F_PENDING;
       n->flags &= ~NET_F_HAS_INITIAL;
-      heap_insert(m->effective_heap, MAX_RANK - n->rank, n);
+      heap_insert(m->effective_heap, effective_order(n), n);
    }
    else
       put_effective(m, n, value);
@@ -3047,8 +3135,19 @@ static void update_driving(rt_model_t *m, rt_nexus_t *n, bool safe)
          for (rt_source_t *o = n->outputs; o; o = o->chain_output) {
             switch (o->tag) {
             case SOURCE_PORT:
-               if (o->u.port.conv_func != NULL)
-                  defer_driving_update(m, o->u.port.output);
+               if (o->inward) {
+                  // Must wait for the effective value of every input
+                  if (o->u.port.conv_func != NULL
+                      || (n->flags & NET_F_EFFECTIVE))
+                     enqueue_inward(m, o);
+                  else
+                     update_driving(m, o->u.port.output, false);
+               }
+               else if (o->u.port.conv_func != NULL) {
+                  rt_source_t *s = o->u.port.conv_func->outputs;
+                  for (; s; s = s->chain_output)
+                     defer_driving_update(m, s->u.port.output);
+               }
                else
                   update_driving(m, o->u.port.output, false);
                break;
@@ -4202,6 +4301,16 @@ int64_t x_last_active(sig_shared_t *ss, uint32_t offset, int32_t count)
    return last;
 }
 
+static bool is_formal(rt_model_t *m, rt_signal_t *s)
+{
+   // Port maps are elaborated in the scope that contains the formal
+   rt_scope_t *scope = s->parent;
+   while (is_signal_scope(scope))
+      scope = scope->parent;
+
+   return scope == get_active_scope(m);
+}
+
 void x_map_signal(sig_shared_t *src_ss, uint32_t src_offset,
                   sig_shared_t *dst_ss, uint32_t dst_offset, uint32_t count)
 {
@@ -4219,6 +4328,8 @@ void x_map_signal(sig_shared_t *src_ss, uint32_t src_offset,
 
    rt_model_t *m = get_model();
 
+   const bool inward = is_formal(m, dst_s);
+
    rt_nexus_t *src_n = split_nexus(m, src_s, src_offset, count);
    rt_nexus_t *dst_n = split_nexus(m, dst_s, dst_offset, count);
 
@@ -4231,12 +4342,15 @@ void x_map_signal(sig_shared_t *src_ss, uint32_t src_offset,
       assert(src_n->width == dst_n->width);
       assert(src_n->size == dst_n->size);
 
-      // Effective value updates must propagate through ports
-      src_n->flags |= (dst_n->flags & NET_F_EFFECTIVE);
-      dst_n->flags |= (src_n->flags & NET_F_EFFECTIVE);
-
       rt_source_t *port = add_source(m, dst_n, SOURCE_PORT);
       port->u.port.input = src_n;
+      port->inward = inward;
+
+      if (!inward) {
+         // Effective value updates must propagate through ports
+         src_n->flags |= (dst_n->flags & NET_F_EFFECTIVE);
+         dst_n->flags |= (src_n->flags & NET_F_EFFECTIVE);
+      }
 
       port->chain_output = src_n->outputs;
       src_n->outputs = port;
@@ -4736,10 +4850,7 @@ void x_convert_in(void *ptr, sig_shared_t *ss, uint32_t offset, int32_t count)
       assert(count >= 0);
 
       add_conversion_input(m, cf, n);
-
-      rt_source_t **p = &(n->outputs);
-      for (; *p != NULL && *p != cf->outputs; p = &((*p)->chain_output));
-      *p = cf->outputs;
+      add_conversion_output(m, cf, n);
    }
 }
 
@@ -4755,6 +4866,8 @@ void x_convert_out(void *ptr, sig_shared_t *ss, uint32_t offset, int32_t count)
 
    assert(cf->ninputs == 0);    // Add outputs first
 
+   const bool inward = is_formal(m, s);
+
    rt_nexus_t *n = split_nexus(m, s, offset, count);
    for (; count > 0; n = n->chain) {
       count -= n->width;
@@ -4763,6 +4876,11 @@ void x_convert_out(void *ptr, sig_shared_t *ss, uint32_t offset, int32_t count)
       rt_source_t *src = add_source(m, n, SOURCE_PORT);
       src->u.port.conv_func   = cf;
       src->u.port.conv_result = alloc_value(m, n);
+      src->inward             = inward;
+
+      // The effective value of the port must be updated with the actual
+      if (cf->effective.handle != JIT_HANDLE_INVALID)
+         n->flags |= NET_F_EFFECTIVE;
 
       src->chain_output = cf->outputs;
       cf->outputs = src;
diff --git a/src/rt/structs.h b/src/rt/structs.h
index e5f28ab..a32b4c7 100644
--- a/src/rt/structs.h
+++ b/src/rt/structs.h
@@ -163,6 +163,7 @@ typedef struct _rt_source {
    unsigned        sigqueued : 1;
    unsigned        pseudoqueued : 1;
    unsigned        was_active : 1;
+   unsigned        inward : 1;     // From an actual to a port of mode in
    union {
       rt_port_t   port;
       rt_driver_t driver;
-- 
2.43.0


From 4e2a05c1f12ccb520eba46d8535f477b976ea528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 32/60] fix: assertion failed when several ports of an instance
 connect to one signal that is split

---
 src/rt/model.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 7f03680..bac91ad 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1377,7 +1377,9 @@ static void update_index(rt_signal_t *s, rt_nexus_t *n)
    }
    else {
       const int elt = map_index(s->index, offset);
-      assert(s->index->nexus[elt] == NULL);
+      // May already be present if another part of the same signal was
+      // split at the same time
+      assert(s->index->nexus[elt] == NULL || s->index->nexus[elt] == n);
       s->index->nexus[elt] = n;
    }
 }
-- 
2.43.0


From 06d224bccd2c0a2f1d1f29b48fcde3ecae1e5bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:09 +0000
Subject: [PATCH 33/60] fix: elaboration crashed on some individually
 associated record ports and on unconstrained ports with a default

---
 src/lower.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 345995d..f1a96bc 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -7862,7 +7862,7 @@ static void lower_sub_signals(lower_unit_t *lu, type_t type, type_t var_type,
       vcode_reg_t locus = lower_debug_locus(where);
 
       if (init_reg != VCODE_INVALID_REG)
-         lower_check_array_sizes(lu, type, init_type, VCODE_INVALID_REG,
+         lower_check_array_sizes(lu, type, init_type, bounds_reg,
                                  init_reg, locus);
 
       vcode_reg_t len_reg = lower_array_total_len(lu, type, bounds_reg);
@@ -12107,8 +12107,17 @@ static void lower_direct_mapped_port(lower_unit_t *lu, driver_set_t *ds,
             kind  = tree_kind(name);
          }
 
-         if (kind != T_REF)
+         if (kind != T_REF) {
+            // Only part of an element is associated so no other element
+            // of this signal can be direct mapped
+            tree_t ref = name_to_ref(name);
+            if (ref != NULL && type_is_record(tree_type(ref))) {
+               if (*poison == NULL)
+                  *poison = hset_new(32);
+               hset_insert(*poison, tree_ref(ref));
+            }
             return;
+         }
 
          port = tree_ref(name);
       }
-- 
2.43.0


From 5d5cd28af81045b732eb0603e2451054a8d1ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:15 +0000
Subject: [PATCH 34/60] fix: resolution function got wrong values from sources
 with conversion functions

---
 src/rt/model.c  | 5 ++++-
 src/rt/mspace.h | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index bac91ad..e21a929 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1827,13 +1827,16 @@ static void convert_driving(rt_conv_func_t *cf)
 
    model_thread_t *thread = model_thread(m);
 
+   // The caller may be part way through calling a resolution function
+   const uint32_t mark = thread->tlab->alloc;
+
    jit_scalar_t context = { .pointer = cf->driving.context };
    jit_scalar_t arg = { .pointer = cf }, result;
    if (!jit_fastcall(m->jit, cf->driving.handle, &result, context, arg,
                      thread->tlab))
       m->force_stop = true;
 
-   tlab_reset(thread->tlab);   // No allocations can be live past here
+   tlab_rewind(thread->tlab, mark);   // No new allocations live past here
 }
 
 static void convert_effective(rt_conv_func_t *cf)
diff --git a/src/rt/mspace.h b/src/rt/mspace.h
index 46cdeef..168461a 100644
--- a/src/rt/mspace.h
+++ b/src/rt/mspace.h
@@ -42,6 +42,11 @@ typedef struct _tlab {
       (t)->alloc = 0;                           \
    } while (0)
 
+#define tlab_rewind(t, mark) do {               \
+      assert((mark) <= (t)->alloc);             \
+      (t)->alloc = (mark);                      \
+   } while (0)
+
 mspace_t *mspace_new(size_t size);
 void mspace_destroy(mspace_t *m);
 void *mspace_alloc(mspace_t *m, size_t size);
-- 
2.43.0


From e540838dffa2ca32497801f0dae9a04bf823a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 35/60] fix: built-in to_x01 returned a vector with the wrong
 bounds

---
 src/jit/jit-intrin.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jit/jit-intrin.c b/src/jit/jit-intrin.c
index 99eed2a..e9fc2f4 100644
--- a/src/jit/jit-intrin.c
+++ b/src/jit/jit-intrin.c
@@ -320,8 +320,8 @@ static void std_to_x01_sse41(jit_func_t *func, jit_anchor_t *anchor,
    }
 
    args[0].pointer = result;
-   args[1].integer = size - 1;
-   args[2].integer = ~size;
+   args[1].integer = 1;
+   args[2].integer = size;
 }
 #endif
 
@@ -337,8 +337,8 @@ static void std_to_x01(jit_func_t *func, jit_anchor_t *anchor,
       result[i] = cvt_to_x01[input[i]];
 
    args[0].pointer = result;
-   args[1].integer = size - 1;
-   args[2].integer = ~size;
+   args[1].integer = 1;
+   args[2].integer = size;
 }
 
 __attribute__((always_inline))
-- 
2.43.0


From a5485d19e1282e3920ab09f1b579ec66c4a1d63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:50 +0000
Subject: [PATCH 36/60] fix: built-in signed comparison and addition padded
 with the metalogical value of the sign bit

---
 src/jit/jit-intrin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jit/jit-intrin.c b/src/jit/jit-intrin.c
index e9fc2f4..ec5e2bf 100644
--- a/src/jit/jit-intrin.c
+++ b/src/jit/jit-intrin.c
@@ -1350,7 +1350,7 @@ static inline const uint8_t *__conv_signed(jit_func_t *func,
    if (unlikely(result[pad] == _X))
       memset(result, _X, size);
    else
-      memset(result, *(uint8_t *)input, pad);
+      memset(result, result[pad], pad);
 
    return result;
 }
-- 
2.43.0


From a9d8f5e987f5f2fbce763a271c0f73cd33ceafae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 37/60] fix: * in include and exclude patterns for wave dumps
 did not match the empty string

---
 src/ident.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ident.c b/src/ident.c
index 5d6b08c..b37eb77 100644
--- a/src/ident.c
+++ b/src/ident.c
@@ -624,13 +624,13 @@ int ident_compare(ident_t a, ident_t b)
 
 static bool ident_glob_walk(const char *str, const char *g)
 {
-   if (*str == '\0')
+   if (*g == '*')
+      return ident_glob_walk(str, g + 1)
+         || (*str != '\0' && ident_glob_walk(str + 1, g));
+   else if (*str == '\0')
       return *g == '\0';
    else if (*g == '\0')
       return false;
-   else if (*g == '*')
-      return ident_glob_walk(str + 1, g)
-         || ident_glob_walk(str + 1, g + 1);
    else if (*str == *g)
       return ident_glob_walk(str + 1, g + 1);
    else
-- 
2.43.0


From 5c2e90e65f447b6fd26fdb33c9ac847a99de5080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 38/60] fix: wave dump include file name taken from past the
 end of the argument list

---
 src/nvc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvc.c b/src/nvc.c
index 7c9f548..d73ba4c 100644
--- a/src/nvc.c
+++ b/src/nvc.c
@@ -924,7 +924,7 @@ static int run_cmd(int argc, char **argv, cmd_state_t *state)
          gtkw_fname = tmp2;
       }
 
-      wave_include_file(argv[optind]);
+      wave_include_file(state->top_level_arg);
       dumper = wave_dumper_new(wave_fname, gtkw_fname, top, wave_fmt);
    }
    else if (gtkw_fname != NULL)
-- 
2.43.0


From 82819ffa3ca53a1274e7356ea67caaa573b76275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 39/60] fix: wave dumps of ports associated with an element or
 slice, and of arrays of other than characters

---
 src/jit/jit-exits.c |   7 +-
 src/jit/jit-exits.h |   2 +-
 src/jit/jit-irgen.c |   4 +-
 src/rt/model.c      |  13 ++-
 src/rt/model.h      |   1 +
 src/rt/structs.h    |   1 +
 src/rt/wave.c       | 203 +++++++++++++++++++++++++++-----------------
 7 files changed, 146 insertions(+), 85 deletions(-)

diff --git a/src/jit/jit-exits.c b/src/jit/jit-exits.c
index ce6c13a..ce763e8 100644
--- a/src/jit/jit-exits.c
+++ b/src/jit/jit-exits.c
@@ -529,10 +529,11 @@ void __nvc_do_exit(jit_exit_t which, jit_anchor_t *anchor, jit_scalar_t *args,
 
    case JIT_EXIT_ALIAS_SIGNAL:
       {
-         sig_shared_t *ss    = args[0].pointer;
-         tree_t        where = args[1].pointer;
+         sig_shared_t *ss     = args[0].pointer;
+         uint32_t      offset = args[1].integer;
+         tree_t        where  = args[2].pointer;
 
-         x_alias_signal(ss, where);
+         x_alias_signal(ss, offset, where);
       }
       break;
 
diff --git a/src/jit/jit-exits.h b/src/jit/jit-exits.h
index 734ea82..16c41c0 100644
--- a/src/jit/jit-exits.h
+++ b/src/jit/jit-exits.h
@@ -39,7 +39,7 @@ int32_t x_test_net_event(sig_shared_t *ss, uint32_t offset, int32_t count);
 int32_t x_test_net_active(sig_shared_t *ss, uint32_t offset,
                           int32_t count);
 void x_sched_event(sig_shared_t *ss, uint32_t offset, int32_t count);
-void x_alias_signal(sig_shared_t *ss, tree_t where);
+void x_alias_signal(sig_shared_t *ss, uint32_t offset, tree_t where);
 void x_sched_waveform_s(sig_shared_t *ss, uint32_t offset, uint64_t scalar,
                         int64_t after, int64_t reject);
 void x_file_open(int8_t *status, void **_fp, const uint8_t *name_bytes,
diff --git a/src/jit/jit-irgen.c b/src/jit/jit-irgen.c
index 5f91d0f..f3eb98a 100644
--- a/src/jit/jit-irgen.c
+++ b/src/jit/jit-irgen.c
@@ -2847,10 +2847,12 @@ static void irgen_op_implicit_signal(jit_irgen_t *g, mir_value_t n)
 static void irgen_op_alias_signal(jit_irgen_t *g, mir_value_t n)
 {
    jit_value_t shared = irgen_get_arg(g, n, 0);
+   jit_value_t offset = jit_value_from_reg(jit_value_as_reg(shared) + 1);
    jit_value_t locus  = irgen_get_arg(g, n, 1);
 
    j_send(g, 0, shared);
-   j_send(g, 1, locus);
+   j_send(g, 1, offset);
+   j_send(g, 2, locus);
 
    macro_exit(g, JIT_EXIT_ALIAS_SIGNAL);
 }
diff --git a/src/rt/model.c b/src/rt/model.c
index e21a929..902d49a 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -669,9 +669,15 @@ rt_signal_t *find_signal(rt_scope_t *scope, tree_t decl)
          return scope->signals.items[i];
    }
 
+   rt_alias_t *a = find_signal_alias(scope, decl);
+   return a != NULL ? a->signal : NULL;
+}
+
+rt_alias_t *find_signal_alias(rt_scope_t *scope, tree_t decl)
+{
    for (int i = 0; i < scope->aliases.count; i++) {
       if (scope->aliases.items[i]->where == decl)
-         return scope->aliases.items[i]->signal;
+         return scope->aliases.items[i];
    }
 
    return NULL;
@@ -4245,17 +4251,18 @@ void x_enter_state(int32_t state, bool strong)
    prop->strong |= strong;
 }
 
-void x_alias_signal(sig_shared_t *ss, tree_t where)
+void x_alias_signal(sig_shared_t *ss, uint32_t offset, tree_t where)
 {
    rt_signal_t *s = container_of(ss, rt_signal_t, shared);
    RT_LOCK(s->lock);
 
-   TRACE("alias signal %s to %s", istr(tree_ident(s->where)),
+   TRACE("alias signal %s+%d to %s", istr(tree_ident(s->where)), offset,
          istr(tree_ident(where)));
 
    rt_alias_t *a = xcalloc(sizeof(rt_alias_t));
    a->where  = where;
    a->signal = s;
+   a->offset = offset;
 
    model_thread_t *thread = model_thread(get_model());
    APUSH(thread->active_scope->aliases, a);
diff --git a/src/rt/model.h b/src/rt/model.h
index 2e381f3..8f2f4f1 100644
--- a/src/rt/model.h
+++ b/src/rt/model.h
@@ -61,6 +61,7 @@ rt_scope_t *root_scope(rt_model_t *m);
 rt_scope_t *child_scope(rt_scope_t *scope, tree_t decl);
 rt_scope_t *child_scope_at(rt_scope_t *scope, int index);
 rt_signal_t *find_signal(rt_scope_t *scope, tree_t decl);
+rt_alias_t *find_signal_alias(rt_scope_t *scope, tree_t decl);
 rt_proc_t *find_proc(rt_scope_t *scope, tree_t proc);
 bool is_signal_scope(rt_scope_t *scope);
 rt_scope_t *create_scope(rt_model_t *m, tree_t block, rt_scope_t *parent);
diff --git a/src/rt/structs.h b/src/rt/structs.h
index a32b4c7..c362713 100644
--- a/src/rt/structs.h
+++ b/src/rt/structs.h
@@ -247,6 +247,7 @@ typedef struct _rt_alias {
    rt_alias_t  *chain;
    tree_t       where;
    rt_signal_t *signal;
+   uint32_t     offset;
 } rt_alias_t;
 
 typedef enum {
diff --git a/src/rt/wave.c b/src/rt/wave.c
index 71766a9..f942f05 100644
--- a/src/rt/wave.c
+++ b/src/rt/wave.c
@@ -82,6 +82,7 @@ typedef struct _fst_data {
    rt_watch_t    *watch;
    tree_t         decl;
    rt_signal_t   *signal;
+   unsigned       offset;
    unsigned       size;
    unsigned       count;
    fstHandle      handle[];
@@ -113,6 +114,7 @@ typedef struct _wave_dumper {
    uint64_t       last_time;
    jit_t         *jit;
    hash_t        *typecache;
+   hash_t        *primary;
    data_array_t   dumped;
 } wave_dumper_t;
 
@@ -149,18 +151,23 @@ static void fst_close(rt_model_t *m, void *arg)
    fstWriterClose(wd->fst_ctx);
 
    if (wd->vcdfile) {
-      void *xc = fstReaderOpen(wd->tmpfst);
-      if (xc == NULL)
-         fatal("fstReaderOpen failed for temporary FST file");
+      if (wd->dumped.count == 0)
+         warnf("no signals were selected for the waveform dump");
+      else {
+         void *xc = fstReaderOpen(wd->tmpfst);
+         if (xc == NULL)
+            fatal("fstReaderOpen failed for temporary FST file");
 
-      fstReaderSetVcdExtensions(xc, 1);
-      if (!fstReaderProcessHier(xc, wd->vcdfile))
-         fatal("fstReaderProcessHier failed");
+         fstReaderSetVcdExtensions(xc, 1);
+         if (!fstReaderProcessHier(xc, wd->vcdfile))
+            fatal("fstReaderProcessHier failed");
 
-      fstReaderSetFacProcessMaskAll(xc);
-      fstReaderIterBlocks(xc, NULL, NULL, wd->vcdfile);
+         fstReaderSetFacProcessMaskAll(xc);
+         fstReaderIterBlocks(xc, NULL, NULL, wd->vcdfile);
+
+         fstReaderClose(xc);
+      }
 
-      fstReaderClose(xc);
       fclose(wd->vcdfile);
       wd->vcdfile = NULL;
 
@@ -188,10 +195,26 @@ static inline void fst_write_binary(uint64_t val, size_t size, char *buf)
    buf[size] = '\0';
 }
 
+static inline const void *fst_get_data(fst_data_t *data)
+{
+   return signal_value(data->signal) + data->offset * data->signal->nexus.size;
+}
+
+static void fst_expand(fst_data_t *data, uint64_t *buf)
+{
+#define FST_EXPAND_U64(type) do {               \
+      const type *sp = fst_get_data(data);      \
+      for (int i = 0; i < data->count; i++)     \
+         buf[i] = sp[i];                        \
+   } while (0)
+
+   FOR_ALL_SIZES(data->signal->nexus.size, FST_EXPAND_U64);
+}
+
 static void fst_fmt_int(rt_watch_t *w, fst_data_t *data)
 {
    uint64_t val[data->count];
-   signal_expand(data->signal, val, data->count);
+   fst_expand(data, val);
 
    for (int i = 0; i < data->count; i++) {
       char buf[data->type->size + 1];
@@ -203,30 +226,33 @@ static void fst_fmt_int(rt_watch_t *w, fst_data_t *data)
 
 static void fst_fmt_real(rt_watch_t *w, fst_data_t *data)
 {
-   const void *buf = signal_value(data->signal);
-   fstWriterEmitValueChange(data->dumper->fst_ctx, data->handle[0], buf);
+   const double *p = fst_get_data(data);
+   for (int i = 0; i < data->count; i++)
+      fstWriterEmitValueChange(data->dumper->fst_ctx, data->handle[i], p + i);
 }
 
 static void fst_fmt_physical(rt_watch_t *w, fst_data_t *data)
 {
-   uint64_t val;
-   signal_expand(data->signal, &val, 1);
+   uint64_t val[data->count];
+   fst_expand(data, val);
 
-   fst_unit_t *unit = data->type->u.units;
-   while ((val % unit->mult) != 0)
-      ++unit;
+   for (int i = 0; i < data->count; i++) {
+      fst_unit_t *unit = data->type->u.units;
+      while ((val[i] % unit->mult) != 0)
+         ++unit;
 
-   char buf[128];
-   checked_sprintf(buf, sizeof(buf), "%"PRIi64" %s",
-                   val / unit->mult, unit->name);
+      char buf[128];
+      checked_sprintf(buf, sizeof(buf), "%"PRIi64" %s",
+                      val[i] / unit->mult, unit->name);
 
-   fstWriterEmitVariableLengthValueChange(
-      data->dumper->fst_ctx, data->handle[0], buf, strlen(buf));
+      fstWriterEmitVariableLengthValueChange(
+         data->dumper->fst_ctx, data->handle[i], buf, strlen(buf));
+   }
 }
 
 static void fst_fmt_chars(rt_watch_t *w, fst_data_t *data)
 {
-   const uint8_t *p = signal_value(data->signal);
+   const uint8_t *p = fst_get_data(data);
    for (int i = 0; i < data->count; i++, p += data->size) {
       if (likely(data->type->u.map != NULL)) {
          char buf[data->size];
@@ -243,17 +269,20 @@ static void fst_fmt_chars(rt_watch_t *w, fst_data_t *data)
 #if !USE_FST_ENUMS
 static void fst_fmt_enum(rt_watch_t *w, fst_data_t *data)
 {
-   uint64_t val;
-   signal_expand(data->signal, &val, 1);
+   uint64_t val[data->count];
+   fst_expand(data, val);
 
    fst_enum_t *e = &(data->type->u.literals);
-   assert(val < e->count);
 
-   const char *literal = e->strings + val * e->size;
-   fstWriterEmitVariableLengthValueChange(data->dumper->fst_ctx,
-                                          data->handle[0],
-                                          literal,
-                                          strnlen(literal, e->size));
+   for (int i = 0; i < data->count; i++) {
+      assert(val[i] < e->count);
+
+      const char *literal = e->strings + val[i] * e->size;
+      fstWriterEmitVariableLengthValueChange(data->dumper->fst_ctx,
+                                             data->handle[i],
+                                             literal,
+                                             strnlen(literal, e->size));
+   }
 }
 #endif
 
@@ -561,13 +590,16 @@ static void fst_create_memory(wave_dumper_t *wd, fst_data_t *data, int *pos,
                               const fst_dim_t *dims, int ndims, int curdim,
                               enum fstVarDir vd, type_t type, text_buf_t *tb)
 {
-   if (curdim == ndims - 1) {
+   if (curdim == ndims - 1 && data->type->fn == fst_fmt_chars) {
       tb_printf(tb, "[%"PRIi64":%"PRIi64"]",
                 dims[curdim].msb, dims[curdim].lsb);
 
       data->handle[(*pos)++] = fst_create_handle(wd, data, tb_get(tb),
                                                  vd, type, 0);
    }
+   else if (curdim == ndims)
+      data->handle[(*pos)++] = fst_create_handle(wd, data, tb_get(tb),
+                                                 vd, type, 0);
    else {
       const size_t pfxlen = tb_len(tb);
       type_t elem = type_elem(type);
@@ -582,7 +614,25 @@ static void fst_create_memory(wave_dumper_t *wd, fst_data_t *data, int *pos,
    }
 }
 
-static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
+static void fst_watch_signal(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
+                             unsigned offset, fst_data_t *data)
+{
+   data->decl   = d;
+   data->signal = s;
+   data->offset = offset;
+   data->dumper = wd;
+   data->watch  = watch_new(wd->model, fst_event_cb, data, WATCH_POSTPONED, 1);
+
+   model_set_event_cb(wd->model, data->signal, data->watch);
+
+   APUSH(wd->dumped, data);
+
+   if (s->where == d)
+      hash_put(wd->primary, s, data);
+}
+
+static void fst_create_array_var(wave_dumper_t *wd, rt_scope_t *scope,
+                                 tree_t d, rt_signal_t *s, unsigned offset,
                                  type_t type, text_buf_t *tb)
 {
    enum fstVarDir vd = FST_VD_IMPLICIT;
@@ -597,8 +647,7 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
 
    int64_t left, right, length;
    range_kind_t dir;
-   fst_get_array_range(wd, type, s->parent, s->where, 0, &left, &right,
-                       &dir, &length);
+   fst_get_array_range(wd, type, scope, d, 0, &left, &right, &dir, &length);
 
    tb_rewind(tb);
    tb_istr(tb, tree_ident(d));
@@ -608,11 +657,13 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
    fst_data_t *data;
 
    type_t elem = type_elem(type);
+   fst_type_t *ft = NULL;
    if (type_is_enum(elem)) {
-      fst_type_t *ft = fst_type_for(wd, type, tree_loc(d));
-      if (ft == NULL)
+      if ((ft = fst_type_for(wd, type, tree_loc(d))) == NULL)
          return;
+   }
 
+   if (ft != NULL && ft->fn == fst_fmt_chars) {
       data = xcalloc(sizeof(fst_data_t) + sizeof(fstHandle));
       data->type  = ft;
       data->size  = length * ft->size;
@@ -623,13 +674,12 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
       if (wd->gtkw != NULL)
          fprintf(wd->gtkw->file, "%s.%s\n", tb_get(wd->gtkw->hier), tb_get(tb));
    }
-   else if (!should_dump_array(d, length))
+   else if (ft == NULL && !should_dump_array(d, length))
       return;   // Dumping memories and nested arrays can be slow
    else if (type_is_record(elem))
       return;   // Not yet supported
    else if (type_is_array(elem)) {
-      fst_type_t *ft = fst_type_for(wd, elem, tree_loc(d));
-      if (ft == NULL)
+      if ((ft = fst_type_for(wd, elem, tree_loc(d))) == NULL)
          return;
 
       SCOPED_A(fst_dim_t) dims = AINIT;
@@ -644,13 +694,19 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
 
          fst_dim_t dim;
          assert(dimension_of(e) == 1);
-         fst_get_array_range(wd, e, s->parent, s->where, dims.count,
+         fst_get_array_range(wd, e, scope, d, dims.count,
                              &dim.msb, &dim.lsb, &dim.dir, &dim.length);
 
          APUSH(dims, dim);
          e_length = dim.length;
       }
 
+      if (ft->fn != fst_fmt_chars) {
+         // Only arrays of characters can be dumped as a single variable
+         length *= e_length;
+         e_length = 1;
+      }
+
       data = xcalloc_flex(sizeof(fst_data_t), length, sizeof(fstHandle));
       data->count = length;
       data->size  = e_length * ft->size;
@@ -669,8 +725,7 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
       fstWriterSetAttrEnd(wd->fst_ctx);
    }
    else {
-      fst_type_t *ft = fst_type_for(wd, elem, tree_loc(d));
-      if (ft == NULL)
+      if ((ft = fst_type_for(wd, elem, tree_loc(d))) == NULL)
          return;
 
       data = xcalloc_flex(sizeof(fst_data_t), length, sizeof(fstHandle));
@@ -695,20 +750,11 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
       fstWriterSetAttrEnd(wd->fst_ctx);
    }
 
-   assert(find_watch(&(s->nexus), fst_event_cb) == NULL);
-
-   data->decl   = d;
-   data->signal = s;
-   data->dumper = wd;
-   data->watch  = watch_new(wd->model, fst_event_cb, data, WATCH_POSTPONED, 1);
-
-   model_set_event_cb(wd->model, data->signal, data->watch);
-
-   APUSH(wd->dumped, data);
+   fst_watch_signal(wd, d, s, offset, data);
 }
 
 static void fst_create_scalar_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
-                                  type_t type, text_buf_t *tb)
+                                  unsigned offset, type_t type, text_buf_t *tb)
 {
    fst_type_t *ft = fst_type_for(wd, type, tree_loc(d));
    if (ft == NULL)
@@ -718,7 +764,6 @@ static void fst_create_scalar_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
    data->type   = ft;
    data->count  = 1;
    data->size   = ft->size;
-   data->dumper = wd;
 
    enum fstVarDir dir = FST_VD_IMPLICIT;
 
@@ -737,15 +782,7 @@ static void fst_create_scalar_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
 
    data->handle[0] = fst_create_handle(wd, data, tb_get(tb), dir, type, 0);
 
-   assert(find_watch(&(s->nexus), fst_event_cb) == NULL);
-
-   data->decl   = d;
-   data->signal = s;
-   data->watch  = watch_new(wd->model, fst_event_cb, data, WATCH_POSTPONED, 1);
-
-   model_set_event_cb(wd->model, data->signal, data->watch);
-
-   APUSH(wd->dumped, data);
+   fst_watch_signal(wd, d, s, offset, data);
 
    if (wd->gtkw != NULL)
       fprintf(wd->gtkw->file, "%s.%s\n", tb_get(wd->gtkw->hier), tb_get(tb));
@@ -845,18 +882,16 @@ static void fst_create_record_array_var(wave_dumper_t *wd, tree_t d,
    }
 }
 
-static void fst_alias_var(wave_dumper_t *wd, tree_t d, rt_scope_t *scope,
+static bool fst_alias_var(wave_dumper_t *wd, tree_t d, rt_scope_t *scope,
                           rt_signal_t *s, text_buf_t *tb)
 {
-   rt_watch_t *w = find_watch(&(s->nexus), fst_event_cb);
-   if (w == NULL)
-      return;   // Did not dump the primary signal
-
-   fst_data_t *data = w->user_data;
-   if (data->count != 1)
-      return;   // Cannot handle for now
+   fst_data_t *data = hash_get(wd->primary, s);
+   if (data == NULL || data->count != 1)
+      return false;   // Not dumped or more than one variable
 
    type_t type = tree_type(d);
+   if (type_is_array(type) != type_is_array(tree_type(data->decl)))
+      return false;   // Only an element of the signal
 
    tb_rewind(tb);
    tb_istr(tb, tree_ident(d));
@@ -866,6 +901,9 @@ static void fst_alias_var(wave_dumper_t *wd, tree_t d, rt_scope_t *scope,
       fst_get_array_range(wd, type, scope, d, 0,
                           &left, &right, &dir, &length);
 
+      if (data->type->fn != fst_fmt_chars || length != data->size)
+         return false;   // Only part of the signal
+
       tb_printf(tb, "[%"PRIi64":%"PRIi64"]", left, right);
    }
    tb_downcase(tb);
@@ -874,6 +912,8 @@ static void fst_alias_var(wave_dumper_t *wd, tree_t d, rt_scope_t *scope,
 
    if (wd->gtkw != NULL)
       fprintf(wd->gtkw->file, "%s.%s\n", tb_get(wd->gtkw->hier), tb_get(tb));
+
+   return true;
 }
 
 static void fst_process_signal(wave_dumper_t *wd, rt_scope_t *scope, tree_t d,
@@ -891,12 +931,19 @@ static void fst_process_signal(wave_dumper_t *wd, rt_scope_t *scope, tree_t d,
       rt_signal_t *s = find_signal(scope, d);
       if (s == NULL)
          return;
-      else if (s->where != d)
-         fst_alias_var(wd, d, scope, s, tb);  // Collapsed with another signal
-      else if (type_is_array(type))
-         fst_create_array_var(wd, d, s, type, tb);
+
+      unsigned offset = 0;
+      if (s->where != d) {
+         // Collapsed with another signal
+         if ((offset = find_signal_alias(scope, d)->offset) == 0
+             && fst_alias_var(wd, d, scope, s, tb))
+            return;
+      }
+
+      if (type_is_array(type))
+         fst_create_array_var(wd, scope, d, s, offset, type, tb);
       else
-         fst_create_scalar_var(wd, d, s, type, tb);
+         fst_create_scalar_var(wd, d, s, offset, type, tb);
    }
    else if (type_is_record(type)) {
       rt_scope_t *sub = child_scope(scope, d);
@@ -1091,6 +1138,7 @@ wave_dumper_t *wave_dumper_new(const char *file, const char *gtkw_file,
    wd->top       = top;
    wd->last_time = UINT64_MAX;
    wd->typecache = hash_new(128);
+   wd->primary   = hash_new(128);
 
    if (format == WAVE_FORMAT_VCD) {
 #if defined __CYGWIN__ || defined __MINGW32__
@@ -1145,6 +1193,7 @@ void wave_dumper_free(wave_dumper_t *wd)
    ACLEAR(wd->dumped);
 
    hash_free(wd->typecache);
+   hash_free(wd->primary);
    free(wd);
 }
 
-- 
2.43.0


From f01f3ba12b5d4f4ae40eb4a96d9838789cc8d8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 40/60] fix: undefined signed overflow and null pointer
 arithmetic

---
 src/bounds.c         |  4 ++--
 src/jit/jit-interp.c | 10 +++++-----
 src/vcode.c          |  9 ++++++---
 src/vlog/vlog-node.c |  5 +++--
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/bounds.c b/src/bounds.c
index fca65d2..9fb4e1e 100644
--- a/src/bounds.c
+++ b/src/bounds.c
@@ -449,11 +449,11 @@ static void bounds_cover_choice(interval_t **isp, tree_t t, type_t type,
          it->high = MAX(high, it->high);
          return;
       }
-      else if (high == it->low - 1) {
+      else if (high < it->low && high + 1 == it->low) {
          it->low = low;
          return;
       }
-      else if (low == it->high + 1) {
+      else if (low > it->high && low - 1 == it->high) {
          it->high = high;
          return;
       }
diff --git a/src/jit/jit-interp.c b/src/jit/jit-interp.c
index 79e47b7..cee2ef8 100644
--- a/src/jit/jit-interp.c
+++ b/src/jit/jit-interp.c
@@ -297,7 +297,7 @@ static void interp_mul(jit_interp_t *state, jit_ir_t *ir)
       state->flags = overflow;
    }
    else
-      state->regs[ir->result].integer = arg1 * arg2;
+      state->regs[ir->result].integer = (uint64_t)arg1 * (uint64_t)arg2;
 }
 
 static void interp_fmul(jit_interp_t *state, jit_ir_t *ir)
@@ -356,7 +356,7 @@ static void interp_sub(jit_interp_t *state, jit_ir_t *ir)
       state->flags = overflow;
    }
    else
-      state->regs[ir->result].integer = arg1 - arg2;
+      state->regs[ir->result].integer = (uint64_t)arg1 - (uint64_t)arg2;
 }
 
 static void interp_fsub(jit_interp_t *state, jit_ir_t *ir)
@@ -399,7 +399,7 @@ static void interp_add(jit_interp_t *state, jit_ir_t *ir)
       state->flags = overflow;
    }
    else
-      state->regs[ir->result].integer = arg1 + arg2;
+      state->regs[ir->result].integer = (uint64_t)arg1 + (uint64_t)arg2;
 }
 
 static void interp_fadd(jit_interp_t *state, jit_ir_t *ir)
@@ -415,7 +415,7 @@ static void interp_shl(jit_interp_t *state, jit_ir_t *ir)
    const int64_t arg1 = interp_get_int(state, ir->arg1);
    const int64_t arg2 = interp_get_int(state, ir->arg2);
 
-   state->regs[ir->result].integer = arg1 << arg2;
+   state->regs[ir->result].integer = (uint64_t)arg1 << arg2;
 }
 
 static void interp_asr(jit_interp_t *state, jit_ir_t *ir)
@@ -654,7 +654,7 @@ static void interp_csel(jit_interp_t *state, jit_ir_t *ir)
 
 static void interp_neg(jit_interp_t *state, jit_ir_t *ir)
 {
-   state->regs[ir->result].integer = -interp_get_int(state, ir->arg1);
+   state->regs[ir->result].integer = -(uint64_t)interp_get_int(state, ir->arg1);
 }
 
 static void interp_fneg(jit_interp_t *state, jit_ir_t *ir)
diff --git a/src/vcode.c b/src/vcode.c
index 3853f17..5187203 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -3909,7 +3909,8 @@ static vcode_reg_t emit_mul_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
    if (l_is_const && r_is_const)
-      return emit_const(vcode_reg_type(lhs), lconst * rconst);
+      return emit_const(vcode_reg_type(lhs),
+                        (uint64_t)lconst * (uint64_t)rconst);
    else if (r_is_const && rconst == 1)
       return lhs;
    else if (l_is_const && lconst == 1)
@@ -4076,7 +4077,8 @@ static vcode_reg_t emit_add_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
    if (l_is_const && r_is_const)
-      return emit_const(vcode_reg_type(lhs), lconst + rconst);
+      return emit_const(vcode_reg_type(lhs),
+                        (uint64_t)lconst + (uint64_t)rconst);
    else if (r_is_const && rconst == 0)
       return lhs;
    else if (l_is_const && lconst == 0)
@@ -4132,7 +4134,8 @@ static vcode_reg_t emit_sub_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
    if (l_is_const && r_is_const)
-      return emit_const(vcode_reg_type(lhs), lconst - rconst);
+      return emit_const(vcode_reg_type(lhs),
+                        (uint64_t)lconst - (uint64_t)rconst);
    else if (r_is_const && rconst == 0)
       return lhs;
    else if (l_is_const && lconst == 0)
diff --git a/src/vlog/vlog-node.c b/src/vlog/vlog-node.c
index 109b3ed..4608b4a 100644
--- a/src/vlog/vlog-node.c
+++ b/src/vlog/vlog-node.c
@@ -458,8 +458,9 @@ bool vlog_has_value(vlog_node_t v)
 
 void vlog_set_value(vlog_node_t v, vlog_node_t e)
 {
-   lookup_item(&vlog_object, v, I_VALUE)->object = &(e->object);
-   object_write_barrier(&(v->object), &(e->object));
+   object_t *object = e != NULL ? &(e->object) : NULL;
+   lookup_item(&vlog_object, v, I_VALUE)->object = object;
+   object_write_barrier(&(v->object), object);
 }
 
 vlog_node_t vlog_target(vlog_node_t v)
-- 
2.43.0


From 383b9338c98bd955e2c85e87aefb74e538c24010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:43 +0000
Subject: [PATCH 41/60] fix: case choices missing a multiple of 2**32 values
 accepted, and overflow for choices up to the highest integer

---
 src/bounds.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/bounds.c b/src/bounds.c
index 9fb4e1e..8a7bd8c 100644
--- a/src/bounds.c
+++ b/src/bounds.c
@@ -493,18 +493,17 @@ static void bounds_check_missing_choices(tree_t t, type_t type,
                                          int64_t tlow, int64_t thigh,
                                          interval_t *covered)
 {
-   int missing = 0;
+   uint64_t missing = 0, walk;   // Differences may exceed the signed range
    interval_t *it;
-   int64_t walk;
 
    for (it = covered, walk = tlow; it != NULL; it = it->next) {
       if (it->low != walk)
          missing += it->low - walk;
-      walk = it->high + 1;
+      walk = (uint64_t)it->high + 1;
    }
 
-   if (walk != thigh + 1)
-      missing += (thigh + 1 - walk);
+   if (walk != (uint64_t)thigh + 1)
+      missing += (uint64_t)thigh + 1 - walk;
 
    if (missing == 0)
       return;
@@ -528,10 +527,10 @@ static void bounds_check_missing_choices(tree_t t, type_t type,
          report_interval(d, index_type ?: type, dir, walk, it->low - 1);
       }
 
-      walk = it->high + 1;
+      walk = (uint64_t)it->high + 1;
    }
 
-   if (walk != thigh + 1) {
+   if (walk != (uint64_t)thigh + 1) {
       if (printed++) diag_printf(d, ", ");
       report_interval(d, index_type ?: type, dir, walk, thigh);
    }
-- 
2.43.0


From ec68d6e8ac2fb8b37ba8d27c9a4f18c5cc8e99c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:01 +0000
Subject: [PATCH 42/60] fix: 'value of quoted and extended literals and of
 reals with an exponent

---
 lib/nvc/text_util-body.vhd | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/lib/nvc/text_util-body.vhd b/lib/nvc/text_util-body.vhd
index d2c41ac..9ba711d 100644
--- a/lib/nvc/text_util-body.vhd
+++ b/lib/nvc/text_util-body.vhd
@@ -176,20 +176,20 @@ package body text_util is
         alias ss         : string(1 to length) is s;
         variable result  : string(1 to length);
         variable trimmed : positive := 1;
-        variable char    : character;
-        variable upcase  : boolean := true;
+        variable quote   : character := NUL;  -- Delimiter if inside quotes
     begin
         for i in 1 to length loop
-            char := ss(i);
-            if isspace(char) then
+            if ss(i) = quote then
+                quote := NUL;
+            elsif quote = NUL and isspace(ss(i)) then
                 next;
-            elsif char = ''' then
-                upcase := not upcase;
+            elsif quote = NUL and (ss(i) = ''' or ss(i) = '\') then
+                quote := ss(i);
             end if;
-            if upcase then
-                result(trimmed) := toupper(char);
+            if quote = NUL then
+                result(trimmed) := toupper(ss(i));
             else
-                result(trimmed) := char;
+                result(trimmed) := ss(i);
             end if;
             trimmed := trimmed + 1;
         end loop;
@@ -362,9 +362,9 @@ package body text_util is
             elsif ss(pos) = '+' then
                 pos := pos + 1;
             end if;
-            char := ss(pos);
-            while pos <= length and isdigit(char) loop
-                exp := exp * 10 + (character'pos(char) - ascii_zero);
+            while pos <= length loop
+                exit when not isdigit(ss(pos));
+                exp := exp * 10 + (character'pos(ss(pos)) - ascii_zero);
                 pos := pos + 1;
             end loop;
         end if;
@@ -376,16 +376,16 @@ package body text_util is
         end if;
 
         -- Generate a floating-point number that represents the exponent
-        if exp < 0 then
-            exp_sign := true;
-            exp := -exp;
-        else
-            exp_sign := false;
-        end if;
+        exp_sign := exp < 0;
+        exp := abs exp;
 
         assert exp <= max_exponent
             report "exponent too large: " & s severity failure;
 
+        while exp_sign and exp > 300 loop  -- Avoid overflow in the divisor
+            fraction := fraction / 10.0;
+            exp := exp - 1;
+        end loop;
         dbl_exp := 1.0;
         for d in powers_of_10'range loop
             exit when exp = 0;
-- 
2.43.0


From 294aa3ee2211fb8efd7733dea44c924e03d13001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:01 +0000
Subject: [PATCH 43/60] fix: textio read of integers, reals, times and empty
 strings

---
 lib/std/textio-body.vhd | 94 +++++++++++++++++++++++++++++++----------
 1 file changed, 71 insertions(+), 23 deletions(-)

diff --git a/lib/std/textio-body.vhd b/lib/std/textio-body.vhd
index ab9e6d6..9d0ed00 100644
--- a/lib/std/textio-body.vhd
+++ b/lib/std/textio-body.vhd
@@ -19,7 +19,7 @@ use nvc.polyfill.all;
 
 package body textio is
 
-    function get_slice (str : in string; ifrom, ito : positive) return string is
+    function get_slice (str : in string; ifrom : positive; ito : natural) return string is
         alias astr : string(1 to str'length) is str;
     begin
         return astr(ifrom to ito);
@@ -115,12 +115,14 @@ package body textio is
     end function;
 
     function strcasecmp (x, y : string) return boolean is
+        alias ax : string(1 to x'length) is x;
+        alias ay : string(1 to y'length) is y;
     begin
         if x'length /= y'length then
             return false;
         else
             for i in 1 to x'length loop
-                if tolower(x(i)) /= tolower(y(i)) then
+                if tolower(ax(i)) /= tolower(ay(i)) then
                     return false;
                 end if;
             end loop;
@@ -282,8 +284,8 @@ package body textio is
             pos := pos + 1;
         end loop;
 
-        if is_negative and pos = 2 then
-          -- Single dash without trailing digit is not good
+        if pos = 2 and (get_char(l.all, 1) = '-' or get_char(l.all, 1) = '+') then
+          -- Single sign without trailing digit is not good
           pos := 1;
         end if;
 
@@ -304,28 +306,35 @@ package body textio is
     procedure read (l     : inout line;
                     value : out real;
                     good  : out boolean ) is
-        variable whole    : integer;
         variable exponent : integer;
-        variable result   : real;
+        variable result   : real := 0.0;
         variable digit    : integer;
         variable shift    : integer := 1;
-        variable pos      : integer := 2;
+        variable pos      : integer := 1;
         variable sign     : character;
         variable rgood    : boolean;
         variable peek     : character;
     begin
+        good := false;
         skip_whitespace(l);
-        peek := get_char(l.all, 1);
-        if l.all'length > 0 and (peek = '-' or peek = '+') then
+        if l.all'length > 0 then
             sign := get_char(l.all, 1);
-            consume(l, 1);
+            if sign = '-' or sign = '+' then
+                consume(l, 1);
+            end if;
         end if;
-        read(l, whole, rgood);
-        if not rgood then
-            good := false;
+        while pos <= l.all'length loop
+            peek := get_char(l.all, pos);
+            exit when peek < '0' or peek > '9';
+            digit := character'pos(peek) - character'pos('0');
+            result := (result * 10.0) + real(digit);
+            pos := pos + 1;
+        end loop;
+        if pos = 1 then
             return;
         end if;
-        result := real(whole);
+        consume(l, pos - 1);
+        pos := 2;
         good := true;
         if l.all'length > 0 and get_char(l.all, 1) = '.' then
             while pos <= l.all'length loop
@@ -410,24 +419,63 @@ package body textio is
             ( "min", 3, min ),
             ( "hr ", 2, hr ) );
 
-        variable scale, len : integer;
-        variable scale_good : boolean;
+        variable len           : integer;
+        variable first, pos    : positive := 1;
+        variable point, last   : natural := 0;
+        variable result, scale : time;
+        variable peek          : character;
     begin
         good := false;
         skip_whitespace(l);
-        read(l, scale, scale_good);
-        if not scale_good then
+        if l = null or l'length = 0 then
             return;
         end if;
-        skip_whitespace(l);
+        if get_char(l.all, 1) = '-' or get_char(l.all, 1) = '+' then
+            first := 2;
+        end if;
+        pos := first;
+        while pos <= l'length loop
+            peek := get_char(l.all, pos);
+            if peek = '.' and point = 0 and pos > first then
+                point := pos;
+            else
+                exit when peek < '0' or peek > '9';
+            end if;
+            last := pos;
+            pos := pos + 1;
+        end loop;
+        if last < first or last = point then
+            return;             -- No digits
+        end if;
+        while pos <= l'length and is_whitespace(get_char(l.all, pos)) loop
+            pos := pos + 1;
+        end loop;
         for i in unit_map'range loop
             len := unit_map(i).length;
-            if l'length >= len
-                and strcasecmp(get_slice(l.all, 1, len), unit_map(i).name(1 to len))
+            if l'length >= pos + len - 1
+                and strcasecmp(get_slice(l.all, pos, pos + len - 1),
+                               unit_map(i).name(1 to len))
             then
-                value := scale * unit_map(i).unit;
-                consume(l, len);
+                scale := unit_map(i).unit;
+                for j in first to last loop
+                    next when j = point;
+                    if point /= 0 and j > point then
+                        scale := scale / 10;
+                    else
+                        result := result * 10;
+                    end if;
+                    -- Subtract as the range of type TIME may be asymmetric
+                    result := result - (character'pos(get_char(l.all, j))
+                                        - character'pos('0')) * scale;
+                end loop;
+                if get_char(l.all, 1) = '-' then
+                    value := result;
+                else
+                    value := -result;
+                end if;
+                consume(l, pos + len - 1);
                 good := true;
+                exit;
             end if;
         end loop;
     end procedure;
-- 
2.43.0


From cd163cdcbb09279b4193c8f4e3df60e13990b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:01 +0000
Subject: [PATCH 44/60] fix: to_string of large reals overflowed a buffer

---
 src/rt/standard.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/rt/standard.c b/src/rt/standard.c
index 0ff6071..69a894c 100644
--- a/src/rt/standard.c
+++ b/src/rt/standard.c
@@ -101,11 +101,11 @@ void _std_to_string_real_digits(jit_scalar_t *args, tlab_t *tlab)
    double value = args[1].real;
    int32_t digits = args[2].integer;
 
-   char buf[32];
+   char *buf LOCAL = NULL;
    if (digits == 0)
-      checked_sprintf(buf, sizeof(buf), "%.17g", value);
+      buf = xasprintf("%.17g", value);
    else
-      checked_sprintf(buf, sizeof(buf), "%.*f", digits, value);
+      buf = xasprintf("%.*f", digits, value);
 
    ffi_return_string(buf, args, tlab);
 }
@@ -130,7 +130,7 @@ void _std_to_string_real_format(jit_scalar_t *args, tlab_t *tlab)
          continue;
       case '0'...'9':
          continue;
-      case '.': case '-':
+      case '.': case '-': case '+': case ' ': case '#':
          continue;
       default:
          jit_msg(NULL, DIAG_FATAL, "illegal character '%c' in format \"%s\"",
@@ -138,8 +138,7 @@ void _std_to_string_real_format(jit_scalar_t *args, tlab_t *tlab)
       }
    }
 
-   char buf[64];
-   checked_sprintf(buf, sizeof(buf), fmt_cstr, value);
+   char *buf LOCAL = xasprintf(fmt_cstr, value);
 
    ffi_return_string(buf, args, tlab);
 }
-- 
2.43.0


From 63dbba81371d2575a0844931e6a32d1de9c7097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:01 +0000
Subject: [PATCH 45/60] fix: to_string of character and 'image of extended
 identifiers

---
 src/lower.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index f1a96bc..0e7148b 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -8480,7 +8480,7 @@ static void lower_enum_image_helper(type_t type, vcode_reg_t preg)
       // LRM specifies result is lowercase for enumerated types when
       // the value is a basic identifier
       ident_t id = tree_ident(type_enum_literal(type, i));
-      if (ident_char(id, 0) != '\'')
+      if (ident_char(id, 0) != '\'' && ident_char(id, 0) != '\\')
          id = ident_downcase(id);
 
       vcode_select_block(blocks[i]);
@@ -10547,8 +10547,24 @@ static void lower_predef_to_string(lower_unit_t *lu, tree_t decl)
 
    assert(type_is_representable(arg_type));
 
-   ident_t func = ident_prefix(type_ident(arg_type), ident_new("image"), '$');
    vcode_type_t ctype = vtype_char();
+
+   if (type_ident(arg_type) == well_known(W_STD_CHAR)) {
+      // The string contains one element that is the given value even if
+      // this is not a graphic character
+      vcode_reg_t one_reg = emit_const(vtype_offset(), 1);
+      vcode_reg_t dir_reg = emit_const(vtype_bool(), RANGE_TO);
+      vcode_reg_t mem_reg = emit_alloc(ctype, ctype, one_reg);
+      emit_store_indirect(r0, mem_reg);
+
+      vcode_dim_t dims[] = {
+         { .left = one_reg, .right = one_reg, .dir = dir_reg }
+      };
+      emit_return(emit_wrap(mem_reg, dims, 1));
+      return;
+   }
+
+   ident_t func = ident_prefix(type_ident(arg_type), ident_new("image"), '$');
    vcode_type_t rtype = vtype_uarray(1, ctype, ctype);
    vcode_reg_t args[] = { context_reg, r0 };
    vcode_reg_t str_reg = emit_fcall(func, rtype, ctype, args, 2);
-- 
2.43.0


From 00a7334164a27b49d984bced192b0423ee930aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:01 +0000
Subject: [PATCH 46/60] fix: 'path_name dropped negative generate index

---
 src/common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index 1e5df95..b1fe091 100644
--- a/src/common.c
+++ b/src/common.c
@@ -2671,7 +2671,8 @@ void instance_name_to_path(text_buf_t *tb, const char *str)
 {
    bool delete = false;
    for (const char *p = str; *p; p++) {
-      if (*p == '@' || (*p == '(' && !isdigit_iso88591(*(p + 1))))
+      if (*p == '@' || (*p == '(' && *(p + 1) != '-'
+                        && !isdigit_iso88591(*(p + 1))))
          delete = true;
       else if (*p == ')' && delete)
          delete = false;
-- 
2.43.0


From 997efbb2b2ed7c3592342ecdb7be1be451ee70f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:01 +0000
Subject: [PATCH 47/60] fix: instance name of if-generate used the identifier's
 memory

---
 src/elab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elab.c b/src/elab.c
index 577cee6..3cc76b3 100644
--- a/src/elab.c
+++ b/src/elab.c
@@ -1881,7 +1881,7 @@ static void elab_if_generate(tree_t t, const elab_ctx_t *ctx)
          tree_add_stmt(ctx->out, b);
 
          ident_t name = tree_ident(cond);
-         ident_t ninst = hpathf(ctx->inst_name, ':', "%s", name);
+         ident_t ninst = hpathf(ctx->inst_name, ':', "%s", istr(name));
          ident_t ndotted = ident_prefix(ctx->dotted, name, '.');
 
          elab_ctx_t new_ctx = {
-- 
2.43.0


From 3bfbec3415192648bb3fc01bdd677546ccb4063c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:01 +0000
Subject: [PATCH 48/60] fix: exit status when the run ends in the last allowed
 delta cycle

---
 src/rt/model.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 902d49a..1ca0a36 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -110,6 +110,7 @@ typedef struct _rt_model {
    bool               can_create_delta;
    bool               next_is_delta;
    bool               force_stop;
+   bool               delta_limit;
    unsigned           n_signals;
    heap_t            *eventq_heap;
    ihash_t           *res_memo;
@@ -3385,6 +3386,7 @@ static void reached_iteration_limit(rt_model_t *m)
    diag_hint(d, NULL, "you can increase this limit with $bold$--stop-delta$$");
    diag_emit(d);
 
+   m->delta_limit = true;
    m->force_stop = true;
 }
 
@@ -3842,7 +3844,7 @@ int model_exit_status(rt_model_t *m)
    int status;
    if (jit_exit_status(m->jit, &status))
       return status;
-   else if (m->stop_delta > 0 && m->iteration == m->stop_delta)
+   else if (m->delta_limit)
       return EXIT_FAILURE;
    else
       return get_vhdl_assert_exit_status();
-- 
2.43.0


From 98ef9670e42b03e154000fc2de8c44a53a8ddf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:06 +0000
Subject: [PATCH 49/60] fix: order of dependencies in elaborated design
 depended on addresses

---
 src/object.c | 23 +++++++++++------------
 src/object.h |  1 +
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/object.c b/src/object.c
index fce9a24..b1e203f 100644
--- a/src/object.c
+++ b/src/object.c
@@ -1091,6 +1091,7 @@ static bool object_copy_mark(object_t *object, object_copy_ctx_t *ctx)
    if (marked) {
       copy = object_new(global_arena, class, object->kind);
       hash_put(ctx->copy_map, object, copy);
+      APUSH(ctx->copied, object);
    }
 
    const imask_t has = class->has_map[object->kind];
@@ -1116,6 +1117,7 @@ static bool object_copy_mark(object_t *object, object_copy_ctx_t *ctx)
    if (marked && copy == NULL) {
       copy = object_new(global_arena, class, object->kind);
       hash_put(ctx->copy_map, object, copy);
+      APUSH(ctx->copied, object);
    }
 
    return marked;
@@ -1159,14 +1161,11 @@ void object_copy(object_copy_ctx_t *ctx)
    for (int i = 0; i < ctx->nroots; i++)
       (void)object_copy_mark(ctx->roots[i], ctx);
 
-   unsigned ncopied = 0;
-   const void *key;
-   void *value;
-   for (hash_iter_t it = HASH_BEGIN;
-        hash_iter(ctx->copy_map, &it, &key, &value); ) {
-      const object_t *object = key;
-      object_t *copy = value;
-      ncopied++;
+   // Do not iterate over the hash table here: its order depends on the
+   // addresses of the objects
+   for (unsigned i = 0; i < ctx->copied.count; i++) {
+      const object_t *object = ctx->copied.items[i];
+      object_t *copy = hash_get(ctx->copy_map, object);
 
       copy->loc = object->loc;
 
@@ -1213,15 +1212,14 @@ void object_copy(object_copy_ctx_t *ctx)
       }
    }
 
-   for (hash_iter_t it = HASH_BEGIN;
-        hash_iter(ctx->copy_map, &it, &key, &value); ) {
-      object_t *copy = value;
+   for (unsigned i = 0; i < ctx->copied.count; i++) {
+      object_t *copy = hash_get(ctx->copy_map, ctx->copied.items[i]);
       if (ctx->callback[copy->tag] != NULL)
          (*ctx->callback[copy->tag])(copy, ctx->callback_context);
    }
 
    if (opt_get_verbose(OPT_OBJECT_VERBOSE, NULL))
-      debugf("copied %d objects into arena %s", ncopied,
+      debugf("copied %d objects into arena %s", ctx->copied.count,
              istr(object_arena_name(global_arena)));
 
    for (unsigned i = 0; i < ctx->nroots; i++) {
@@ -1231,6 +1229,7 @@ void object_copy(object_copy_ctx_t *ctx)
    }
 
    hash_free(ctx->copy_map);
+   ACLEAR(ctx->copied);
 }
 
 size_t object_arena_default_size(void)
diff --git a/src/object.h b/src/object.h
index bde3279..4bb9994 100644
--- a/src/object.h
+++ b/src/object.h
@@ -176,6 +176,7 @@ typedef struct {
    void              *pred_context;
    void              *callback_context;
    hash_t            *copy_map;
+   A(object_t *)      copied;      // In the order they were allocated
    unsigned           nroots;
    object_t          *roots[0];
 } object_copy_ctx_t;
-- 
2.43.0


From ad8c687f639a73857888650cb2b652d90c4476e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:06 +0000
Subject: [PATCH 50/60] fix: uninitialised constant pool padding written to JIT
 pack

---
 src/jit/jit-irgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jit/jit-irgen.c b/src/jit/jit-irgen.c
index f3eb98a..e3a94e3 100644
--- a/src/jit/jit-irgen.c
+++ b/src/jit/jit-irgen.c
@@ -995,9 +995,11 @@ static jit_value_t irgen_get_context(jit_irgen_t *g)
 static size_t irgen_append_cpool(jit_irgen_t *g, size_t sz, int align)
 {
    if (g->cpoolptr + sz + align - 1 > g->func->cpoolsz) {
+      const size_t oldsz = g->func->cpoolsz;
       g->func->cpoolsz = MAX(128, MAX((g->func->cpoolsz * 3) / 2,
                                       g->cpoolptr + sz + align - 1));
       g->func->cpool = xrealloc(g->func->cpool, g->func->cpoolsz);
+      memset(g->func->cpool + oldsz, 0, g->func->cpoolsz - oldsz);
       g->func->owns_cpool = true;
    }
 
-- 
2.43.0


From 904f71b2e34d88ea9e74a6da5765efab6d470f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:06 +0000
Subject: [PATCH 51/60] fix: dangling pointer for functions with six arguments
 written to JIT pack

---
 src/jit/jit-ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jit/jit-ffi.c b/src/jit/jit-ffi.c
index 0848b2c..f520cff 100644
--- a/src/jit/jit-ffi.c
+++ b/src/jit/jit-ffi.c
@@ -233,7 +233,7 @@ ffi_spec_t ffi_spec_new(const ffi_type_t *types, size_t count)
 #endif
 
    ffi_spec_t spec = {};
-   if (count < 7) {
+   if (count <= ARRAY_LEN(spec.embed)) {
       memcpy(spec.embed, types, count);
       spec.count = count;
    }
-- 
2.43.0


From 2ccdbee5279b72620508f2cfa079104fcf54751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:35 +0000
Subject: [PATCH 52/60] fix: access value read before deallocate was reused
 after it

---
 src/vcode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vcode.c b/src/vcode.c
index 5187203..6e90dbf 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -3809,7 +3809,8 @@ vcode_reg_t emit_load_indirect(vcode_reg_t reg)
                || other->kind == VCODE_OP_STORE_INDIRECT
                || other->kind == VCODE_OP_MEMSET
                || other->kind == VCODE_OP_COPY
-               || other->kind == VCODE_OP_FILE_READ)
+               || other->kind == VCODE_OP_FILE_READ
+               || other->kind == VCODE_OP_DEALLOCATE)
          break;   // May write to this pointer
    }
 
-- 
2.43.0


From 40fc6c3cea84d8c996c8194d46c81e61699e6fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:16 +0000
Subject: [PATCH 53/60] fix: stale pointers in unused heap space kept garbage
 alive

---
 src/rt/mspace.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rt/mspace.c b/src/rt/mspace.c
index b987836..c7c29a6 100644
--- a/src/rt/mspace.c
+++ b/src/rt/mspace.c
@@ -193,7 +193,11 @@ static void *mspace_try_alloc(mspace_t *m, size_t size)
          assert(base >= m->space);
          assert(base < m->space + m->maxsize);
 
-         ASAN_UNPOISON(base, size);
+         // Clear the unused space at the end of the last line as a stale
+         // pointer there would keep an unreachable object alive
+         ASAN_UNPOISON(base, asize);
+         memset(base + size, '\0', asize - size);
+         ASAN_POISON(base + size, asize - size);
 
          const ptrdiff_t line = (base - m->space) / LINE_SIZE;
          mask_set(&(m->headmask), line);
-- 
2.43.0


From 4cde804976d261e35798f05376c306fb6097aa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:27 +0000
Subject: [PATCH 54/60] fix: coverage merge read past the items of a smaller
 scope

---
 src/cov/cov-data.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/cov/cov-data.c b/src/cov/cov-data.c
index fb90dd2..2bd208c 100644
--- a/src/cov/cov-data.c
+++ b/src/cov/cov-data.c
@@ -1156,14 +1156,17 @@ static void cover_merge_scope(cover_scope_t *old_s, cover_scope_t *new_s)
    int n_added = 0;
    for (int i = 0; i < new_s->items.count; i++) {
       cover_item_t *new = AREF(new_s->items, i);
-      cover_item_t *old = AREF(old_s->items, i - n_added);
+      int pos = i - n_added;
 
       bool found = false;
-      int n_old_visits = 0;
 
-      do {
-         if (n_old_visits == old_s->items.count)
-            break;
+      for (int n_old_visits = 0; n_old_visits < old_s->items.count;
+           n_old_visits++, pos++) {
+         // Old scope may have fewer items than new scope
+         if (pos >= old_s->items.count)
+            pos = 0;
+
+         cover_item_t *old = AREF(old_s->items, pos);
 
          if ((new->hier == old->hier) && (new->flags == old->flags)) {
             assert(new->kind == old->kind);
@@ -1174,14 +1177,7 @@ static void cover_merge_scope(cover_scope_t *old_s, cover_scope_t *new_s)
             found = true;
             break;
          }
-
-         if (old == AREF(old_s->items, old_s->items.count - 1))
-            old = AREF(old_s->items, 0);
-         else
-            old++;
-
-         n_old_visits++;
-      } while (true);
+      }
 
       if (!found) {
          APUSH(old_s->items, *new);
-- 
2.43.0


From d5fbcdef6849886a14df100918cc45f739e09b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 55/60] fix: crash lowering expression coverage for inertial
 port map actual

---
 src/lower.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index 0e7148b..fc90781 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -11886,6 +11886,9 @@ static void lower_inertial_actual_process(lower_unit_t *lu, object_t *obj)
    tree_t target = tree_target(inertial);
    type_t type = tree_type(target);
 
+   // Expressions in the actual belong to the scope of the instance
+   lu->cscope = lu->parent->cscope;
+
    // Block number one must be the non-reset entry point
    vcode_block_t main_bb = emit_block();
    assert(main_bb == 1);
-- 
2.43.0


From f3ff2f86dcd386023269a4a0e3b6701281b115ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:34 +0000
Subject: [PATCH 56/60] fix: interrupted save destroyed the previous version of
 a library unit

---
 src/lib.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/lib.c b/src/lib.c
index c102fef..3c6c8d3 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -1060,12 +1060,40 @@ ident_t lib_name(lib_t lib)
    return lib->name;
 }
 
+static fbuf_t *lib_begin_update(lib_t lib, const char *name, fbuf_cs_t csum)
+{
+   // Write to a temporary file first so an interruption or failed write
+   // never destroys the previous contents: must hold write lock
+   LOCAL_TEXT_BUF tb = tb_new();
+   tb_printf(tb, "%s.new", name);
+
+   return lib_fbuf_open(lib, tb_get(tb), FBUF_OUT, csum);
+}
+
+static void lib_finish_update(lib_t lib, const char *name, fbuf_t *f,
+                              uint32_t *checksum)
+{
+   fbuf_close(f, checksum);
+
+   LOCAL_TEXT_BUF path = lib_file_path(lib, name);
+   LOCAL_TEXT_BUF tmp = tb_new();
+   tb_printf(tmp, "%s.new", tb_get(path));
+
+#ifdef __MINGW32__
+   if (remove(tb_get(path)) != 0 && errno != ENOENT)
+      fatal_errno("remove: %s", tb_get(path));
+#endif
+
+   if (rename(tb_get(tmp), tb_get(path)) != 0)
+      fatal_errno("rename: %s", tb_get(tmp));
+}
+
 static void lib_save_unit(lib_t lib, lib_unit_t *unit)
 {
    LOCAL_TEXT_BUF tb = tb_new();
    lib_encode_file_name(unit->name, tb);
 
-   fbuf_t *f = lib_fbuf_open(lib, tb_get(tb), FBUF_OUT, FBUF_CS_ADLER32);
+   fbuf_t *f = lib_begin_update(lib, tb_get(tb), FBUF_CS_ADLER32);
    if (f == NULL)
       fatal("failed to create %s in library %s", tb_get(tb), istr(lib->name));
 
@@ -1092,7 +1120,7 @@ static void lib_save_unit(lib_t lib, lib_unit_t *unit)
    ident_write_end(ident_ctx);
 
    uint32_t checksum;
-   fbuf_close(f, &checksum);
+   lib_finish_update(lib, tb_get(tb), f, &checksum);
 
    arena_set_checksum(arena, checksum);
 
@@ -1135,7 +1163,7 @@ void lib_save(lib_t lib)
 
    int index_sz = lib_index_size(lib);
 
-   fbuf_t *f = lib_fbuf_open(lib, "_index", FBUF_OUT, FBUF_CS_NONE);
+   fbuf_t *f = lib_begin_update(lib, "_index", FBUF_CS_NONE);
    if (f == NULL)
       fatal_errno("failed to create library %s index", istr(lib->name));
 
@@ -1150,7 +1178,7 @@ void lib_save(lib_t lib)
    }
 
    ident_write_end(ictx);
-   fbuf_close(f, NULL);
+   lib_finish_update(lib, "_index", f, NULL);
 
    if (!get_file_info(tb_get(index_path), &info))
       fatal_errno("%s", tb_get(index_path));
-- 
2.43.0


From c1fadd1743aba23b26a061cb82c8d73d7d9b84cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:34 +0000
Subject: [PATCH 57/60] fix: failure to write the end of a library file was not
 noticed

---
 src/cgen.c |  4 +++-
 src/fbuf.c | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cgen.c b/src/cgen.c
index a203334..e956da8 100644
--- a/src/cgen.c
+++ b/src/cgen.c
@@ -371,7 +371,9 @@ static void cgen_jit_pack(ident_t name, jit_t *jit, unit_list_t *units)
       fatal_errno("fopen: %s", fname);
 
    jit_write_pack(jit, units->items, units->count, f);
-   fclose(f);
+
+   if (fclose(f) != 0)
+      fatal_errno("fclose: %s", fname);
 
    progress("writing JIT pack");
 }
diff --git a/src/fbuf.c b/src/fbuf.c
index c4cbeee..1f9b190 100644
--- a/src/fbuf.c
+++ b/src/fbuf.c
@@ -22,6 +22,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <errno.h>
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <fcntl.h>
@@ -564,8 +565,6 @@ void fbuf_close(fbuf_t *f, uint32_t *checksum)
       free(f->wbuf);
    }
 
-   fclose(f->file);
-
    if (f->prev == NULL) {
       assert(f == open_list);
       if (f->next != NULL)
@@ -578,6 +577,13 @@ void fbuf_close(fbuf_t *f, uint32_t *checksum)
          f->next->prev = f->prev;
    }
 
+   if (fclose(f->file) != 0 && f->mode == FBUF_OUT) {
+      const int err = errno;
+      remove(f->fname);
+      errno = err;
+      fatal_errno("%s: fclose", f->fname);
+   }
+
    if (checksum != NULL)
       *checksum = checksum_finish(&(f->checksum));
 
-- 
2.43.0


From 084eb3a286420ace5f48ec9cd5d758d7a7e3cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:34 +0000
Subject: [PATCH 58/60] fix: crash in FILE_SIZE and FILE_CANSEEK of a closed
 file

---
 src/rt/fileio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt/fileio.c b/src/rt/fileio.c
index e039f5f..5adf9c8 100644
--- a/src/rt/fileio.c
+++ b/src/rt/fileio.c
@@ -368,7 +368,7 @@ void __nvc_file_size(jit_scalar_t *args)
    file_handle_t *handle = args[1].pointer;
 
    file_slot_t *slot = decode_handle(*handle);
-   if (slot->file == NULL)
+   if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FILE_SIZE called on closed file");
 
    fflush(slot->file);
@@ -386,7 +386,7 @@ void __nvc_file_canseek(jit_scalar_t *args)
    file_handle_t *handle = args[1].pointer;
 
    file_slot_t *slot = decode_handle(*handle);
-   if (slot->file == NULL)
+   if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FILE_CANSEEK called on closed file");
 
    args[0].integer = fseek(slot->file, 0, SEEK_CUR) == 0;
-- 
2.43.0


From 25f66308314be5427aec552435466f983ab0411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:34 +0000
Subject: [PATCH 59/60] fix: PSL cover and never missed matches that extend a
 match

---
 src/psl/psl-lower.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/psl/psl-lower.c b/src/psl/psl-lower.c
index 74339c1..4b9bebc 100644
--- a/src/psl/psl-lower.c
+++ b/src/psl/psl-lower.c
@@ -162,6 +162,10 @@ static void psl_lower_state(lower_unit_t *lu, psl_fsm_t *fsm,
    vcode_reg_t vtrue = emit_const(vbool, 1);
 
    if (state->accept) {
+      // A longer match of a sequence is reported as well
+      const bool more = state->edges != NULL
+         && (fsm->kind == FSM_COVER || fsm->kind == FSM_NEVER);
+
       vcode_block_t cont_bb = vcode_active_block();
       if (state->guard != NULL) {
          vcode_block_t accept_bb = emit_block();
@@ -184,12 +188,15 @@ static void psl_lower_state(lower_unit_t *lu, psl_fsm_t *fsm,
                      VCODE_INVALID_REG);
       }
 
-      emit_return(VCODE_INVALID_REG);
+      if (!more)
+         emit_return(VCODE_INVALID_REG);
+      else if (state->guard != NULL)
+         emit_jump(cont_bb);
 
-      if (state->guard == NULL)
-         return;
-      else
+      if (state->guard != NULL)
          vcode_select_block(cont_bb);
+      else if (!more)
+         return;
    }
 
    vcode_reg_t taken_reg = vfalse;
-- 
2.43.0


From 3f629faed4fe4f9676256de1f6ab19de125ae529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:34 +0000
Subject: [PATCH 60/60] fix: PSL until and before failed late or not at all

---
 src/psl/psl-fsm.c | 56 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/psl/psl-fsm.c b/src/psl/psl-fsm.c
index 69539bb..1892139 100644
--- a/src/psl/psl-fsm.c
+++ b/src/psl/psl-fsm.c
@@ -68,7 +68,7 @@ static bool same_guard(psl_guard_t g1, psl_guard_t g2)
       return false;
 
    const guard_binop_t *bop1 = psl_guard_binop(g1);
-   const guard_binop_t *bop2 = psl_guard_binop(g1);
+   const guard_binop_t *bop2 = psl_guard_binop(g2);
 
    if (bop1->kind != bop2->kind)
       return false;
@@ -136,12 +136,29 @@ static inline psl_guard_t and_guard(psl_fsm_t *fsm, psl_guard_t left,
    return make_binop_guard(fsm, BINOP_AND, left, right);
 }
 
-static psl_guard_t not_guard(psl_guard_t g)
+static psl_guard_t not_guard(psl_fsm_t *fsm, psl_guard_t g)
 {
-   assert(psl_guard_kind(g) == GUARD_EXPR);
+   if (g == NULL)
+      return tag_pointer(NULL, GUARD_FALSE);
 
-   psl_node_t p = psl_guard_expr(g);
-   return tag_pointer(p, p == NULL ? GUARD_FALSE : GUARD_NOT);
+   switch (psl_guard_kind(g)) {
+   case GUARD_EXPR:
+      return tag_pointer(psl_guard_expr(g), GUARD_NOT);
+   case GUARD_NOT:
+      return tag_pointer(psl_guard_expr(g), GUARD_EXPR);
+   case GUARD_FALSE:
+      return NULL;
+   case GUARD_BINOP:
+      {
+         const guard_binop_t *bop = psl_guard_binop(g);
+         return make_binop_guard(fsm,
+                                 bop->kind == BINOP_AND ? BINOP_OR : BINOP_AND,
+                                 not_guard(fsm, bop->left),
+                                 not_guard(fsm, bop->right));
+      }
+   default:
+      should_not_reach_here();
+   }
 }
 
 static psl_guard_t build_else_guard(psl_fsm_t *fsm, fsm_state_t *state)
@@ -149,7 +166,7 @@ static psl_guard_t build_else_guard(psl_fsm_t *fsm, fsm_state_t *state)
    psl_guard_t g = NULL;
 
    for (fsm_edge_t *e = state->edges; e; e = e->next)
-      g = and_guard(fsm, g, not_guard(e->guard));
+      g = and_guard(fsm, g, not_guard(fsm, e->guard));
 
    return g;
 }
@@ -322,14 +339,17 @@ static fsm_state_t *build_until(psl_fsm_t *fsm, fsm_state_t *state,
 
       fsm_state_t *new = add_state(fsm, p);
       add_edge(fsm, test, new, EDGE_NEXT, rhs);
-      add_edge(fsm, test, state, EDGE_NEXT, NULL);
+      add_edge(fsm, test, state, EDGE_NEXT, not_guard(fsm, rhs));
 
       return new;
    }
    else {
+      // The left operand is not required to hold once the right operand
+      // does
       fsm_state_t *new = add_state(fsm, p);
       add_edge(fsm, state, new, EDGE_NEXT, rhs);
-      add_edge(fsm, state, state, EDGE_NEXT, lhs);
+      add_edge(fsm, state, state, EDGE_NEXT,
+               and_guard(fsm, lhs, not_guard(fsm, rhs)));
 
       return new;
    }
@@ -551,21 +571,21 @@ static fsm_state_t *build_eventually(psl_fsm_t *fsm, fsm_state_t *state,
 static fsm_state_t *build_before(psl_fsm_t *fsm, fsm_state_t *state,
                                  psl_node_t p)
 {
+   psl_node_t lhs = psl_operand(p, 0);
+   psl_node_t rhs = psl_operand(p, 1);
+
    fsm_state_t *accept = add_state(fsm, p);
-   fsm_state_t *fail = add_state(fsm, p);
 
    state->strong = !!(psl_flags(p) & PSL_F_STRONG);
 
-   if (psl_flags(p) & PSL_F_INCLUSIVE) {
-      add_edge(fsm, state, accept, EDGE_EPSILON, psl_operand(p, 0));
-      add_edge(fsm, state, fail, EDGE_EPSILON, psl_operand(p, 1));
-   }
-   else {
-      add_edge(fsm, state, fail, EDGE_EPSILON, psl_operand(p, 1));
-      add_edge(fsm, state, accept, EDGE_EPSILON, psl_operand(p, 0));
-   }
+   psl_guard_t done = lhs;
+   if (!(psl_flags(p) & PSL_F_INCLUSIVE))
+      done = and_guard(fsm, lhs, not_guard(fsm, rhs));
 
-   add_edge(fsm, state, state, EDGE_NEXT, NULL);
+   // Fails if the right operand holds first
+   add_edge(fsm, state, accept, EDGE_EPSILON, done);
+   add_edge(fsm, state, state, EDGE_NEXT,
+            and_guard(fsm, not_guard(fsm, lhs), not_guard(fsm, rhs)));
 
    return accept;
 }
-- 
2.43.0

