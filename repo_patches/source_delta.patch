From c501cbe07c87817084abfeef5f140322bae8b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:36 +0000
Subject: [PATCH 01/42] fix: long double to short and unsigned conversions

The x87 sequences loaded the stored integer with the wrong extension for
short and unsigned short, and used a signed 32-bit store for unsigned.
---
 codegen.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index 9748ec2..e31ebbb 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1068,10 +1068,10 @@ static char f64f80[] = "sub $8, %rsp; movsd %xmm0, (%rsp); fldl (%rsp); add $8,
 
 static char f80i8[] = FROM_F80_1 "fistps" FROM_F80_2 "movsbl (%rsp), %eax" FROM_F80_3;
 static char f80u8[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl (%rsp), %eax" FROM_F80_3;
-static char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl (%rsp), %eax" FROM_F80_3;
-static char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movswl (%rsp), %eax" FROM_F80_3;
+static char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movswl (%rsp), %eax" FROM_F80_3;
+static char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movzwl (%rsp), %eax" FROM_F80_3;
 static char f80i32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
-static char f80u32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
+static char f80u32[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
 static char f80i64[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov (%rsp), %rax" FROM_F80_3;
 static char f80u64[] =
   "sub $16, %rsp; movl $0x5f000000, 12(%rsp); flds 12(%rsp); fucomi %st(1), %st; setbe %al;"
-- 
2.43.0


From 243c235671f8ef76b57993e0ee668ac277a42f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:31 +0000
Subject: [PATCH 02/42] fix: do not read beyond small structs passed or
 returned in registers

Structs whose size is not a multiple of 8 were loaded with wider accesses than
the object, which faults when the object ends at an unmapped page.
---
 codegen.c | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/codegen.c b/codegen.c
index e31ebbb..0f35b5d 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1223,6 +1223,25 @@ static int calling_convention(Obj *var, int *gp_count, int *fp_count, int *stack
   return stack;
 }
 
+// Load `sz` (up to 8) bytes into a register, without reading beyond them.
+static void load_chunk(char **reg, int sz, int i, char *ofs, char *ptr) {
+  if (sz == 8) {
+    Printftn("mov %d+%s(%s), %s", i, ofs, ptr, reg[2]);
+    return;
+  }
+  if (sz == 4) {
+    Printftn("mov %d+%s(%s), %s", i, ofs, ptr, reg[1]);
+    return;
+  }
+  int pos = (sz - 1) & ~1;
+  Printftn("%s %d+%s(%s), %s", sz - pos == 1 ? "movzbl" : "movzwl", i + pos, ofs, ptr, reg[1]);
+  while (pos > 0) {
+    pos -= 2;
+    Printftn("shl $16, %s", reg[2]);
+    Printftn("movw %d+%s(%s), %s", i + pos, ofs, ptr, reg[0]);
+  }
+}
+
 static void copy_ret_buffer(Obj *var) {
   Type *ty = var->ty;
   int gp = 0, fp = 0;
@@ -1268,11 +1287,10 @@ static void copy_struct_reg(void) {
       Printstn("mov %%rax, %%rcx");
       sptr = "%rcx";
     }
-    int regsz = (chunk_sz > 4) ? 8 : (chunk_sz > 2) ? 4 : (chunk_sz > 1) ? 2 : 1;
     if (gp == 0)
-      Printftn("mov %d(%%rcx), %s", ofs, reg_ax(regsz));
+      load_chunk((char *[]){"%ax", "%eax", "%rax"}, chunk_sz, ofs, "0", "%rcx");
     else
-      Printftn("mov %d(%%rcx), %s", ofs, reg_dx(regsz));
+      load_chunk((char *[]){"%dx", "%edx", "%rdx"}, chunk_sz, ofs, "0", "%rcx");
     gp++;
   }
 }
@@ -1378,16 +1396,14 @@ static void place_reg_arg(Type *ty, char *ofs, char *ptr, int *gp, int *fp) {
   switch (ty->kind) {
   case TY_STRUCT:
   case TY_UNION:
-    if (has_flonum1(ty))
-      Printftn("movsd %s(%s), %%xmm%d", ofs, ptr, (*fp)++);
-    else
-      Printftn("mov %s(%s), %s",  ofs, ptr, argreg64[(*gp)++]);
-
-    if (ty->size > 8) {
-      if (has_flonum2(ty))
-        Printftn("movsd 8+%s(%s), %%xmm%d", ofs, ptr, (*fp)++);
-      else
-        Printftn("mov 8+%s(%s), %s",  ofs, ptr, argreg64[(*gp)++]);
+    for (int i = 0; i < ty->size; i += 8) {
+      int sz = MIN(8, ty->size - i);
+      if (i == 0 ? has_flonum1(ty) : has_flonum2(ty)) {
+        Printftn("%s %d+%s(%s), %%xmm%d", sz == 4 ? "movss" : "movsd", i, ofs, ptr, (*fp)++);
+      } else {
+        load_chunk((char *[]){argreg16[*gp], argreg32[*gp], argreg64[*gp]}, sz, i, ofs, ptr);
+        (*gp)++;
+      }
     }
     return;
   case TY_FLOAT:
-- 
2.43.0


From fe3eea7bca7c48134d58a4e4e5fc885c0377f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:05 +0000
Subject: [PATCH 03/42] fix: extend 8, 16 and 32-bit wide bit-fields of 64-bit
 type

Byte-aligned bit-fields of these widths are accessed as the narrower integer,
but the value was not extended to 64 bits, neither when read nor as the value
of an assignment.
---
 codegen.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 0f35b5d..85e668c 100644
--- a/codegen.c
+++ b/codegen.c
@@ -648,6 +648,8 @@ static void gen_bitfield_load(Node *node, int ofs) {
   Type *alt_ty = bitwidth_to_ty(mem->bit_width, mem->ty->is_unsigned);
   if (alt_ty && (mem->bit_offset == (mem->bit_offset / 8 * 8))) {
     load2(alt_ty, ofs + mem->bit_offset / 8, "%rax");
+    if (mem->ty->size == 8 && alt_ty->size < 8 && !alt_ty->is_unsigned)
+      Printstn("movslq %%eax, %%rax");
     return;
   }
   load2(mem->ty, ofs, "%rax");
@@ -667,8 +669,11 @@ static void gen_bitfield_store(Node *node, bool is_void) {
     char *reg = pop_inreg(tmpreg64[0]);
     store2(alt_ty, mem->bit_offset / 8, reg);
 
-    if (!is_void && alt_ty->size < 4)
+    if (!is_void && (alt_ty->size < 4 || alt_ty->size < mem->ty->size)) {
       cast_extend_int32(alt_ty, reg_ax(alt_ty->size), "%eax");
+      if (mem->ty->size == 8 && !alt_ty->is_unsigned)
+        Printstn("movslq %%eax, %%rax");
+    }
     return;
   }
 
-- 
2.43.0


From 5abb816f827cbd7d35b1b2a6f73e290eef04e3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:55 +0000
Subject: [PATCH 04/42] fix: keep the x87 stack balanced and the control word
 intact

Discarded long double values were left on the x87 register stack, so functions
were called and returned with occupied registers, and every load reset the FPU
state (rounding mode and exception flags included) with fninit.
Pop discarded values instead.
---
 codegen.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/codegen.c b/codegen.c
index 85e668c..cce0ca2 100644
--- a/codegen.c
+++ b/codegen.c
@@ -798,7 +798,7 @@ static void load3(Type *ty, char *sofs, char *sptr) {
     Printftn("movsd %s(%s), %%xmm0", sofs, sptr);
     return;
   case TY_LDOUBLE:
-    Printftn("fninit; fldt %s(%s)", sofs, sptr);
+    Printftn("fldt %s(%s)", sofs, sptr);
     return;
   }
   load_extend_int(ty, sofs, sptr, regop_ax(ty));
@@ -851,7 +851,6 @@ static void store3(Type *ty, char *dofs, char *dptr) {
     return;
   case TY_LDOUBLE:
     Printftn("fstpt %s(%s)", dofs, dptr);
-    Printftn("fninit; fldt %s(%s)", dofs, dptr);
     return;
   }
 
@@ -871,6 +870,8 @@ static void store(Node *node, bool is_void) {
   }
   char *reg = pop_inreg(tmpreg64[0]);
   store2(node->ty, 0, reg);
+  if (node->ty->kind == TY_LDOUBLE && !is_void)
+    Printftn("fldt (%s)", reg);
 }
 
 static void load_val2(Type *ty, int64_t val, char *gp32, char *gp64) {
@@ -930,21 +931,21 @@ static void load_fval(Type *ty, long double fval) {
 
   long double pos_z = +0.0L;
   if (!memcmp(&pos_z, &fval, 10)) {
-    Printstn("fninit; fldz");
+    Printstn("fldz");
     return;
   }
   long double neg_z = -0.0L;
   if (!memcmp(&neg_z, &fval, 10)) {
-    Printstn("fninit; fldz");
+    Printstn("fldz");
     Printstn("fchs");
     return;
   }
   if (fval == 1) {
-    Printstn("fninit; fld1");
+    Printstn("fld1");
     return;
   }
   if (fval == -1) {
-    Printstn("fninit; fld1");
+    Printstn("fld1");
     Printstn("fchs");
     return;
   }
@@ -955,7 +956,7 @@ static void load_fval(Type *ty, long double fval) {
   Printftn("movw $%"PRIu16", %%dx", (uint16_t)u.u64[1]);
   Printstn("push %%rdx");
   Printstn("push %%rax");
-  Printstn("fninit; fldt (%%rsp)");
+  Printstn("fldt (%%rsp)");
   Printstn("add $16, %%rsp");
   return;
 }
@@ -2402,6 +2403,10 @@ static void gen_void_expr(Node *node) {
     return;
   }
   gen_expr2(node, true);
+
+  // Leave nothing behind on the x87 stack.
+  if (node->ty->kind == TY_LDOUBLE)
+    Printstn("fstp %%st(0)");
 }
 
 static char *arith_ins(NodeKind kind) {
@@ -2913,7 +2918,8 @@ static bool gen_expr_opt(Node *node) {
     return true;
   }
 
-  if (kind == ND_ASSIGN && is_memop(lhs, var_ofs, &var_ptr, false)) {
+  if (kind == ND_ASSIGN && ty->kind != TY_LDOUBLE &&
+    is_memop(lhs, var_ofs, &var_ptr, false)) {
     gen_expr(rhs);
     store3(lhs->ty, var_ofs, var_ptr);
     return true;
-- 
2.43.0


From 0c009418f1beaa09c85545f2aad5cade83ffdd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:06 +0000
Subject: [PATCH 05/42] fix: classify small aggregates per the System V ABI

Aggregates with long double or misaligned members were passed and returned in
general-purpose registers, and chunks of pure padding occupied a register.
Such aggregates are passed in memory (a lone long double is returned in st0)
and padding chunks are not passed.
---
 codegen.c | 177 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 111 insertions(+), 66 deletions(-)

diff --git a/codegen.c b/codegen.c
index cce0ca2..23d80f7 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1122,59 +1122,85 @@ static void gen_cast(Node *node) {
 }
 
 // Structs or unions equal or smaller than 16 bytes are passed
-// using up to two registers.
+// using up to two registers, one per 8-byte chunk.
 //
-// If the first 8 bytes contains only floating-point type members,
-// they are passed in an XMM register. Otherwise, they are passed
-// in a general-purpose register.
+// If a chunk contains only floating-point type members, it is passed
+// in an XMM register. If it contains any other members, it is passed
+// in a general-purpose register. If it contains only padding, it is
+// not passed at all.
 //
-// If a struct/union is larger than 8 bytes, the same rule is
-// applied to the the next 8 byte chunk.
-//
-// This function returns true if `ty` has only floating-point
-// members in its byte range [lo, hi).
-static bool has_flonum(Type *ty, int lo, int hi, int offset) {
-  if (ty->kind == TY_STRUCT || ty->kind == TY_UNION) {
+// Objects that contain misaligned members or long double are passed
+// in memory, but a lone long double is returned in an x87 register.
+typedef enum { CL_NONE, CL_INT, CL_SSE, CL_X87, CL_MEM } ArgClass;
+
+static void merge_class(ArgClass *cls, ArgClass new_cls) {
+  if (*cls == CL_NONE)
+    *cls = new_cls;
+  else if (*cls == new_cls || *cls == CL_MEM || new_cls == CL_NONE)
+    return;
+  else if (new_cls == CL_MEM || (*cls != CL_INT && new_cls != CL_INT))
+    *cls = CL_MEM;
+  else
+    *cls = CL_INT;
+}
+
+static void classify2(Type *ty, int ofs, ArgClass *cls) {
+  switch (ty->kind) {
+  case TY_STRUCT:
+  case TY_UNION:
     for (Member *mem = ty->members; mem; mem = mem->next) {
-      int ofs = offset + mem->offset;
-      if ((ofs + mem->ty->size) <= lo)
+      if (mem->is_bitfield) {
+        int bit = (ofs + mem->offset) * 8 + mem->bit_offset;
+        merge_class(&cls[bit / 64], CL_INT);
+        merge_class(&cls[(bit + mem->bit_width - 1) / 64], CL_INT);
         continue;
-      if (hi <= ofs)
-        break;
-      if (!has_flonum(mem->ty, lo, hi, ofs))
-        return false;
+      }
+      classify2(mem->ty, ofs + mem->offset, cls);
     }
-    return true;
+    return;
+  case TY_ARRAY:
+    for (int i = 0; i < ty->array_len; i++)
+      classify2(ty->base, ofs + ty->base->size * i, cls);
+    return;
   }
+  if (ofs % ty->size)
+    merge_class(&cls[0], CL_MEM);
+  else if (ty->kind == TY_LDOUBLE)
+    merge_class(&cls[0], CL_X87), merge_class(&cls[1], CL_X87);
+  else if (ty->kind == TY_FLOAT || ty->kind == TY_DOUBLE)
+    merge_class(&cls[ofs / 8], CL_SSE);
+  else
+    merge_class(&cls[ofs / 8], CL_INT);
+}
 
-  if (ty->kind == TY_ARRAY) {
-    for (int i = 0; i < ty->array_len; i++) {
-      int ofs = offset + ty->base->size * i;
-      if ((ofs + ty->base->size) <= lo)
-        continue;
-      if (hi <= ofs)
-        break;
-      if (!has_flonum(ty->base, lo, hi, ofs))
-        return false;
-    }
-    return true;
-  }
+// Determine the class of the `idx`-th 8-byte chunk
+static ArgClass classify(Type *ty, int idx) {
+  if (ty->size > 16)
+    return CL_MEM;
 
-  return ty->kind == TY_FLOAT || ty->kind == TY_DOUBLE;
+  ArgClass cls[2] = {CL_NONE, CL_NONE};
+  classify2(ty, 0, cls);
+  if (cls[0] == CL_MEM || cls[1] == CL_MEM || (cls[1] == CL_X87 && cls[0] != CL_X87))
+    return CL_MEM;
+  return cls[idx];
 }
 
-static bool has_flonum1(Type *ty) {
-  return has_flonum(ty, 0, 8, 0);
+static bool pass_in_regs(Type *ty) {
+  ArgClass cls = classify(ty, 0);
+  return cls != CL_MEM && cls != CL_X87;
 }
 
-static bool has_flonum2(Type *ty) {
-  return has_flonum(ty, 8, 16, 0);
+static bool rtn_in_mem(Type *ty) {
+  return (ty->kind == TY_STRUCT || ty->kind == TY_UNION) && classify(ty, 0) == CL_MEM;
+}
+
+static int count_class(Type *ty, ArgClass cls) {
+  return (classify(ty, 0) == cls) + (classify(ty, 1) == cls);
 }
 
 bool va_arg_need_copy(Type *ty) {
-  if (ty->size > 8 && ty->size <= 16) {
-    return has_flonum1(ty) || has_flonum2(ty);
-  }
+  if (pass_in_regs(ty))
+    return classify(ty, 1) == CL_SSE || (classify(ty, 0) == CL_SSE && classify(ty, 1) == CL_INT);
   return false;
 }
 
@@ -1189,9 +1215,9 @@ static int calling_convention(Obj *var, int *gp_count, int *fp_count, int *stack
     switch (ty->kind) {
     case TY_STRUCT:
     case TY_UNION:
-      if (ty->size <= 16) {
-        int fp_inc = has_flonum1(ty) + (ty->size > 8 && has_flonum2(ty));
-        int gp_inc = !has_flonum1(ty) + (ty->size > 8 && !has_flonum2(ty));
+      if (pass_in_regs(ty)) {
+        int fp_inc = count_class(ty, CL_SSE);
+        int gp_inc = count_class(ty, CL_INT);
 
         if ((!fp_inc || (fp + fp_inc <= FP_MAX)) &&
           (!gp_inc || (gp + gp_inc <= GP_MAX))) {
@@ -1252,10 +1278,18 @@ static void copy_ret_buffer(Obj *var) {
   Type *ty = var->ty;
   int gp = 0, fp = 0;
 
+  if (classify(ty, 0) == CL_X87) {
+    Printftn("fstpt %d(%s)", var->ofs, var->ptr);
+    return;
+  }
+
   for (int ofs = 0; ofs < ty->size; ofs += 8) {
     int chunk_sz = MIN(8, ty->size - ofs);
+    ArgClass cls = classify(ty, ofs / 8);
 
-    if ((ofs == 0) ? has_flonum1(ty) : has_flonum2(ty)) {
+    if (cls == CL_NONE)
+      continue;
+    if (cls == CL_SSE) {
       if (chunk_sz == 4)
         Printftn("movss %%xmm%d, %d(%s)", fp, ofs + var->ofs, var->ptr);
       else
@@ -1278,10 +1312,18 @@ static void copy_struct_reg(void) {
   int gp = 0, fp = 0;
   char *sptr = "%rax";
 
+  if (classify(ty, 0) == CL_X87) {
+    Printstn("fldt (%%rax)");
+    return;
+  }
+
   for (int ofs = 0; ofs < ty->size; ofs += 8) {
     int chunk_sz = MIN(8, ty->size - ofs);
+    ArgClass cls = classify(ty, ofs / 8);
 
-    if ((ofs == 0) ? has_flonum1(ty) : has_flonum2(ty)) {
+    if (cls == CL_NONE)
+      continue;
+    if (cls == CL_SSE) {
       if (chunk_sz == 4)
         Printftn("movss %d(%s), %%xmm%d", ofs, sptr, fp);
       else
@@ -1310,17 +1352,19 @@ static void copy_struct_mem(void) {
 }
 
 static void gen_vaarg_reg_copy(Type *ty, Obj *var) {
-  int gp_inc = !has_flonum1(ty) + !has_flonum2(ty);
+  int gp_inc = count_class(ty, CL_INT);
   if (gp_inc) {
     Printftn("cmpl $%d, (%%rax)", 48 - gp_inc * 8);
     Printstn("ja 1f");
   }
-  int fp_inc = has_flonum1(ty) + has_flonum2(ty);
+  int fp_inc = count_class(ty, CL_SSE);
   Printftn("cmpl $%d, 4(%%rax)", 176 - fp_inc * 16);
   Printstn("ja 1f");
 
   for (int ofs = 0; ofs < ty->size; ofs += 8) {
-    if ((ofs == 0) ? has_flonum1(ty) : has_flonum2(ty)) {
+    if (classify(ty, ofs / 8) == CL_NONE)
+      continue;
+    if (classify(ty, ofs / 8) == CL_SSE) {
       Printstn("movl 4(%%rax), %%ecx");  // fp_offset
       Printstn("addq 16(%%rax), %%rcx"); // reg_save_area
       Printstn("addq $16, 4(%%rax)");
@@ -1404,7 +1448,10 @@ static void place_reg_arg(Type *ty, char *ofs, char *ptr, int *gp, int *fp) {
   case TY_UNION:
     for (int i = 0; i < ty->size; i += 8) {
       int sz = MIN(8, ty->size - i);
-      if (i == 0 ? has_flonum1(ty) : has_flonum2(ty)) {
+      ArgClass cls = classify(ty, i / 8);
+      if (cls == CL_NONE)
+        continue;
+      if (cls == CL_SSE) {
         Printftn("%s %d+%s(%s), %%xmm%d", sz == 4 ? "movss" : "movsd", i, ofs, ptr, (*fp)++);
       } else {
         load_chunk((char *[]){argreg16[*gp], argreg32[*gp], argreg64[*gp]}, sz, i, ofs, ptr);
@@ -1433,7 +1480,7 @@ static void gen_funcall_args(Node *node) {
     if (var->ptr)
       gen_var_assign(var, var->arg_expr);
 
-  bool rtn_by_stk = node->ret_buffer && node->ty->size > 16;
+  bool rtn_by_stk = node->ret_buffer && rtn_in_mem(node->ty);
   int gp = rtn_by_stk, fp = 0;
 
   int reg_arg_cnt = 0;
@@ -1494,7 +1541,7 @@ static void gen_funcall(Node *node) {
 
   // If the return type is a large struct/union, the caller passes
   // a pointer to a buffer as if it were the first argument.
-  bool rtn_by_stk = node->ret_buffer && node->ty->size > 16;
+  bool rtn_by_stk = node->ret_buffer && rtn_in_mem(node->ty);
   int gp_count = rtn_by_stk;
   int fp_count = 0;
   int arg_stk_align;
@@ -1796,10 +1843,12 @@ static void gen_expr2(Node *node, bool is_void) {
         cast_extend_int32(node->ty, reg_ax(node->ty->size), "%eax");
         return;
       }
-      if (node->ret_buffer && node->ty->size <= 16) {
+      if (node->ret_buffer && !rtn_in_mem(node->ty)) {
         copy_ret_buffer(node->ret_buffer);
         Printftn("lea %d(%s), %%rax", node->ret_buffer->ofs, node->ret_buffer->ptr);
       }
+    } else if (node->ret_buffer && classify(node->ty, 0) == CL_X87) {
+      Printstn("fstp %%st(0)");
     }
     return;
   case ND_LABEL_VAL:
@@ -1873,20 +1922,20 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_expr(node->lhs);
 
     Type *ty = node->ty->base;
-    bool use_reg_save = ty->size <= 16 && ty->kind != TY_LDOUBLE;
+    bool use_reg_save = pass_in_regs(ty);
     if (use_reg_save) {
       if (va_arg_need_copy(ty)) {
         // Structs with FP member are split into 8-byte chunks in the
         // reg save area, we reconstruct the layout with a local copy.
         gen_vaarg_reg_copy(ty, node->var);
-      } else if (has_flonum1(ty)) {
+      } else if (classify(ty, 0) == CL_SSE) {
         Printftn("cmpl $%d, 4(%%rax)", 160);
         Printstn("ja 1f");
         Printstn("movl 4(%%rax), %%edx");  // fp_offset
         Printstn("addq 16(%%rax), %%rdx"); // reg_save_area
         Printstn("addq $16, 4(%%rax)");
       } else {
-        int gp_inc = ty->size > 8 ? 2 : 1;
+        int gp_inc = count_class(ty, CL_INT);
         Printftn("cmpl $%d, (%%rax)", 48 - gp_inc * 8);
         Printstn("ja 1f");
         Printstn("movl (%%rax), %%edx");   // gp_offset
@@ -2202,7 +2251,7 @@ static void gen_stmt(Node *node) {
     Type *ty = node->lhs->ty;
 
     if (ty->kind == TY_STRUCT || ty->kind == TY_UNION) {
-      if (ty->size <= 16) {
+      if (!rtn_in_mem(ty)) {
         if (has_defr(node)) {
           push_copy(ty->size);
           gen_defr(node);
@@ -4076,7 +4125,7 @@ void emit_text(Obj *fn) {
   Printftn(".type \"%s\", @function", asm_name(fn));
   Printfsn("\"%s\":", asm_name(fn));
 
-  bool rtn_by_stk = fn->ty->return_ty->size > 16;
+  bool rtn_by_stk = rtn_in_mem(fn->ty->return_ty);
   int gp_count = rtn_by_stk;
   int fp_count = 0;
   int arg_stk_size = calling_convention(fn->ty->param_list, &gp_count, &fp_count, NULL);
@@ -4156,16 +4205,12 @@ void emit_text(Obj *fn) {
     case TY_STRUCT:
     case TY_UNION:
       assert(ty->size <= 16);
-      if (has_flonum1(ty))
-        store_fp(fp++, MIN(8, ty->size), var->ofs, var->ptr);
-      else
-        store_gp(gp++, MIN(8, ty->size), var->ofs, var->ptr);
-
-      if (ty->size > 8) {
-        if (has_flonum2(ty))
-          store_fp(fp++, ty->size - 8, var->ofs + 8, var->ptr);
-        else
-          store_gp(gp++, ty->size - 8, var->ofs + 8, var->ptr);
+      for (int i = 0; i < ty->size; i += 8) {
+        ArgClass cls = classify(ty, i / 8);
+        if (cls == CL_SSE)
+          store_fp(fp++, MIN(8, ty->size - i), var->ofs + i, var->ptr);
+        else if (cls == CL_INT)
+          store_gp(gp++, MIN(8, ty->size - i), var->ofs + i, var->ptr);
       }
       break;
     case TY_FLOAT:
@@ -4205,7 +4250,7 @@ void emit_text(Obj *fn) {
 
 // Logic should be in sync with gen_funcall_args()
 void prepare_funcall(Node *node, Scope *scope) {
-  bool rtn_by_stk = node->ty->size > 16;
+  bool rtn_by_stk = rtn_in_mem(node->ty);
   calling_convention(node->args, &(int){rtn_by_stk}, &(int){0}, NULL);
 
   int reg_arg_cnt = 0;
-- 
2.43.0


From e8ff7bdde4cc3cdf00edd67afc603f8a84d2ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:17 +0000
Subject: [PATCH 06/42] fix: set %al when calling variadic functions through
 pointers

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 23d80f7..a39225a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1567,7 +1567,8 @@ static void gen_funcall(Node *node) {
 
   gen_funcall_args(node);
 
-  if (node->lhs->ty->is_variadic) {
+  Type *fn_ty = node->lhs->ty->kind == TY_PTR ? node->lhs->ty->base : node->lhs->ty;
+  if (fn_ty->is_variadic || fn_ty->is_oldstyle) {
     if (fp_count)
       Printftn("movb $%d, %%al", fp_count);
     else
-- 
2.43.0


From 26b3d614c8aa52fa2f28e78049a1ca453670ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 07/42] fix: do not invert ordered floating comparisons under !

---
 codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index a39225a..92ea48c 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2918,7 +2918,9 @@ static bool gen_bool_opt(Node *node) {
     return false;
   node = boolexpr;
 
-  if (is_cmp(node)) {
+  // An ordered comparison of floats cannot be inverted because of NaN.
+  if (is_cmp(node) && (!flip || is_gp_ty(node->lhs->ty) ||
+    node->kind == ND_EQ || node->kind == ND_NE)) {
     Node n = *node;
     flip_cmp(&n.kind, flip);
     gen_expr(&n);
-- 
2.43.0


From 7941e30ee495967b1db8eecdaa5ddc0c083f6209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 08/42] fix: post-increment of long double values

---
 codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen.c b/codegen.c
index 92ea48c..e97c155 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1762,6 +1762,8 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_addr(node->lhs);
     Printstn("movq %%rax, %%rcx");
     load(node->lhs, 0);
+    if (node->lhs->ty->kind == TY_LDOUBLE)
+      Printstn("fld %%st(0)");
     push_by_ty(node->lhs->ty);
     push_from("%rcx");
     gen_expr_null_lhs(ND_ADD, node->lhs->ty, node->rhs);
-- 
2.43.0


From c79512ca31089508b1f5c0edb4cb2b93a9bc4b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 09/42] fix: case ranges of switches on narrow unsigned types

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 227a82b..a657bc9 100644
--- a/parse.c
+++ b/parse.c
@@ -2369,7 +2369,7 @@ static Token *label_stmt(Node **cur_node, Token **rest, Token *tok) {
 
       Type *ty = active_sw->cond->ty;
       if (ty->size <= 4) {
-        if (!ty->is_unsigned)
+        if (!ty->is_unsigned || ty->size < ty_int->size)
           lo = (int32_t)lo, hi = (int32_t)hi;
         else
           lo = (uint32_t)lo, hi = (uint32_t)hi;
-- 
2.43.0


From 05552a616ea03d83ed7e9eceea2c2ce06dd3d713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:34 +0000
Subject: [PATCH 10/42] fix: evaluate the operand of sizeof when it is a
 variable length array

---
 parse.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parse.c b/parse.c
index a657bc9..982a3cd 100644
--- a/parse.c
+++ b/parse.c
@@ -4212,15 +4212,19 @@ static Node *primary(Token **rest, Token *tok) {
 
   if (equal(tok, "sizeof")) {
     Type *ty;
+    Node *node = NULL;
     if (!is_typename_paren(rest, tok->next, &ty)) {
-      Node *node = unary(rest, tok->next);
+      node = unary(rest, tok->next);
       add_type(node);
       ty = node->ty;
     }
     if (ty->kind == TY_VLA) {
+      // An operand of VLA type is evaluated
       if (ty->vla_size)
-        return new_var_node(ty->vla_size, tok);
-      return compute_vla_size(ty, tok);
+        chain_expr(&node, new_var_node(ty->vla_size, tok));
+      else
+        chain_expr(&node, compute_vla_size(ty, tok));
+      return node;
     }
     if (ty->size < 0)
       error_tok(tok, "sizeof applied to incomplete type");
-- 
2.43.0


From 08748c9f2ecf38627580db8cd701bac8a7fb1522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 11/42] fix: give every copy of a deferred statement its own
 labels

---
 codegen.c | 44 ++++++++++++++++++++++++++++----------------
 slimcc.h  |  1 +
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/codegen.c b/codegen.c
index e97c155..0c90aa5 100644
--- a/codegen.c
+++ b/codegen.c
@@ -91,6 +91,7 @@ static int va_gp_start;
 static int va_fp_start;
 static int va_st_start;
 static int vla_base_ofs;
+static int64_t defr_copy;
 static int rtn_ptr_ofs;
 static int lvar_stk_sz;
 static int peak_stk_usage;
@@ -1393,6 +1394,12 @@ static void builtin_alloca(Node *node) {
     Printstn("mov %%rsp, %%rax");
 }
 
+// A deferred statement is emitted at every exit of its scope,
+// each copy but the first needs labels of its own.
+static char *local_label(char *name) {
+  return defr_copy ? format("%s.%"PRIi64, name, defr_copy) : name;
+}
+
 static void gen_defr(Node *node) {
   DeferStmt *defr = node->defr_start;
   DeferStmt *end = node->defr_end;
@@ -1422,7 +1429,12 @@ static void gen_defr(Node *node) {
       continue;
     }
     if (defr->kind == DF_DEFER_STMT) {
+      int64_t prev_copy = defr_copy;
+      if (defr->is_emitted)
+        defr_copy = count();
+      defr->is_emitted = true;
       gen_stmt(defr->stmt);
+      defr_copy = prev_copy;
       defr = defr->next;
       continue;
     }
@@ -1855,7 +1867,7 @@ static void gen_expr2(Node *node, bool is_void) {
     }
     return;
   case ND_LABEL_VAL:
-    Printftn("lea %s(%%rip), %%rax", node->unique_label);
+    Printftn("lea %s(%%rip), %%rax", local_label(node->unique_label));
     return;
   case ND_CAS: {
     gen_expr(node->cas_addr);
@@ -2168,14 +2180,14 @@ static void gen_stmt(Node *node) {
       gen_stmt(node->init);
     Printfsn(".L.begin.%"PRIi64":", c);
     if (node->cond)
-      gen_cond(node->cond, false, node->brk_label);
+      gen_cond(node->cond, false, local_label(node->brk_label));
     gen_stmt(node->then);
-    Printfsn("%s:", node->cont_label);
+    Printfsn("%s:", local_label(node->cont_label));
     if (node->inc)
       gen_void_expr(node->inc);
     gen_defr(node);
     Printftn("jmp .L.begin.%"PRIi64, c);
-    Printfsn("%s:", node->brk_label);
+    Printfsn("%s:", local_label(node->brk_label));
     return;
   }
   case ND_DO: {
@@ -2184,9 +2196,9 @@ static void gen_stmt(Node *node) {
 
     Printfsn("%s:", begin_label);
     gen_stmt(node->then);
-    Printfsn("%s:", node->cont_label);
+    Printfsn("%s:", local_label(node->cont_label));
     gen_cond(node->cond, true, begin_label);
-    Printfsn("%s:", node->brk_label);
+    Printfsn("%s:", local_label(node->brk_label));
     return;
   }
   case ND_SWITCH: {
@@ -2205,26 +2217,26 @@ static void gen_stmt(Node *node) {
 
       if (cr->hi == cr->lo) {
         imm_cmp(ax, dx, cr->lo);
-        Printftn("je %s", cr->label);
+        Printftn("je %s", local_label(cr->label));
         continue;
       }
       if (cr->lo == 0) {
         imm_cmp(ax, dx, cr->hi);
-        Printftn("jbe %s", cr->label);
+        Printftn("jbe %s", local_label(cr->label));
         continue;
       }
       Printftn("mov %s, %s", ax, cx);
       imm_sub(cx, dx, cr->lo);
       imm_cmp(cx, dx, cr->hi - cr->lo);
-      Printftn("jbe %s", cr->label);
+      Printftn("jbe %s", local_label(cr->label));
     }
 
     if (node->default_case)
-      Printftn("jmp %s", node->default_case->label);
+      Printftn("jmp %s", local_label(node->default_case->label));
 
-    Printftn("jmp %s", node->brk_label);
+    Printftn("jmp %s", local_label(node->brk_label));
     gen_stmt(node->then);
-    Printfsn("%s:", node->brk_label);
+    Printfsn("%s:", local_label(node->brk_label));
     return;
   }
   case ND_BLOCK:
@@ -2234,14 +2246,14 @@ static void gen_stmt(Node *node) {
     return;
   case ND_GOTO:
     gen_defr(node);
-    Printftn("jmp %s", node->unique_label);
+    Printftn("jmp %s", local_label(node->unique_label));
     return;
   case ND_GOTO_EXPR:
     gen_expr(node->lhs);
     Printstn("jmp *%%rax");
     return;
   case ND_LABEL:
-    Printfsn("%s:", node->unique_label);
+    Printfsn("%s:", local_label(node->unique_label));
     return;
   case ND_RETURN: {
     if (!node->lhs) {
@@ -3733,7 +3745,7 @@ static void asm_body(Node *node) {
       if (node->asm_outputs)
         Printf("%df", ap->label_id);
       else
-        Printf("%s", ap->arg->unique_label);
+        Printf("%s", local_label(ap->arg->unique_label));
       continue;
     }
 
@@ -3883,7 +3895,7 @@ static void gen_asm(Node *node) {
     Printftn("lea %df(%%rip), %s; jmp %df", fallthrough_label, tmp_gp, meet_label);
     for (AsmParam *ap = node->asm_labels; ap; ap = ap->next) {
       Printftn("%d:", ap->label_id);
-      Printftn("lea %s(%%rip), %s", ap->arg->unique_label, tmp_gp);
+      Printftn("lea %s(%%rip), %s", local_label(ap->arg->unique_label), tmp_gp);
       Printftn("jmp %df", meet_label);
     }
     Printftn("%d:", meet_label);
diff --git a/slimcc.h b/slimcc.h
index 8590058..7cbf020 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -318,6 +318,7 @@ struct DeferStmt {
   Obj *vla;
   Node *cleanup_fn;
   Node *stmt;
+  bool is_emitted;
 };
 
 typedef enum {
-- 
2.43.0


From 460bb83564419f8baba03ffc29ec82100855c35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 12/42] fix: member access on a comma expression of structure
 type

---
 codegen.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 0c90aa5..680ffbf 100644
--- a/codegen.c
+++ b/codegen.c
@@ -770,8 +770,12 @@ static void gen_addr(Node *node) {
     gen_void_expr(node->lhs);
     gen_addr(node->rhs);
     return;
-  case ND_MEMBER:
-    switch (node->lhs->kind) {
+  case ND_MEMBER: {
+    Node *lhs = node->lhs;
+    while (lhs->kind == ND_CHAIN || lhs->kind == ND_COMMA)
+      lhs = lhs->rhs;
+
+    switch (lhs->kind) {
     case ND_FUNCALL:
     case ND_ASSIGN:
     case ND_COND:
@@ -786,6 +790,7 @@ static void gen_addr(Node *node) {
       return;
     }
   }
+  }
 
   error_tok(node->tok, "not an lvalue");
 }
-- 
2.43.0


From f9cd7f610f8793894049c2a1389b0ee27edf2da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 13/42] fix: evaluate arguments that allocate stack memory
 before placing stack arguments

---
 parse.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 982a3cd..8d5154e 100644
--- a/parse.c
+++ b/parse.c
@@ -128,6 +128,7 @@ static DeferStmt *current_defr;
 
 static bool fn_use_vla;
 static bool dont_dealloc_vla;
+static int alloca_cnt;
 static bool is_global_init_context;
 static bool *eval_recover;
 
@@ -1520,6 +1521,7 @@ static Node *declaration2(Token **rest, Token *tok, Type *basety, VarAttr *attr,
       error_tok(tok, "variable-sized object may not be initialized");
 
     fn_use_vla = true;
+    alloca_cnt++;
     // Variable length arrays (VLAs) are translated to alloca() calls.
     // For example, `int x[n+2]` is translated to `tmp = n + 2,
     // x = alloca(tmp)`.
@@ -4056,6 +4058,7 @@ static Node *funcall(Token **rest, Token *tok, Node *fn) {
 
   Obj head = {0};
   Obj *cur = &head;
+  int prev_alloca_cnt = alloca_cnt;
 
   enter_tmp_scope();
 
@@ -4092,6 +4095,19 @@ static Node *funcall(Token **rest, Token *tok, Node *fn) {
   node->ty = ty->return_ty;
   node->args = head.param_next;
 
+  // Arguments that move %rsp must not be evaluated while the stack
+  // arguments are being placed.
+  Node *expr = NULL;
+  if (alloca_cnt != prev_alloca_cnt) {
+    for (Obj *arg = node->args; arg; arg = arg->param_next) {
+      Obj *tmp = new_lvar(NULL, unqual(arg->arg_expr->ty));
+      chain_expr(&expr, new_binary(ND_ASSIGN, new_var_node(tmp, tok), arg->arg_expr, tok));
+      add_type(expr);
+      arg->arg_expr = new_var_node(tmp, tok);
+      add_type(arg->arg_expr);
+    }
+  }
+
   prepare_funcall(node, scope);
   leave_scope();
 
@@ -4099,7 +4115,8 @@ static Node *funcall(Token **rest, Token *tok, Node *fn) {
   // to allocate a space for the return value.
   if (node->ty->kind == TY_STRUCT || node->ty->kind == TY_UNION)
     node->ret_buffer = new_lvar(NULL, node->ty);
-  return node;
+  chain_expr(&expr, node);
+  return expr;
 }
 
 // generic-selection = "(" assign "," generic-assoc ("," generic-assoc)* ")"
@@ -4262,6 +4279,7 @@ static Node *primary(Token **rest, Token *tok) {
 
   if (equal(tok, "__builtin_alloca")) {
     Node *node = new_node(ND_ALLOCA, tok);
+    alloca_cnt++;
     tok = skip(tok->next, "(");
     node->lhs = assign(&tok, tok);
     *rest = skip(tok, ")");
@@ -4422,8 +4440,10 @@ static Node *primary(Token **rest, Token *tok) {
         sc->var->is_referenced = true;
 
       char *name = sc->var->name;
-      if (!strcmp(name, "alloca"))
+      if (!strcmp(name, "alloca")) {
         dont_dealloc_vla = true;
+        alloca_cnt++;
+      }
     }
 
     if (sc) {
-- 
2.43.0


From a419445e52cf50451ead602aaef62d45a317824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 14/42] fix: keep __builtin_alloca memory when a variable
 length array is freed

---
 parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.c b/parse.c
index 8d5154e..54bb4a0 100644
--- a/parse.c
+++ b/parse.c
@@ -4279,6 +4279,7 @@ static Node *primary(Token **rest, Token *tok) {
 
   if (equal(tok, "__builtin_alloca")) {
     Node *node = new_node(ND_ALLOCA, tok);
+    dont_dealloc_vla = true;
     alloca_cnt++;
     tok = skip(tok->next, "(");
     node->lhs = assign(&tok, tok);
-- 
2.43.0


From 6a5c59894d75c050207be242881686cbe883e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 15/42] fix: member access on comma expressions in the
 optimizing paths

---
 codegen.c | 54 ++++++++++++++++++++++++------------------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/codegen.c b/codegen.c
index 680ffbf..0aeaba0 100644
--- a/codegen.c
+++ b/codegen.c
@@ -147,6 +147,7 @@ static void gen_void_expr(Node *node);
 static void gen_void_assign(Node *node);
 static bool gen_expr_opt(Node *node);
 static bool gen_addr_opt(Node *node);
+static void gen_addr(Node *node);
 static bool gen_cmp_opt_gp(Node *node, NodeKind *kind);
 static bool gen_load_opt_gp(Node *node, Reg r);
 static Node *bool_expr_opt(Node *node, bool *flip);
@@ -709,6 +710,24 @@ static void gen_bitfield_store(Node *node, bool is_void) {
   }
 }
 
+// Compute the address of a struct or union, which may be an rvalue.
+static void gen_member_base(Node *node) {
+  Node *val = node;
+  while (val->kind == ND_CHAIN || val->kind == ND_COMMA)
+    val = val->rhs;
+
+  switch (val->kind) {
+  case ND_FUNCALL:
+  case ND_ASSIGN:
+  case ND_COND:
+  case ND_STMT_EXPR:
+  case ND_VA_ARG:
+    gen_expr(node);
+    return;
+  }
+  gen_addr(node);
+}
+
 // Compute the absolute address of a given node.
 // It's an error if a given node does not reside in memory.
 static void gen_addr(Node *node) {
@@ -770,26 +789,10 @@ static void gen_addr(Node *node) {
     gen_void_expr(node->lhs);
     gen_addr(node->rhs);
     return;
-  case ND_MEMBER: {
-    Node *lhs = node->lhs;
-    while (lhs->kind == ND_CHAIN || lhs->kind == ND_COMMA)
-      lhs = lhs->rhs;
-
-    switch (lhs->kind) {
-    case ND_FUNCALL:
-    case ND_ASSIGN:
-    case ND_COND:
-    case ND_STMT_EXPR:
-    case ND_VA_ARG:
-      gen_expr(node->lhs);
-      imm_add("%rax", "%rdx", node->member->offset);
-      return;
-    default:
-      gen_addr(node->lhs);
-      imm_add("%rax", "%rdx", node->member->offset);
-      return;
-    }
-  }
+  case ND_MEMBER:
+    gen_member_base(node->lhs);
+    imm_add("%rax", "%rdx", node->member->offset);
+    return;
   }
 
   error_tok(node->tok, "not an lvalue");
@@ -2881,16 +2884,7 @@ static void gen_member_opt(Node *node, int64_t *ofs) {
     node = node->lhs;
   }
 
-  switch (node->kind) {
-  case ND_FUNCALL:
-  case ND_ASSIGN:
-  case ND_COND:
-  case ND_STMT_EXPR:
-  case ND_VA_ARG:
-    gen_expr(node);
-    return;
-  }
-  gen_addr(node);
+  gen_member_base(node);
 }
 
 static Node *bool_expr_opt(Node *node, bool *flip) {
-- 
2.43.0


From e2eea23ea455e4971c3fe7c4595199277509ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 16/42] fix: type conversions of atomic assignment, exchange
 and compare-and-swap

The operand of an atomic assignment or exchange was not converted to the
type of the object, floating-point values were exchanged from the wrong
register, narrow results were not extended, and compound operations on
atomic pointers crashed.
---
 codegen.c | 19 +++++++++++++++++--
 parse.c   |  8 ++++----
 type.c    |  8 ++++++--
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/codegen.c b/codegen.c
index 0aeaba0..1bba9c8 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1915,8 +1915,23 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_expr(node->rhs);
     char *reg = pop_inreg(tmpreg64[0]);
 
-    int sz = node->lhs->ty->base->size;
-    Printftn("xchg %s, (%s)", reg_ax(sz), reg);
+    Type *base = node->lhs->ty->base;
+    if (!is_scalar(base) || base->kind == TY_LDOUBLE)
+      error_tok(node->tok, "unsupported type for atomic exchange");
+
+    if (base->kind == TY_DOUBLE)
+      Printstn("movq %%xmm0, %%rax");
+    else if (base->kind == TY_FLOAT)
+      Printstn("movd %%xmm0, %%eax");
+
+    Printftn("xchg %s, (%s)", reg_ax(base->size), reg);
+
+    if (base->kind == TY_DOUBLE)
+      Printstn("movq %%rax, %%xmm0");
+    else if (base->kind == TY_FLOAT)
+      Printstn("movd %%eax, %%xmm0");
+    else if (base->size < 4)
+      cast_extend_int32(base, reg_ax(base->size), "%eax");
     return;
   }
   case ND_ALLOCA:
diff --git a/parse.c b/parse.c
index 54bb4a0..df608d1 100644
--- a/parse.c
+++ b/parse.c
@@ -3203,6 +3203,9 @@ static Node *atomic_op(Node *binary, bool return_old) {
   Node head = {0};
   Node *cur = &head;
 
+  add_type(binary->lhs);
+  add_type(binary->rhs);
+
   Obj *addr = new_lvar(NULL, pointer_to(binary->lhs->ty));
   Obj *val = new_lvar(NULL, binary->rhs->ty);
   Obj *old = new_lvar(NULL, binary->lhs->ty);
@@ -3278,8 +3281,7 @@ static Node *assign(Token **rest, Token *tok) {
   // Convert A = B to (tmp = B, atomic_exchange(&A, tmp), tmp)
   if (equal(tok, "=") && node->ty->is_atomic) {
     Node *rhs = assign(rest, tok->next);
-    add_type(rhs);
-    Obj *tmp = new_lvar(NULL, rhs->ty);
+    Obj *tmp = new_lvar(NULL, unqual(node->ty));
     Node *expr = new_binary(ND_ASSIGN, new_var_node(tmp, tok), rhs, tok);
     chain_expr(&expr, new_binary(ND_EXCH, new_unary(ND_ADDR, node, tok),
                                           new_var_node(tmp, tok),
@@ -4313,8 +4315,6 @@ static Node *primary(Token **rest, Token *tok) {
     else
       error_tok(start, "unsupported atomic fetch op");
 
-    add_type(binary->lhs);
-    add_type(binary->rhs);
     return atomic_op(binary, true);
   }
 
diff --git a/type.c b/type.c
index 4f2e385..aabe130 100644
--- a/type.c
+++ b/type.c
@@ -557,11 +557,15 @@ void add_type(Node *node) {
       error_tok(node->cas_addr->tok, "pointer expected");
     if (node->cas_old->ty->kind != TY_PTR)
       error_tok(node->cas_old->tok, "pointer expected");
+    if (is_numeric(node->cas_addr->ty->base))
+      node->cas_new = new_cast(node->cas_new, node->cas_addr->ty->base);
     return;
   case ND_EXCH:
     if (node->lhs->ty->kind != TY_PTR)
-      error_tok(node->cas_addr->tok, "pointer expected");
-    node->ty = node->lhs->ty->base;
+      error_tok(node->lhs->tok, "pointer expected");
+    node->ty = unqual(node->lhs->ty->base);
+    if (is_numeric(node->ty))
+      node->rhs = new_cast(node->rhs, node->ty);
     return;
   case ND_VA_START:
   case ND_VA_COPY:
-- 
2.43.0


From 2223c2a1835028f2f1ffb4a48ee00bac6e4f4387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 17/42] fix: layout of structures and unions of 256 MiB and
 more

---
 parse.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/parse.c b/parse.c
index df608d1..054d5e6 100644
--- a/parse.c
+++ b/parse.c
@@ -184,8 +184,12 @@ static Node *compute_vla_size(Type *ty, Token *tok);
 static int64_t const_expr2(Token **rest, Token *tok, Type **ty);
 static Node *new_node(NodeKind kind, Token *tok);
 
-static int align_down(int n, int align) {
-  return align_to(n - align + 1, align);
+static int64_t align_up(int64_t n, int64_t align) {
+  return (n + align - 1) / align * align;
+}
+
+static int64_t align_down(int64_t n, int64_t align) {
+  return align_up(n - align + 1, align);
 }
 
 static void enter_scope(void) {
@@ -3827,7 +3831,7 @@ static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
 }
 
 static Type *struct_decl(Type *ty, int alt_align) {
-  int bits = 0;
+  int64_t bits = 0;
   Member head = {0};
   Member *cur = &head;
 
@@ -3841,17 +3845,17 @@ static Type *struct_decl(Type *ty, int alt_align) {
     if (mem->alt_align)
       if (mem->alt_align > mem->ty->align ||
         (mem->ty->kind != TY_STRUCT && mem->ty->kind != TY_UNION))
-        bits = align_to(bits, mem->alt_align * 8);
+        bits = align_up(bits, mem->alt_align * 8);
 
     if (mem->is_bitfield) {
       if (mem->bit_width == 0) {
-        bits = align_to(bits, mem->ty->size * 8);
+        bits = align_up(bits, mem->ty->size * 8);
         continue;
       }
       int sz = mem->ty->size;
       if (!ty->is_packed)
         if (bits / (sz * 8) != (bits + mem->bit_width - 1) / (sz * 8))
-          bits = align_to(bits, sz * 8);
+          bits = align_up(bits, sz * 8);
 
       mem->offset = align_down(bits / 8, sz);
       mem->bit_offset = bits % (sz * 8);
@@ -3859,9 +3863,9 @@ static Type *struct_decl(Type *ty, int alt_align) {
       continue;
     }
     if (ty->is_packed)
-      bits = align_to(bits, 8);
+      bits = align_up(bits, 8);
     else
-      bits = align_to(bits, mem->ty->align * 8);
+      bits = align_up(bits, mem->ty->align * 8);
 
     mem->offset = bits / 8;
     bits += mem->ty->size * 8;
@@ -3873,9 +3877,9 @@ static Type *struct_decl(Type *ty, int alt_align) {
   if (alt_align)
     ty->align = alt_align;
   if (!alt_align && ty->is_packed)
-    ty->size = align_to(bits, 8) / 8;
+    ty->size = align_up(bits, 8) / 8;
   else
-    ty->size = align_to(bits, ty->align * 8) / 8;
+    ty->size = align_up(bits, ty->align * 8) / 8;
   return ty;
 }
 
@@ -3889,9 +3893,9 @@ static Type *union_decl(Type *ty, int alt_align) {
         alt_align = MAX(alt_align, mem->ty->align);
       alt_align = MAX(alt_align, mem->alt_align);
     }
-    int sz;
+    int64_t sz;
     if (mem->is_bitfield)
-      sz = align_to(mem->bit_width, 8) / 8;
+      sz = align_up(mem->bit_width, 8) / 8;
     else
       sz = mem->ty->size;
     ty->size = MAX(ty->size, sz);
@@ -3902,7 +3906,7 @@ static Type *union_decl(Type *ty, int alt_align) {
 
   if (alt_align)
     ty->align = alt_align;
-  ty->size = align_to(ty->size, ty->align);
+  ty->size = align_up(ty->size, ty->align);
   return ty;
 }
 
-- 
2.43.0


From 088af34a9a83901bf6cf8e1bf866287074f606c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 18/42] fix: size of variable length arrays over 2 GiB and
 difference of pointers to variable length arrays

---
 parse.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parse.c b/parse.c
index 054d5e6..45821a8 100644
--- a/parse.c
+++ b/parse.c
@@ -1429,7 +1429,7 @@ static Node *compute_vla_size(Type *ty, Token *tok) {
   if (ty->base->kind == TY_VLA)
     base_sz = new_var_node(ty->base->vla_size, tok);
   else
-    base_sz = new_num(ty->base->size, tok);
+    base_sz = new_size(ty->base->size, tok);
 
   ty->vla_size = new_lvar(NULL, ty_size_t);
   chain_expr(&node, new_binary(ND_ASSIGN, new_var_node(ty->vla_size, tok),
@@ -3570,9 +3570,13 @@ static Node *new_sub(Node *lhs, Node *rhs, Token *tok) {
 
   // ptr - ptr, which returns how many elements are between the two.
   if (lhs->ty->base && rhs->ty->base) {
-    int sz = lhs->ty->base->size;
+    Node *sz;
+    if (lhs->ty->base->kind == TY_VLA)
+      sz = new_cast(new_var_node(lhs->ty->base->vla_size, tok), ty_intptr_t);
+    else
+      sz = new_intptr(lhs->ty->base->size, tok);
     Node *node = new_binary(ND_SUB, new_cast(lhs, ty_intptr_t), new_cast(rhs, ty_intptr_t), tok);
-    return new_cast(new_binary(ND_DIV, node, new_num(sz, tok), tok), ty_ptrdiff_t);
+    return new_cast(new_binary(ND_DIV, node, sz, tok), ty_ptrdiff_t);
   }
 
   error_tok(tok, "invalid operands");
-- 
2.43.0


From a08efa1be979b3f68f5fe08d422f0e98210de419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 19/42] fix: initializers: static bit-fields of _Bool and of 64
 bits, empty and comma-terminated braces of scalars and strings, elided braces
 after an overridden aggregate

---
 parse.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 45821a8..73991d8 100644
--- a/parse.c
+++ b/parse.c
@@ -1810,6 +1810,7 @@ static void braced_initializer(Token **rest, Token *tok, Initializer *init) {
 }
 
 static void list_initializer(Token **rest, Token *tok, Initializer *init, int idx) {
+  init->kind = INIT_LIST;
   for (; idx < init->mem_cnt && !equal(tok, "}"); idx++) {
     Token *tok2 = (idx == 0) ? tok : skip(tok, ",");
 
@@ -1829,6 +1830,7 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
     Token *start = tok;
     Token *str_tok;
     if (equal(tok, "{") && is_str_tok(&tok, tok->next, &str_tok)) {
+      consume(&tok, tok, ",");
       if (consume(rest, tok, "}")) {
         string_initializer(str_tok, init);
         return;
@@ -1888,6 +1890,7 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
       return;
     }
 
+    init->kind = INIT_LIST;
     init->initmem = init->ty->members;
     initializer2(rest, tok, &init->mem_arr[0]);
     return;
@@ -1896,7 +1899,12 @@ static void initializer2(Token **rest, Token *tok, Initializer *init) {
   if (equal(tok, "{")) {
     // An initializer for a scalar variable can be surrounded by
     // braces. E.g. `int x = {3};`. Handle that case.
+    if (consume(rest, tok->next, "}")) {
+      init->kind = INIT_NONE;
+      return;
+    }
     initializer2(&tok, tok->next, init);
+    consume(&tok, tok, ",");
     *rest = skip(tok, "}");
     return;
   }
@@ -2078,12 +2086,12 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
         if (mem->is_bitfield &&
           ((init2->kind == INIT_EXPR || init2->kind == INIT_TOK))) {
           Node *node = init_num_tok(init2, &(Node){.kind = ND_NUM, .tok = init2->tok});
-          Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = ty};
+          Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = mem->ty};
 
           char *loc = buf + offset + mem->offset;
           uint64_t oldval = read_buf(loc, mem->ty->size);
           uint64_t newval = eval(&init_expr);
-          uint64_t mask = (1L << mem->bit_width) - 1;
+          uint64_t mask = -1UL >> (64 - mem->bit_width);
           uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
           memcpy(loc, &combined, mem->ty->size);
           continue;
-- 
2.43.0


From 0fd4544a14b4fa45bc8e7fd5b6f8a23ee340b1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 20/42] fix: evaluate #if expressions in intmax_t and uintmax_t

---
 preprocess.c | 22 ++++++++++++++++++++++
 slimcc.h     |  1 +
 type.c       |  8 ++++++++
 3 files changed, 31 insertions(+)

diff --git a/preprocess.c b/preprocess.c
index 673b28c..1eac87d 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -367,11 +367,31 @@ static Token *read_const_expr(Token *tok) {
   return head.next;
 }
 
+// All integer types act as intmax_t or uintmax_t in a preprocessor expression.
+static void to_intmax_token(Token *tok) {
+  int64_t val;
+  long double fval;
+  Type *ty = convert_pp_number(tok, &val, &fval);
+  if (!is_integer(ty))
+    return;
+
+  bool is_unsigned = ty->is_unsigned;
+  if (tok->kind == TK_PP_NUM && ty->size < ty_llong->size)
+    is_unsigned = memchr(tok->loc, 'u', tok->len) || memchr(tok->loc, 'U', tok->len);
+
+  to_int_token(tok, val);
+  tok->ty = is_unsigned ? ty_ullong : ty_llong;
+}
+
 // Read and evaluate a constant expression.
 static int64_t eval_const_expr(Token *tok) {
   Token *start = tok;
   tok = read_const_expr(tok);
 
+  for (Token *t = tok; t->kind != TK_EOF; t = t->next)
+    if (t->kind == TK_PP_NUM || t->kind == TK_INT_NUM)
+      to_intmax_token(t);
+
   if (tok->kind == TK_EOF)
     error_tok(start, "no expression");
 
@@ -379,7 +399,9 @@ static int64_t eval_const_expr(Token *tok) {
   arena_on(&node_arena);
 
   Token *end;
+  promote_to_intmax = true;
   int64_t val = const_expr(&end, tok);
+  promote_to_intmax = false;
 
   arena_off(&node_arena);
   arena_off(&ast_arena);
diff --git a/slimcc.h b/slimcc.h
index 7cbf020..915d6ac 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -627,6 +627,7 @@ extern Type *ty_intptr_t;
 extern Type *ty_ptrdiff_t;
 extern Type *ty_first_64bit_int;
 extern Type *ty_first_64bit_uint;
+extern bool promote_to_intmax;
 
 bool is_integer(Type *ty);
 bool is_flonum(Type *ty);
diff --git a/type.c b/type.c
index aabe130..54e542b 100644
--- a/type.c
+++ b/type.c
@@ -289,6 +289,9 @@ Type *vla_of(Type *base, Node *len) {
   return ty;
 }
 
+// True while evaluating a preprocessor expression
+bool promote_to_intmax;
+
 int int_rank(Type *t) {
   switch (t->kind) {
     case TY_BOOL:
@@ -320,6 +323,11 @@ static void int_promotion(Node **node) {
   Type *ty = (*node)->ty;
   int bit_width;
 
+  if (promote_to_intmax && ty->size < ty_llong->size) {
+    *node = new_cast(*node, ty_llong);
+    return;
+  }
+
   if (is_bitfield2(*node, &bit_width)) {
     int int_width = ty_int->size * 8;
 
-- 
2.43.0


From 54a4099cc4794052da5020eab4ab18bc78898d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 21/42] fix: numeric literals: digit separators, out of range
 integers, doubled prefixes, missing exponents and double rounding

---
 tokenize.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index 3554614..b8e53f9 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -487,7 +487,7 @@ static Token *new_pp_number(char *start, char *p) {
   return new_token(TK_PP_NUM, start, p);
 }
 
-static bool convert_pp_int(char *loc, int len, Type **res_ty, int64_t *res_val) {
+static bool convert_pp_int(Token *tok, char *loc, int len, Type **res_ty, int64_t *res_val) {
   char *p = loc;
 
   // Read a binary, octal, decimal or hexadecimal number.
@@ -504,7 +504,13 @@ static bool convert_pp_int(char *loc, int len, Type **res_ty, int64_t *res_val)
     }
   }
 
+  // strtoul() would skip another prefix
+  if (*p == '0' && ((base == 16 && Casecmp(p[1], 'x')) || (base == 2 && Casecmp(p[1], 'b'))))
+    return false;
+
+  errno = 0;
   int64_t val = strtoul(p, &p, base);
+  bool is_overflow = errno == ERANGE;
 
   // Read U, L or LL suffixes.
   bool u = false;
@@ -522,6 +528,9 @@ static bool convert_pp_int(char *loc, int len, Type **res_ty, int64_t *res_val)
   if (p != loc + len)
     return false;
 
+  if (is_overflow)
+    error_tok(tok, "integer constant is too large");
+
   bool ll = l_cnt == 2;
   bool l = l_cnt == 1;
 
@@ -580,9 +589,17 @@ Type *convert_pp_number(Token *tok, int64_t *res_val, long double *res_fval) {
   if (tok->len >= 227)
     error_tok(tok, "numeric literal exceeds static buffer size");
 
+  bool is_hex = tok->len > 2 && tok->loc[0] == '0' && Casecmp(tok->loc[1], 'x');
+
   for (int i = 0; i < tok->len; i++) {
-    if (tok->loc[i] == '\'')
+    if (tok->loc[i] == '\'') {
+      // A separator stands between two digits
+      if (i < (is_hex ? 3 : 1) || i + 1 == tok->len ||
+        !(is_hex ? Isxdigit(tok->loc[i - 1]) : Isdigit(tok->loc[i - 1])) ||
+        !(is_hex ? Isxdigit(tok->loc[i + 1]) : Isdigit(tok->loc[i + 1])))
+        error_tok(tok, "invalid digit separator");
       continue;
+    }
 
     buf[len++] = tok->loc[i];
   }
@@ -591,22 +608,26 @@ Type *convert_pp_number(Token *tok, int64_t *res_val, long double *res_fval) {
 
   Type *ty;
   // Try to parse as an integer constant.
-  if (convert_pp_int(buf, len, &ty, res_val))
+  if (convert_pp_int(tok, buf, len, &ty, res_val))
     return ty;
 
   // If it's not an integer, it must be a floating point constant.
+  if (!(is_hex ? strpbrk(buf, "pP") : strpbrk(buf, ".eEfF")))
+    error_tok(tok, "invalid numeric constant");
+
   char *end;
   long double val = strtold(buf, &end);
 
+  // Round only once
   if (*end == 'f' || *end == 'F') {
-    val = (float)val;
+    val = strtof(buf, &end);
     ty = ty_float;
     end++;
   } else if (*end == 'l' || *end == 'L') {
     ty = ty_ldouble;
     end++;
   } else {
-    val = (double)val;
+    val = strtod(buf, &end);
     ty = ty_double;
   }
 
-- 
2.43.0


From 2776e923d66ccefdd21426c76c2da2d44a674430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 22/42] fix: character constants across lines, u8 strings and
 characters, universal names after an escaped backslash, wide character values

---
 preprocess.c |  2 +-
 tokenize.c   | 40 +++++++++++++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 1eac87d..59205c7 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1760,7 +1760,7 @@ typedef enum {
 } StringKind;
 
 static StringKind getStringKind(Token *tok) {
-  if (!strcmp(tok->loc, "u8"))
+  if (!strncmp(tok->loc, "u8", 2))
     return STR_UTF8;
 
   switch (tok->loc[0]) {
diff --git a/tokenize.c b/tokenize.c
index b8e53f9..24c196b 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -364,7 +364,10 @@ static Token *read_string_literal(char *start, char *quote) {
   }
 
   Token *tok = new_token(TK_STR, start, end + 1);
-  tok->ty = array_of(ty_pchar, len + 1);
+  if (quote != start && opt_std >= STD_C23)
+    tok->ty = array_of(ty_uchar, len + 1);
+  else
+    tok->ty = array_of(ty_pchar, len + 1);
   tok->str = buf;
   return tok;
 }
@@ -427,10 +430,26 @@ static Token *read_utf32_string_literal(char *start, char *quote, Type *ty) {
   return tok;
 }
 
+// Find a closing single-quote on the same line.
+static char *char_literal_end(char *p) {
+  for (; *p != '\''; p++) {
+    if (*p == '\\')
+      p++;
+    if (*p == '\n' || *p == '\0')
+      return NULL;
+  }
+  return p;
+}
+
 static Token *read_char_literal(char *start, char *quote, Type *ty) {
   char *p = quote + 1;
-  if (*p == '\0')
-    error_at(start, "unclosed char literal");
+
+  // A lone quote is only invalid outside of skipped groups
+  char *end = char_literal_end(p);
+  if (!end)
+    return new_token(TK_PUNCT, start, p);
+  if (end == p)
+    error_at(start, "empty char literal");
 
   int c;
   if (*p == '\\')
@@ -438,10 +457,6 @@ static Token *read_char_literal(char *start, char *quote, Type *ty) {
   else
     c = decode_utf8(&p, p);
 
-  char *end = strchr(p, '\'');
-  if (!end)
-    error_at(p, "unclosed char literal");
-
   Token *tok = new_token(TK_INT_NUM, start, end + 1);
   tok->ival = c;
   tok->ty = ty;
@@ -771,6 +786,14 @@ Token *tokenize(File *file, Token **end) {
       continue;
     }
 
+    // UTF-8 character literal
+    if (opt_std >= STD_C23 && startswith3(p, 'u', '8', '\'')) {
+      cur = cur->next = read_char_literal(p, p + 2, ty_uchar);
+      cur->ival &= 0xff;
+      p += cur->len;
+      continue;
+    }
+
     // UTF-16 character literal
     if (startswith2(p, 'u', '\'')) {
       cur = cur->next = read_char_literal(p, p + 1, ty_ushort);
@@ -789,6 +812,7 @@ Token *tokenize(File *file, Token **end) {
     // UTF-32 character literal
     if (startswith2(p, 'U', '\'')) {
       cur = cur->next = read_char_literal(p, p + 1, ty_uint);
+      cur->ival &= 0xffffffff;
       p += cur->len;
       continue;
     }
@@ -935,6 +959,8 @@ static void convert_universal_chars(char *p) {
         q += encode_utf8(q, c);
         continue;
       }
+    } else if (startswith2(p, '\\', '\\')) {
+      *q++ = *p++;
     }
     *q++ = *p++;
   }
-- 
2.43.0


From 8d0f02cbf51610e47c008b045d439c2398eb0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 23/42] fix: directives: a null directive ends at its line,
 macro names are required, an object-like macro's line end

---
 preprocess.c | 50 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 59205c7..84599ef 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -173,7 +173,7 @@ static Token *skip_cond_incl(Token *tok) {
   Token *last = NULL;
   int lvl = 0;
   for (; tok->kind != TK_EOF; last = tok, tok = tok->next) {
-    if (is_hash(tok)) {
+    if (is_hash(tok) && !tok->next->at_bol) {
       if ((equal(tok->next, "if") || equal(tok->next, "ifdef") ||
            equal(tok->next, "ifndef"))) {
         lvl++;
@@ -430,6 +430,11 @@ static bool get_cond_incl(CondIncl **cond) {
   return true;
 }
 
+static void check_macro_name(Token *tok) {
+  if (tok->kind != TK_IDENT || tok->at_bol)
+    error_tok(tok, "macro name must be an identifier");
+}
+
 static Macro *find_macro(Token *tok) {
   if (tok->kind != TK_IDENT)
     return NULL;
@@ -480,7 +485,7 @@ static Macro *read_macro_name(Token **rest, Token *tok) {
   tok = tok->next;
 
   Macro *m;
-  if (!tok->has_space && equal(tok, "("))
+  if (!tok->has_space && !tok->at_bol && equal(tok, "("))
     m = read_macro_params(name, &tok, tok->next);
   else
     m = new_macro(name, true);
@@ -489,12 +494,14 @@ static Macro *read_macro_name(Token **rest, Token *tok) {
 }
 
 static void read_macro_definition(Token **rest, Token *tok) {
+  check_macro_name(tok);
   Macro *m = read_macro_name(&tok, tok);
   m->body = split_line(rest, tok);
 }
 
 static void read_macro_definition2(Token **rest, Token *tok) {
   Token *start = tok;
+  check_macro_name(tok);
   Macro *m = read_macro_name(&tok, tok);
   tok = skip_line(tok);
 
@@ -1055,7 +1062,7 @@ static char *read_filename(Token **rest, Token *tok, bool *is_dquote) {
   bool is_expanded = false;
   if (tok->kind == TK_IDENT) {
     tok = expand_tok(tok);
-    for (Token *t = tok->next; t->kind != TK_EOF; t = t->next)
+    for (Token *t = tok; t->kind != TK_EOF; t = t->next)
       t->has_space = false;
     is_expanded = true;
   }
@@ -1215,7 +1222,8 @@ static void read_line_marker(Token **rest, Token *tok) {
   tok = expand_tok(split_line(rest, tok));
 
   int64_t val;
-  if (convert_pp_number(tok, &val, &(long double){0})->kind != TY_INT)
+  if ((tok->kind != TK_PP_NUM && tok->kind != TK_INT_NUM) ||
+    convert_pp_number(tok, &val, &(long double){0})->kind != TY_INT)
     error_tok(tok, "invalid line marker");
 
   start->file->line_delta = val - start->line_no - 1;
@@ -1270,6 +1278,13 @@ static Token *preprocess2(Token *tok) {
 static Token *directives(Token **cur, Token *start) {
   Token *tok = start->next;
 
+  // `#`-only line is legal. It's called a null directive.
+  if (tok->at_bol) {
+    if (opt_cc1_asm_pp)
+      *cur = (**cur).next = start;
+    return tok;
+  }
+
   if (equal(tok, "embed")) {
     Token *cont;
     bool is_dquote;
@@ -1308,8 +1323,7 @@ static Token *directives(Token **cur, Token *start) {
 
   if (equal(tok, "undef")) {
     tok = tok->next;
-    if (tok->kind != TK_IDENT)
-      error_tok(tok, "macro name must be an identifier");
+    check_macro_name(tok);
     undef_macro(strndup(tok->loc, tok->len));
     tok = skip_line(tok->next);
     return tok;
@@ -1324,6 +1338,7 @@ static Token *directives(Token **cur, Token *start) {
   }
 
   if (equal(tok, "ifdef")) {
+    check_macro_name(tok->next);
     bool active = find_macro(tok->next);
     push_cond_incl(tok, active);
     tok = skip_line(tok->next->next);
@@ -1333,6 +1348,7 @@ static Token *directives(Token **cur, Token *start) {
   }
 
   if (equal(tok, "ifndef")) {
+    check_macro_name(tok->next);
     bool active = !find_macro(tok->next);
     push_cond_incl(tok, active);
     tok = skip_line(tok->next->next);
@@ -1360,9 +1376,12 @@ static Token *directives(Token **cur, Token *start) {
       error_tok(start, "stray #elifdef");
     cond->tok->is_incl_guard = false;
 
-    if (!cond->been_active && find_macro(tok->next)) {
-      cond->been_active = true;
-      return skip_line(tok->next->next);
+    if (!cond->been_active) {
+      check_macro_name(tok->next);
+      if (find_macro(tok->next)) {
+        cond->been_active = true;
+        return skip_line(tok->next->next);
+      }
     }
     return skip_cond_incl(tok);
   }
@@ -1373,9 +1392,12 @@ static Token *directives(Token **cur, Token *start) {
       error_tok(start, "stray #elifndef");
     cond->tok->is_incl_guard = false;
 
-    if (!cond->been_active && !find_macro(tok->next)) {
-      cond->been_active = true;
-      return skip_line(tok->next->next);
+    if (!cond->been_active) {
+      check_macro_name(tok->next);
+      if (!find_macro(tok->next)) {
+        cond->been_active = true;
+        return skip_line(tok->next->next);
+      }
     }
     return skip_cond_incl(tok);
   }
@@ -1462,10 +1484,6 @@ static Token *directives(Token **cur, Token *start) {
     return tok;
   }
 
-  // `#`-only line is legal. It's called a null directive.
-  if (tok->at_bol)
-    return tok;
-
   error_tok(tok, "invalid preprocessor directive");
 }
 
-- 
2.43.0


From 018b3cce31b5ef95878b7037650177b6d0579e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 24/42] fix: reject negative designator indices, strings for
 arrays of other elements and label addresses outside of functions

---
 parse.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/parse.c b/parse.c
index 73991d8..4bc94f3 100644
--- a/parse.c
+++ b/parse.c
@@ -1632,6 +1632,9 @@ static Token *skip_excess_element(Token *tok) {
 
 // string-initializer = string-literal
 static void string_initializer(Token *tok, Initializer *init) {
+  if (init->ty->base->size != tok->ty->base->size)
+    error_tok(tok, "array initialized from an incompatible string literal");
+
   if (init->kind == INIT_FLEXIBLE)
     new_initializer(init, array_of(init->ty->base, tok->ty->array_len), false);
 
@@ -1705,15 +1708,18 @@ static bool is_str_tok(Token **rest, Token *tok, Token **str_tok) {
 //   struct { int a, b, c; } x = { .c=5 };
 //
 // The above initializer sets x.c to 5.
-static void array_designator(Token **rest, Token *tok, Type *ty, int *begin, int *end) {
-  *begin = const_expr(&tok, tok->next);
-  if (*begin >= ty->array_len)
+static int array_designator_index(Token **rest, Token *tok, int64_t array_len) {
+  int64_t idx = const_expr(rest, tok);
+  if (idx < 0 || idx >= array_len)
     error_tok(tok, "array designator index exceeds array bounds");
+  return idx;
+}
+
+static void array_designator(Token **rest, Token *tok, Type *ty, int *begin, int *end) {
+  *begin = array_designator_index(&tok, tok->next, ty->array_len);
 
   if (equal(tok, "...")) {
-    *end = const_expr(&tok, tok->next);
-    if (*end >= ty->array_len)
-      error_tok(tok, "array designator index exceeds array bounds");
+    *end = array_designator_index(&tok, tok->next, ty->array_len);
     if (*end < *begin)
       error_tok(tok, "array designator range [%d, %d] is empty", *begin, *end);
   } else {
@@ -1780,9 +1786,9 @@ static int count_array_init_elements(Token *tok, Type *ty) {
   int i = 0, max = 0;
   while (comma_list(&tok, &tok, "}", i)) {
     if (equal(tok, "[")) {
-      i = const_expr(&tok, tok->next);
+      i = array_designator_index(&tok, tok->next, INT32_MAX);
       if (equal(tok, "..."))
-        i = const_expr(&tok, tok->next);
+        i = array_designator_index(&tok, tok->next, INT32_MAX);
       tok = skip(tok, "]");
       designation(&tok, tok, &dummy);
     } else {
@@ -3704,6 +3710,9 @@ static Node *unary(Token **rest, Token *tok) {
 
   // [GNU] labels-as-values
   if (equal(tok, "&&")) {
+    if (!current_fn)
+      error_tok(tok, "label address outside of a function");
+
     Node *node = new_node(ND_LABEL_VAL, tok);
     node->labels = ident_tok(rest, tok->next);
     node->goto_next = gotos;
-- 
2.43.0


From 8e3829a7b02c273233debe0a1d72e01a9c71e7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 25/42] fix: line comment without a newline in a command line
 definition

---
 tokenize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenize.c b/tokenize.c
index 24c196b..084b916 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -708,7 +708,7 @@ Token *tokenize(File *file, Token **end) {
     // Skip line comments.
     if (startswith2(p, '/', '/')) {
       p += 2;
-      while (*p != '\n')
+      while (*p && *p != '\n')
         p++;
       has_space = true;
       continue;
-- 
2.43.0


From 4433cfa28bba85e458a572e04fc32bc5b973bfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 26/42] fix: label address in a boolean context

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 4bc94f3..87f36b0 100644
--- a/parse.c
+++ b/parse.c
@@ -3006,7 +3006,7 @@ static int64_t eval2(Node *node, EvalContext *ctx) {
     if (ty->size != ty_intptr_t->size) {
       EvalContext ctx2= {.kind = EV_LABEL};
       if (eval_ctx(lhs, &ctx2, NULL) && ctx2.label) {
-        if (ty->kind == TY_BOOL && !ctx2.var->is_weak)
+        if (ty->kind == TY_BOOL && !(ctx2.var && ctx2.var->is_weak))
           return true;
         return eval_error(node->tok, "pointer cast to different size");
       }
-- 
2.43.0


From 32cb7eccf08bdcb15224f44af9c312462c57d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 27/42] fix: -E keeps tokens apart that would be read as one

---
 main.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 8bfae0a..35afbae 100644
--- a/main.c
+++ b/main.c
@@ -636,12 +636,31 @@ static void run_cc1(char *input, char *output, bool no_fork, bool is_asm_pp) {
     exit(1);
 }
 
+// Returns true if two tokens that are not adjacent in the source
+// may be read as one token or a comment without a space in between.
+static bool needs_space(Token *prev, Token *tok) {
+  if (prev->file == tok->file && prev->loc + prev->len == tok->loc)
+    return false;
+
+  char l = prev->loc[prev->len - 1];
+  char f = tok->loc[0];
+  bool is_word = Isalnum(f) || f == '_' || f == '$' || f < 0;
+
+  if (Isalnum(l) || l == '_' || l == '$' || l < 0)
+    return is_word || f == '"' || f == '\'' || f == '.' ||
+      (prev->kind == TK_PP_NUM && (f == '+' || f == '-'));
+  if (l == '.' && is_word)
+    return true;
+  return strchr("+-*/%&|^<>=!#:.", l) && strchr("+-*/%&|^<>=!#:.", f);
+}
+
 // Print tokens to stdout. Used for -E.
 static void print_tokens(Token *tok, char *path) {
   FILE *out = open_file(path);
 
   int line = 1;
   File *markerfile = NULL;
+  Token *prev = NULL;
 
   for (; tok->kind != TK_EOF; tok = tok->next) {
     Token *orig = tok->origin ? tok->origin : tok;
@@ -655,9 +674,10 @@ static void print_tokens(Token *tok, char *path) {
 
     if (line > 1 && tok->at_bol)
       fprintf(out, "\n");
-    if (tok->has_space && !tok->at_bol)
+    if (!tok->at_bol && prev && (tok->has_space || needs_space(prev, tok)))
       fprintf(out, " ");
     fprintf(out, "%.*s", tok->len, tok->loc);
+    prev = tok;
     line++;
   }
   fprintf(out, "\n");
-- 
2.43.0


From bc0db1a7d9dea3a728230580370669a4e9e4e7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 28/42] fix: macro parameter lists end on their line

---
 preprocess.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 84599ef..1499da3 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -448,24 +448,30 @@ static Macro *new_macro(char *name, bool is_objlike) {
   return m;
 }
 
+static Token *same_line(Token *tok) {
+  if (tok->at_bol)
+    error_tok(tok, "unterminated macro parameter list");
+  return tok;
+}
+
 static Macro *read_macro_params(char *name, Token **rest, Token *tok) {
   Token head = {0};
   Token *cur = &head;
   Macro *m = new_macro(name, false);
 
-  while (!consume(rest, tok, ")")) {
+  while (!consume(rest, same_line(tok), ")")) {
     if (m->arg_cnt++)
-      tok = skip(tok, ",");
+      tok = same_line(skip(tok, ","));
 
     if (tok->kind != TK_IDENT) {
-      *rest = skip(skip(tok, "..."), ")");
+      *rest = skip(same_line(skip(tok, "...")), ")");
       static Token va_args = {.loc = "__VA_ARGS__", .len = 11, .is_generated = true};
       cur = cur->next = &va_args;
       m->has_va_arg = true;
       break;
     }
-    if (equal(tok->next, "...")) {
-      *rest = skip(tok->next->next, ")");
+    if (equal(same_line(tok->next), "...")) {
+      *rest = skip(same_line(tok->next->next), ")");
       cur = cur->next = tok;
       m->has_va_arg = true;
       break;
-- 
2.43.0


From 4417543e17653d2267c27ecdd792f32ce620ef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 29/42] fix: line numbers of tokens after a line splice

The newlines of removed line splices are put back at the end of the
logical line; the tokens in between were numbered as if the splices
were not there.
---
 tokenize.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index 084b916..e891e46 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -6,6 +6,10 @@ static File *current_file;
 // A list of all input files.
 static File **input_files;
 
+// Offsets of the line splices removed from the current file
+static int *splices;
+static int splice_cnt;
+
 // True if the current position is at the beginning of a line
 static bool at_bol;
 
@@ -657,15 +661,24 @@ Type *convert_pp_number(Token *tok, int64_t *res_val, long double *res_fval) {
 static void add_line_numbers(Token *tok) {
   char *p = current_file->contents;
   int n = 1;
+  int idx = 0;
+  int spliced = 0;
 
   do {
+    for (; idx < splice_cnt && splices[idx] <= p - current_file->contents; idx++)
+      spliced++;
     if (p == tok->loc) {
-      tok->line_no = n;
+      tok->line_no = n + spliced;
       tok = tok->next;
     }
-    if (*p == '\n')
+    if (*p == '\n') {
       n++;
+      // The newlines of splices are put back at the end of the line
+      if (spliced)
+        spliced--;
+    }
   } while (*p++);
+  splice_cnt = 0;
 }
 
 Token *tokenize_string_literal(Token *tok, Type *basety) {
@@ -906,8 +919,16 @@ static void canonicalize_newline(char *p) {
   }
 }
 
+static void add_splice(int offset) {
+  static int cap;
+  if (splice_cnt == cap)
+    splices = realloc(splices, sizeof(int) * (cap = cap * 2 + 64));
+  splices[splice_cnt++] = offset;
+}
+
 // Removes backslashes followed by a newline.
 static void remove_backslash_newline(char *p) {
+  char *start = p;
   char *first = strchr(p, '\\');
   if (first) {
     char *q = p = first;
@@ -917,6 +938,7 @@ static void remove_backslash_newline(char *p) {
       if (*p == '\\' && p[1] == '\n') {
         p += 2;
         n++;
+        add_splice(q - start);
         continue;
       }
       if (*p == '\n') {
@@ -942,9 +964,13 @@ static uint32_t read_universal_char(char *p, int len) {
 
 // Replace \u or \U escape sequences with corresponding UTF-8 bytes.
 static void convert_universal_chars(char *p) {
+  char *start = p;
   char *q = p;
+  int idx = 0;
 
   while (*p) {
+    for (; idx < splice_cnt && splices[idx] <= p - start; idx++)
+      splices[idx] = q - start;
     if (startswith2(p, '\\', 'u')) {
       uint32_t c = read_universal_char(p + 2, 4);
       if (c) {
-- 
2.43.0


From 320b0fc7fb9a9e25ae2079eb0c72664125369991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 30/42] fix: escape file names in __FILE__, line markers and
 .file

A quote or a backslash in a file name ended the string literal early.
---
 codegen.c    |  2 +-
 main.c       |  2 +-
 preprocess.c |  4 ++--
 slimcc.h     |  1 +
 tokenize.c   | 11 +++++++++++
 5 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/codegen.c b/codegen.c
index 1bba9c8..dffa36f 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4350,7 +4350,7 @@ int codegen(Obj *prog, FILE *out) {
   if (opt_g) {
     File **files = get_input_files();
     for (int i = 0; files[i]; i++)
-      Printftn(".file %d \"%s\"", files[i]->file_no, files[i]->name);
+      Printftn(".file %d \"%s\"", files[i]->file_no, escape_filename(files[i]->name));
   }
 
   for (Obj *var = prog; var; var = var->next) {
diff --git a/main.c b/main.c
index 35afbae..dab5b97 100644
--- a/main.c
+++ b/main.c
@@ -669,7 +669,7 @@ static void print_tokens(Token *tok, char *path) {
       char *name = orig->file->name;
       if (!strcmp(name, "-"))
         name = "<stdin>";
-      fprintf(out, "\n# %d \"%s\"\n", orig->line_no, name);
+      fprintf(out, "\n# %d \"%s\"\n", orig->line_no, escape_filename(name));
     }
 
     if (line > 1 && tok->at_bol)
diff --git a/preprocess.c b/preprocess.c
index 1499da3..07462e7 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1533,7 +1533,7 @@ static Token *file_macro(Token *start) {
   Token *tok = start;
   if (tok->origin)
     tok = tok->origin;
-  tok = new_str_token(tok->file->display_file->name, tok);
+  tok = new_str_token(escape_filename(tok->file->display_file->name), tok);
   tok->next = start->next;
   return tok;
 }
@@ -1575,7 +1575,7 @@ static Token *timestamp_macro(Token *start) {
 }
 
 static Token *base_file_macro(Token *start) {
-  Token *tok = new_str_token(base_file, start);
+  Token *tok = new_str_token(escape_filename(base_file), start);
   tok->next = start->next;
   return tok;
 }
diff --git a/slimcc.h b/slimcc.h
index 915d6ac..ccf32bf 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -212,6 +212,7 @@ File *new_file(char *name, int file_no, char *contents);
 Token *tokenize_string_literal(Token *tok, Type *basety);
 Token *tokenize(File *file, Token **end);
 Token *tokenize_file(char *filename, Token **end, int *incl_no);
+char *escape_filename(char *name);
 File *add_input_file(char *path, char *content, int *incl_no);
 Type *convert_pp_number(Token *tok, int64_t *res_val, long double *res_fval);
 TokenKind ident_keyword(Token *tok);
diff --git a/tokenize.c b/tokenize.c
index e891e46..e1ecdbb 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -994,6 +994,17 @@ static void convert_universal_chars(char *p) {
   *q = '\0';
 }
 
+// Escape a file name for use in a string literal.
+char *escape_filename(char *name) {
+  char *buf = malloc(strlen(name) * 2 + 1);
+  char *p = buf;
+  for (; *name; *p++ = *name++)
+    if (*name == '"' || *name == '\\')
+      *p++ = '\\';
+  *p = '\0';
+  return buf;
+}
+
 File *add_input_file(char *path, char *contents, int *incl_no) {
   static HashMap input_files_map;
 
-- 
2.43.0


From f01b5e7d5f6c18b87afa05afcb19f315daa4ca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 31/42] fix: the number of a line directive is decimal

A leading zero made it octal.
---
 preprocess.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/preprocess.c b/preprocess.c
index 07462e7..c507785 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1227,11 +1227,17 @@ static void read_line_marker(Token **rest, Token *tok) {
   Token *start = tok;
   tok = expand_tok(split_line(rest, tok));
 
-  int64_t val;
-  if ((tok->kind != TK_PP_NUM && tok->kind != TK_INT_NUM) ||
-    convert_pp_number(tok, &val, &(long double){0})->kind != TY_INT)
+  if (tok->kind != TK_PP_NUM && tok->kind != TK_INT_NUM)
     error_tok(tok, "invalid line marker");
 
+  // The number is decimal, leading zeros do not make it octal.
+  int64_t val = 0;
+  for (int i = 0; i < tok->len; i++) {
+    if (!Isdigit(tok->loc[i]))
+      error_tok(tok, "invalid line marker");
+    val = MIN(val * 10 + (tok->loc[i] - '0'), INT32_MAX);
+  }
+
   start->file->line_delta = val - start->line_no - 1;
 
   tok = tok->next;
-- 
2.43.0


From ee7d6f61e061e457c2a4c26f1a153d177e428abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 32/42] fix: a file included again starts with fresh line
 numbers

The presumed line and name set by #line in one inclusion leaked into
the next, and a file whose name was known only from #line had no
contents when it was then included.
---
 tokenize.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index e1ecdbb..d9f333c 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -1009,6 +1009,19 @@ File *add_input_file(char *path, char *contents, int *incl_no) {
   static HashMap input_files_map;
 
   File *file = hashmap_get(&input_files_map, path);
+  if (file && incl_no && file->is_input) {
+    // Included again: line numbers restart
+    File *again = new_file(path, file->file_no, contents);
+    again->is_input = true;
+    again->incl_no = *incl_no;
+    return again;
+  }
+  if (file && incl_no) {
+    // Known by name from #line only
+    file->is_input = true;
+    file->incl_no = *incl_no;
+    file->contents = contents;
+  }
   if (file)
     return file;
 
-- 
2.43.0


From 8733dbf56e7d291d8d88409a2a520e4d7289f562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:58 +0000
Subject: [PATCH 33/42] fix: dependency rules list the files read, escaped for
 make

Prerequisites were not escaped, -MP gave a rule for the main file when
it was not the first one read, and an #include on the last line of a
system header was taken for one of the user.
---
 main.c       | 9 +++------
 preprocess.c | 2 +-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/main.c b/main.c
index dab5b97..e5a0258 100644
--- a/main.c
+++ b/main.c
@@ -197,9 +197,6 @@ static char *quote_makefile(char *s) {
       buf[j++] = '$';
       break;
     case '#':
-      buf[j++] = '\\';
-      buf[j++] = '#';
-      break;
     case ' ':
     case '\t':
       for (int k = i - 1; k >= 0 && s[k] == '\\'; k--)
@@ -724,15 +721,15 @@ static void print_dependencies(char *input) {
     char *name = files[i]->name;
     if ((opt_MM && files[i]->is_syshdr) || !files[i]->is_input)
       continue;
-    fprintf(out, " \\\n  %s", name);
+    fprintf(out, " \\\n  %s", quote_makefile(name));
   }
 
   fprintf(out, "\n\n");
 
   if (opt_MP) {
-    for (int i = 1; files[i]; i++) {
+    for (int i = 0; files[i]; i++) {
       char *name = files[i]->name;
-      if ((opt_MM && files[i]->is_syshdr) || !files[i]->is_input)
+      if ((opt_MM && files[i]->is_syshdr) || !files[i]->is_input || !strcmp(name, input))
         continue;
       fprintf(out, "%s:\n\n", quote_makefile(name));
     }
diff --git a/preprocess.c b/preprocess.c
index c507785..345e2dc 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1138,7 +1138,7 @@ static Token *include_file(Token *tok, char *path, Token *filename_tok, int *inc
     start->next->next->kind == TK_IDENT && equal(end, "endif"))
     start->next->is_incl_guard = end->is_incl_guard = true;
 
-  if (tok->file->is_syshdr || in_sysincl_path(end->file->name))
+  if (filename_tok->file->is_syshdr || in_sysincl_path(end->file->name))
     end->file->is_syshdr = true;
 
   end->next = tok;
-- 
2.43.0


From 683b0ff04ecb6308a98820d34790ffb251b168dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:58 +0000
Subject: [PATCH 34/42] fix: report read and write errors

A failing write of an -S, -E or -M output left a truncated file and a
success status, and so did a failing read of a source file.
---
 main.c       | 24 ++++++++++++------------
 preprocess.c |  5 ++++-
 tokenize.c   |  8 ++++++++
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/main.c b/main.c
index e5a0258..6a38150 100644
--- a/main.c
+++ b/main.c
@@ -559,6 +559,15 @@ static FILE *open_file(char *path) {
   return out;
 }
 
+// Finish an output file. It must be complete for a success status.
+static void close_file(FILE *out, char *path) {
+  bool failed = fflush(out) || ferror(out);
+  if (out != stdout && fclose(out))
+    failed = true;
+  if (failed)
+    error("cannot write output file: %s: %s", path ? path : "-", strerror(errno));
+}
+
 static bool endswith(char *p, char *q) {
   int len1 = strlen(p);
   int len2 = strlen(q);
@@ -679,10 +688,7 @@ static void print_tokens(Token *tok, char *path) {
   }
   fprintf(out, "\n");
 
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, path);
 }
 
 bool in_sysincl_path(char *path) {
@@ -734,10 +740,7 @@ static void print_dependencies(char *input) {
       fprintf(out, "%s:\n\n", quote_makefile(name));
     }
   }
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, path);
 }
 
 static Token *must_tokenize_file(char *path, Token **end) {
@@ -807,10 +810,7 @@ static void cc1(char *input_file, char *output_file, bool is_asm_pp) {
   FILE *out = open_file(output_file);
   codegen(prog, out);
 
-  if (out == stdout)
-    fflush(out);
-  else
-    fclose(out);
+  close_file(out, output_file);
 }
 
 void run_assembler_gnustyle( StringArray *args, char *input, char *output) {
diff --git a/preprocess.c b/preprocess.c
index 345e2dc..b5a41e3 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1198,8 +1198,11 @@ static Token *embed_file(Token *cont, Token *tok, char *path, Token *start) {
   Token *cur = &head;
   for (; !limit_seq || limit > 0; limit--) {
     unsigned char buf;
-    if (!fread(&buf, 1, sizeof(buf), fp))
+    if (!fread(&buf, 1, sizeof(buf), fp)) {
+      if (ferror(fp))
+        error_tok(start, "%s: cannot read file: %s", path, strerror(errno));
       break;
+    }
 
     if (cur != &head)
       cur = cur->next = make_token(",", start);
diff --git a/tokenize.c b/tokenize.c
index d9f333c..8080ba1 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -874,6 +874,14 @@ static char *read_file(char *path) {
       break;
     fwrite(buf2, 1, n, out);
   }
+  if (ferror(fp)) {
+    int err = errno;
+    if (fp != stdin)
+      fclose(fp);
+    fclose(out);
+    errno = err;
+    return NULL;
+  }
 
   if (fp != stdin)
     fclose(fp);
-- 
2.43.0


From c0d7b9e270af35a0f774dfbb659e7e2f44f067df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 35/42] fix: attributes of the end of the file were not cleared

A declaration that ends at the end of the file followed the allocation
list of the EOF token, which is freed when memory is reclaimed.
---
 preprocess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocess.c b/preprocess.c
index b5a41e3..5e6fa0a 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1968,6 +1968,7 @@ static Token *preprocess3(Token *tok) {
     tok = tok->next;
     continue;
   }
+  tok->attr_next = NULL;
   cur->next = tok;
   return head.next;
 }
-- 
2.43.0


From 2153644034ee2234f1687ee8db18d496307b037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 36/42] fix: an enumeration with a fixed underlying type
 changed that type

"enum E : int { A };" made int unsigned in the rest of the file.
---
 parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 87f36b0..251e5b4 100644
--- a/parse.c
+++ b/parse.c
@@ -1385,7 +1385,9 @@ static Type *enum_specifier(Token **rest, Token *tok) {
   if (first)
     error_tok(tok, "empty enum specifier");
 
-  if (base_ty->kind == TY_INT && !been_negative && !been_unsigned)
+  if (has_type)
+    ; // The underlying type is fixed
+  else if (base_ty->kind == TY_INT && !been_negative && !been_unsigned)
     update_enum_ty(ty, ty_uint, true);
   else if (been_negative && been_unsigned)
     update_enum_ty(ty, ty_first_64bit_int, false);
-- 
2.43.0


From 5c12bfcfc0d1142b0847a83cbd548f3e9b433b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 37/42] fix: a conditional expression merges the qualifiers of
 its pointers

"c ? (int *)p : (const int *)q" had the type of its second operand,
and const was lost when one operand was a pointer to void.
---
 type.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/type.c b/type.c
index 54e542b..0bb6ed9 100644
--- a/type.c
+++ b/type.c
@@ -355,6 +355,24 @@ static void int_promotion(Node **node) {
   }
 }
 
+// Add the qualifiers of q1 and q2 to a pointed-to type.
+static Type *merge_qualifiers(Type *ty, Type *q1, Type *q2) {
+  bool is_atomic = q1->is_atomic || q2->is_atomic;
+  bool is_const = q1->is_const || q2->is_const;
+  bool is_volatile = q1->is_volatile || q2->is_volatile;
+  bool is_restrict = q1->is_restrict || q2->is_restrict;
+
+  if (is_atomic != ty->is_atomic || is_const != ty->is_const ||
+    is_volatile != ty->is_volatile || is_restrict != ty->is_restrict) {
+    ty = new_qualified_type(ty);
+    ty->is_atomic = is_atomic;
+    ty->is_const = is_const;
+    ty->is_volatile = is_volatile;
+    ty->is_restrict = is_restrict;
+  }
+  return ty;
+}
+
 static Type *get_common_type(Node **lhs, Node **rhs, bool handle_ptr) {
   Type *ty1 = (*lhs)->ty;
   Type *ty2 = (*rhs)->ty;
@@ -371,9 +389,8 @@ static Type *get_common_type(Node **lhs, Node **rhs, bool handle_ptr) {
       return array_to_pointer(ty2);
 
     if (ty1->base && ty2->base) {
-      if (is_compatible(ty1->base, ty2->base))
-        return array_to_pointer(ty1);
-      return pointer_to(ty_void);
+      Type *base = is_compatible(ty1->base, ty2->base) ? ty1->base : ty_void;
+      return pointer_to(merge_qualifiers(base, ty1->base, ty2->base));
     }
   }
 
-- 
2.43.0


From b5c1833233ec362c78b96890d87c5c53c034adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 38/42] fix: keep the section attribute intact with
 -fdata-sections

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index dffa36f..b9eb11d 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4052,7 +4052,7 @@ static void emit_data(Obj *var) {
   else
     Printfts(".section .%s", var->init_data ? "data" : "bss");
 
-  if (opt_data_sections)
+  if (opt_data_sections && !var->section_name)
     Printf(".\"%s\"", asm_name(var));
 
   if (var->is_tls)
-- 
2.43.0


From f07669cb3e75025620dbaaf74278091e64529fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 39/42] fix: asm goto skipped restoring clobbered registers
 when jumping

---
 codegen.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/codegen.c b/codegen.c
index b9eb11d..7c96ad1 100644
--- a/codegen.c
+++ b/codegen.c
@@ -3433,7 +3433,14 @@ void prepare_inline_asm(Node *node) {
   if (asm_use.in[REG_BX] || asm_use.out[REG_BX])
     node->alt_frame_ptr2 = acquire_gp(asm_use.in, asm_use.out, node->tok);
 
-  if (node->asm_outputs) {
+  // A jump out of asm goto has to go through whatever follows the body.
+  bool has_epilogue = node->asm_outputs;
+  for (Reg r = REG_R12; r <= REG_BP; r++)
+    has_epilogue |= asm_use.in[r] || asm_use.out[r];
+  for (int i = 0; i < asm_ops.cnt; i++)
+    has_epilogue |= is_x87_reg(asm_ops.data[i]->reg);
+
+  if (node->asm_outputs || (node->asm_labels && has_epilogue)) {
     if (node->alt_frame_ptr && !asm_use.out[REG_BP])
       node->output_tmp_gp = REG_BP;
     else if (node->alt_frame_ptr2 && !asm_use.out[REG_BX])
@@ -3756,7 +3763,7 @@ static void asm_body(Node *node) {
       if (!ap->arg->unique_label)
         error_tok(ap->arg->tok, "not a label");
 
-      if (node->asm_outputs)
+      if (node->output_tmp_gp)
         Printf("%df", ap->label_id);
       else
         Printf("%s", local_label(ap->arg->unique_label));
@@ -3903,8 +3910,8 @@ static void gen_asm(Node *node) {
 
   int fallthrough_label = asm_ops.cnt;
   int meet_label = asm_ops.cnt + 1;
-  bool is_goto_with_output = node->asm_outputs && node->asm_labels;
-  if (is_goto_with_output) {
+  bool is_goto_with_epilogue = node->asm_labels && node->output_tmp_gp;
+  if (is_goto_with_epilogue) {
     char *tmp_gp = regs[node->output_tmp_gp][3];
     Printftn("lea %df(%%rip), %s; jmp %df", fallthrough_label, tmp_gp, meet_label);
     for (AsmParam *ap = node->asm_labels; ap; ap = ap->next) {
@@ -3923,7 +3930,7 @@ static void gen_asm(Node *node) {
   asm_pop_frame_ptr(node, prev_lvar_ptr);
   asm_pop_clobbers(node);
 
-  if (is_goto_with_output) {
+  if (is_goto_with_epilogue) {
     Printstn("pop %%rax");
     Printstn("jmp *%%rax");
     Printftn("%d:", fallthrough_label);
-- 
2.43.0


From e5aaec272ddd0e5cda9df252942cc2aef824da2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 40/42] fix: read flag outputs of asm before storing to
 bitfields

---
 codegen.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/codegen.c b/codegen.c
index 7c96ad1..fe3d1ea 100644
--- a/codegen.c
+++ b/codegen.c
@@ -3251,8 +3251,11 @@ static void asm_constraint(AsmParam *ap, int x87_clobber) {
     bool is_symbolic = false;
 
     if (!strncmp(p, "=@cc", 4)) {
-      ap->kind = ASMOP_FLAG;
       ap->flag = strdup(&p[4]);
+      if (is_bitfield(ap->arg))
+        ap->is_gp = true;
+      else
+        ap->kind = ASMOP_FLAG;
       continue;
     }
     for (; *p; p++) {
@@ -3690,22 +3693,26 @@ static void asm_x87_outputs(Node *node, int in_cnt) {
 static void asm_outputs(Node *node) {
   Reg freereg = node->output_tmp_gp;
 
+  // Storing to bitfields modifies the flags, read these first.
   for (AsmParam *ap = node->asm_outputs; ap; ap = ap->next) {
-    if (ap->kind == ASMOP_REG) {
-      if (is_x87_reg(ap->reg))
-        continue;
-      if (asm_bitfield_out(ap, freereg))
-        continue;
-      asm_reg_output(ap, freereg);
-      continue;
-    }
     if (ap->kind == ASMOP_FLAG) {
       char ofs[STRBUF_SZ], *ptr;
       asm_gen_ptr(ap, ofs, &ptr, freereg);
       if (ap->arg->ty->size != 1)
         Printftn("mov%s $0, %s(%s)", size_suffix(ap->arg->ty->size), ofs, ptr);
       Printftn("set%s %s(%s)", ap->flag, ofs, ptr);
-      continue;
+    } else if (ap->flag) {
+      Printftn("set%s %s", ap->flag, regs[ap->reg][0]);
+      Printftn("movzbl %s, %s", regs[ap->reg][0], regs[ap->reg][2]);
+    }
+  }
+  for (AsmParam *ap = node->asm_outputs; ap; ap = ap->next) {
+    if (ap->kind == ASMOP_REG) {
+      if (is_x87_reg(ap->reg))
+        continue;
+      if (asm_bitfield_out(ap, freereg))
+        continue;
+      asm_reg_output(ap, freereg);
     }
   }
 }
-- 
2.43.0


From d36154372f7d40e6051e0156423cd4eb440676da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 41/42] fix: "+r" with a bit-field loads the field's value

---
 codegen.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/codegen.c b/codegen.c
index fe3d1ea..71e64f6 100644
--- a/codegen.c
+++ b/codegen.c
@@ -3543,6 +3543,14 @@ static void asm_reg_input(AsmParam *ap, Reg tmpreg) {
   char ofs[STRBUF_SZ], *ptr = NULL;
   asm_gen_ptr(ap, ofs, &ptr, tmpreg);
 
+  if (ap->ptr && is_bitfield(ap->arg)) {
+    Member *mem = ap->arg->member;
+    char *val = regs[ap->reg][3];
+    Printftn("mov %s(%s), %s", ofs, ptr, reg_sz(ap->reg, mem->ty->size));
+    Printftn("shl $%d, %s", (64 - mem->bit_width - mem->bit_offset), val);
+    Printftn("%s $%d, %s", mem->ty->is_unsigned ? "shr" : "sar", (64 - mem->bit_width), val);
+    return;
+  }
   if (is_gp_reg(ap->reg)) {
     switch (ap->arg->ty->size) {
     case 1: Printftn("movb %s(%s), %s", ofs, ptr, regs[ap->reg][0]); return;
-- 
2.43.0


From 93355c0f1ce7da38fb84cabc8baf247f2d44ec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 42/42] fix: accept register operands for "ri" constraints

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 71e64f6..b7d47af 100644
--- a/codegen.c
+++ b/codegen.c
@@ -3306,7 +3306,7 @@ static void asm_constraint(AsmParam *ap, int x87_clobber) {
       ap->kind = ASMOP_NUM;
       continue;
     }
-    if (is_symbolic) {
+    if (is_symbolic && !(ap->is_gp || ap->is_mem)) {
       ap->kind = ASMOP_SYMBOLIC;
       continue;
     }
-- 
2.43.0

