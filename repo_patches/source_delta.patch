From c0fc05efbf299d9c6c67ee8c4be184485aa23352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:12 +0000
Subject: [PATCH 01/60] fix: value of an assignment to a bit-field is the value
 stored in the field

---
 src/cc/frontend/fe_misc.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index b97f692..94173db 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1107,7 +1107,8 @@ Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
 }
 
 Expr *assign_to_bitfield(const Token *tok, Expr *lhs, Expr *rhs, const MemberInfo *minfo) {
-  // Transform expression to (ptr = &lhs, val = rhs, *ptr = (*ptr & ~(mask << bitpos)) | ((val & mask) << bitpos), val)
+  // Transform expression to
+  // (ptr = &lhs, val = rhs, *ptr = (*ptr & ~(mask << bitpos)) | ((val & mask) << bitpos), (*ptr >> bitpos) & mask)
 
   Type *type = get_fixnum_type(minfo->bitfield.base_kind, minfo->type->fixnum.is_unsigned, 0);
 
@@ -1122,9 +1123,11 @@ Expr *assign_to_bitfield(const Token *tok, Expr *lhs, Expr *rhs, const MemberInf
 
   Expr *dst = new_expr_unary(EX_DEREF, type, tok, ptr);
   Expr *assign = assign_bitfield_member(tok, dst, dst, val, minfo);
-  return new_expr_bop(EX_COMMA, vtype, tok, ptr_assign,
-                      new_expr_bop(EX_COMMA, vtype, tok, val_assign,
-                                   new_expr_bop(EX_COMMA, vtype, tok, assign, val)));
+  Expr *result = extract_bitfield_value(dst, minfo);
+  Type *rtype = result->type;
+  return new_expr_bop(EX_COMMA, rtype, tok, ptr_assign,
+                      new_expr_bop(EX_COMMA, rtype, tok, val_assign,
+                                   new_expr_bop(EX_COMMA, rtype, tok, assign, result)));
 }
 
 static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, const Token *tok,
-- 
2.43.0


From 6e537dc7605dcc05d95bdb9f520864a72d50cdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:12 +0000
Subject: [PATCH 02/60] fix: compound assignment to a bit-field has the type of
 the field

---
 src/cc/frontend/fe_misc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 94173db..c8662f6 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1640,11 +1640,12 @@ static Expr *transform_assign_with_bitfield(const Token *tok, Expr *lhs, Expr *r
   tmp = calc_assign_with(tok, tmp, rhs);
   Expr *store = assign_bitfield_member(tok, dst, src, tmp, minfo);
 
-  Type *vtype = rhs->type;
+  Expr *result = extract_bitfield_value(dst, minfo);
+  Type *vtype = result->type;
   return new_expr_bop(EX_COMMA, vtype, tok,
                       new_expr_bop(EX_COMMA, vtype, tok, ptr_assign,
                                    new_expr_bop(EX_COMMA, vtype, tok, src_assign, store)),
-                      extract_bitfield_value(dst, minfo));
+                      result);
 }
 #endif
 
-- 
2.43.0


From 3d497aafc006499c0c163017163731d83ca824cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:12 +0000
Subject: [PATCH 03/60] fix: increment and decrement of bit-fields in a wider
 or high storage unit

---
 src/cc/frontend/fe_misc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index c8662f6..894ce8b 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1159,14 +1159,14 @@ static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, cons
   Expr *val_assign, *after;
   if (post) {
     Expr *before = extract_bitfield_value(src, minfo);
-    val_assign = new_expr_bop(EX_ASSIGN, type, tok, val, before);
-    after = new_expr_bop(!dec ? EX_ADD : EX_SUB, type, tok, before, new_expr_fixlit(type, NULL, 1));
+    val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, before);
+    after = new_expr_bop(!dec ? EX_ADD : EX_SUB, vtype, tok, before, new_expr_fixlit(vtype, NULL, 1));
   } else {
     Expr *tmp = extract_bitfield_value(
         new_expr_bop(!dec ? EX_ADD : EX_SUB, type, tok, src,
-                     new_expr_fixlit(type, NULL, 1 << minfo->bitfield.position)),
+                     new_expr_fixlit(type, NULL, (Fixnum)1 << minfo->bitfield.position)),
         minfo);
-    val_assign = new_expr_bop(EX_ASSIGN, type, tok, val, tmp);
+    val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, tmp);
     after = val;
   }
   Expr *store = assign_bitfield_member(tok, dst, src, after, minfo);
-- 
2.43.0


From 8333f91977d4bcae3f0de691cc15febd0ac4781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:33 +0000
Subject: [PATCH 04/60] fix: 64-bit wide bit-fields

---
 src/cc/frontend/ast.h     | 3 +++
 src/cc/frontend/cc_misc.c | 2 +-
 src/cc/frontend/fe_misc.c | 4 ++--
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/ast.h b/src/cc/frontend/ast.h
index 347fb40..a07399d 100644
--- a/src/cc/frontend/ast.h
+++ b/src/cc/frontend/ast.h
@@ -22,6 +22,9 @@ typedef struct Vector Vector;
 typedef int64_t  Fixnum;
 typedef uint64_t UFixnum;
 
+// Mask for a bit-field of `width` bits (1 ~ 64).
+#define BITFIELD_MASK(width)  (~(UFixnum)0 >> (64 - (width)))
+
 #ifndef __NO_FLONUM
 typedef long double Flonum;
 #endif
diff --git a/src/cc/frontend/cc_misc.c b/src/cc/frontend/cc_misc.c
index f0be4f0..c355b3a 100644
--- a/src/cc/frontend/cc_misc.c
+++ b/src/cc/frontend/cc_misc.c
@@ -86,7 +86,7 @@ static Fixnum calc_bitfield_initial_value(const StructInfo *sinfo, const Initial
       continue;  // 0
     assert(mem_init->kind == IK_SINGLE && mem_init->single->kind == EX_FIXNUM);
 
-    Fixnum mask = (1LL << member->bitfield.width) - 1;
+    Fixnum mask = BITFIELD_MASK(member->bitfield.width);
     x |= (mem_init->single->fixnum & mask) << member->bitfield.position;
   }
   *pi = i - 1;
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 894ce8b..552eba9 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1071,7 +1071,7 @@ Expr *extract_bitfield_value(Expr *src, const MemberInfo *minfo) {
     if (minfo->bitfield.position > 0)
       tmp = new_expr_bop(EX_RSHIFT, tmp->type, tmp->token, tmp,
                          new_expr_fixlit(tmp->type, tmp->token, minfo->bitfield.position));
-    UFixnum mask = ((UFixnum)1 << minfo->bitfield.width) - 1;
+    UFixnum mask = BITFIELD_MASK(minfo->bitfield.width);
     tmp = new_expr_bop(EX_BITAND, tmp->type, tmp->token, tmp,
                        new_expr_fixlit(tmp->type, tmp->token, mask));
   } else {
@@ -1093,7 +1093,7 @@ Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
   Type *type = dst->type;
   Type *vtype = val->type;
 
-  UFixnum mask = ((UFixnum)1 << minfo->bitfield.width) - 1;
+  UFixnum mask = BITFIELD_MASK(minfo->bitfield.width);
   Expr *val_masked = new_expr_bop(EX_BITAND, vtype, tok, val, new_expr_fixlit(vtype, tok, mask));
   val_masked = make_cast(type, tok, val_masked, false);
   if (minfo->bitfield.position > 0)
-- 
2.43.0


From 2f02785ffff644ff63ee90a444aeae8d699581e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:45 +0000
Subject: [PATCH 05/60] fix: _Bool bit-fields

---
 src/cc/frontend/fe_misc.c | 2 +-
 src/cc/frontend/type.c    | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 552eba9..9687e61 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1098,7 +1098,7 @@ Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
   val_masked = make_cast(type, tok, val_masked, false);
   if (minfo->bitfield.position > 0)
     val_masked = new_expr_bop(EX_LSHIFT, type, tok, val_masked,
-                              new_expr_fixlit(vtype, tok, minfo->bitfield.position));
+                              new_expr_fixlit(type, tok, minfo->bitfield.position));
   val_masked = make_cast(type, tok, val_masked, false);
   Expr *src_masked = new_expr_bop(EX_BITAND, type, tok, src,
                                   new_expr_fixlit(type, tok, ~(mask << minfo->bitfield.position)));
diff --git a/src/cc/frontend/type.c b/src/cc/frontend/type.c
index 912887f..ebf20c4 100644
--- a/src/cc/frontend/type.c
+++ b/src/cc/frontend/type.c
@@ -68,6 +68,8 @@ static size_t calc_bitfield_size(StructInfo *sinfo, int *pi, size_t size, size_t
       kind = minfo->type->fixnum.kind;
       if (kind == FX_ENUM)
         kind = FX_INT;
+      else if (kind == FX_BOOL)
+        kind = FX_CHAR;
     } else {
       // Detect LSB.
       ssize_t s;
-- 
2.43.0


From 8a7ae9bbbe2b49b491326d9b8d2b3568cf0eb584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:52 +0000
Subject: [PATCH 06/60] fix: type of a conditional expression follows the usual
 arithmetic conversions

---
 src/cc/frontend/fe_misc.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 9687e61..b975e50 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1574,22 +1574,23 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
   } else if (ftype->kind == TY_PTR) {
     return choose_ternary_result_type(fval, tval);  // Make ttype to pointer, and check again.
   } else if (is_number(ttype) && is_number(ftype)) {
+    // Usual arithmetic conversions.
     if (is_flonum(ttype)) {
-      // TODO: Choose lager one.
-      // if (is_flonum(ftype)) {
-      //   return ttype;
-      // }
+      if (is_flonum(ftype) && ftype->flonum.kind > ttype->flonum.kind)
+        return ftype;
       return ttype;
     } else if (is_flonum(ftype)) {
       return ftype;
     }
     assert(is_fixnum(ttype->kind));
     assert(is_fixnum(ftype->kind));
-    if (ttype->fixnum.kind >= FX_ENUM)
+    if (ttype->fixnum.kind < FX_INT || ttype->fixnum.kind >= FX_ENUM)
       ttype = &tyInt;
-    if (ftype->fixnum.kind >= FX_ENUM)
+    if (ftype->fixnum.kind < FX_INT || ftype->fixnum.kind >= FX_ENUM)
       ftype = &tyInt;
-    return ttype->fixnum.kind > ftype->fixnum.kind ? ttype : ftype;
+    int t = (type_size(ttype) << 1) | (ttype->fixnum.is_unsigned ? 1 : 0);
+    int f = (type_size(ftype) << 1) | (ftype->fixnum.is_unsigned ? 1 : 0);
+    return t >= f ? ttype : ftype;
   }
   return NULL;
 }
-- 
2.43.0


From 3dc3b4b9e8c8d164f71cd5f95b0ae6e3d4e7c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:51 +0000
Subject: [PATCH 07/60] fix: constant left operand in folding of integer
 operators

---
 src/cc/frontend/fe_misc.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index b975e50..654d8df 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -872,15 +872,13 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           break;
         }
 #endif
-        Fixnum lval = rhs->fixnum;
+        Fixnum lval = lhs->fixnum;
         switch (kind) {
         case EX_MUL:
           if (lval == 0)
             return new_expr_bop(EX_COMMA, lhs->type, tok, rhs, lhs);  // 0
           if (lval == -1)
             return new_expr_unary(EX_NEG, rhs->type, rhs->token, rhs);  // -rhs
-          // Fallthrough.
-        case EX_DIV:
           if (lval == 1)
             return rhs;  // no effect.
           break;
-- 
2.43.0


From 604f42bed1aadde965df4c445dd9f12478934b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:51 +0000
Subject: [PATCH 08/60] fix: multiplication by floating zero is not always zero

---
 src/cc/frontend/fe_misc.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 654d8df..42d5996 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -814,8 +814,6 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           Flonum rval = rhs->flonum;
           switch (kind) {
           case EX_MUL:
-            if (rval == 0.0)
-              return new_expr_bop(EX_COMMA, rhs->type, tok, lhs, rhs);  // 0.0
             if (rval == -1.0)
               return new_expr_unary(EX_NEG, lhs->type, lhs->token, lhs);  // -lhs
             // Fallthrough.
@@ -860,8 +858,6 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           Flonum lval = lhs->flonum;
           switch (kind) {
           case EX_MUL:
-            if (lval == 0.0)
-              return new_expr_bop(EX_COMMA, lhs->type, tok, rhs, lhs);  // 0.0
             if (lval == 1.0)
               return rhs;  // no effect.
             if (lval == -1.0)
-- 
2.43.0


From bb4638cdebf7b731359aef5e00edb094fa02e959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 09/60] fix: negation of a floating comparison with NaN

---
 src/cc/frontend/fe_misc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 42d5996..04b9575 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1334,6 +1334,8 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
           p->kind = (EX_EQ + EX_NE) - p->kind;  // EQ <-> NE
         return p;
       case EX_LT: case EX_LE: case EX_GE: case EX_GT:
+        if (k == EX_EQ && is_flonum(p->bop.lhs->type))
+          break;  // Inverted comparison differs for NaN.
         if (k == EX_EQ)
           p->kind = EX_LT + ((p->kind - EX_LT) ^ 2);  // LT <-> GE, LE <-> GT
         return p;
-- 
2.43.0


From 3df5bd18e267c22645cd55eee0d3b891e5db426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:17 +0000
Subject: [PATCH 10/60] fix: precision of floating literals and constants

---
 src/cc/frontend/ast.c     | 3 ++-
 src/cc/frontend/fe_misc.c | 3 +--
 src/cc/frontend/lexer.c   | 7 +++----
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cc/frontend/ast.c b/src/cc/frontend/ast.c
index d71075a..5ce29e5 100644
--- a/src/cc/frontend/ast.c
+++ b/src/cc/frontend/ast.c
@@ -100,7 +100,8 @@ Expr *new_expr_fixlit(Type *type, const Token *token, Fixnum fixnum) {
 Expr *new_expr_flolit(Type *type, const Token *token, Flonum flonum) {
   assert(type->kind == TY_FLONUM);
   Expr *expr = new_expr(EX_FLONUM, type, token);
-  expr->flonum = flonum;
+  // Hold the value which the type can represent (long double in XCC is same as double).
+  expr->flonum = type->flonum.kind == FL_FLOAT ? (float)flonum : (double)flonum;
   return expr;
 }
 #endif
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 04b9575..4e8b2e6 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -363,8 +363,7 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
         return new_expr_fixlit(type, sub->token, fixnum);
       }
       assert(type->kind == TY_FLONUM);
-      sub->type = type;
-      return sub;
+      return new_expr_flolit(type, sub->token, sub->flonum);
     case EX_FIXNUM:
       if (type->kind == TY_FLONUM) {
         Flonum flonum = (sub->type->kind != TY_FIXNUM || sub->type->fixnum.is_unsigned)
diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index c466523..2a6a7b9 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -393,17 +393,16 @@ static const char *skip_whitespace_or_comment(const char *p) {
 static Token *read_flonum(const char **pp, int base) {
   const char *start = *pp;
   char *next;
-#ifdef __XCC
   // long double in XCC is same as double, and if the target platform uses
   // system library, it makes discrepancy.
   Flonum val = strtod(start, &next);
-#else
-  Flonum val = strtold(start, &next);
-#endif
   enum TokenKind tk = TK_DOUBLELIT;
   switch (tolower(*next)) {
   case 'f':
     tk = TK_FLOATLIT;
+#ifndef __XCC
+    val = strtof(start, NULL);  // Avoid double rounding.
+#endif
     ++next;
     break;
   case 'l':
-- 
2.43.0


From 6917adf873a51e6634506e5c2f35f3aed64ed8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:17 +0000
Subject: [PATCH 11/60] fix: conversion from unsigned int to floating type on
 x64

---
 src/cc/arch/x64/ir_x64.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cc/arch/x64/ir_x64.c b/src/cc/arch/x64/ir_x64.c
index 257d166..eea40ba 100644
--- a/src/cc/arch/x64/ir_x64.c
+++ b/src/cc/arch/x64/ir_x64.c
@@ -683,6 +683,7 @@ static void ei_cast(IR *ir) {
         }
       } else if (pows < 3) {
         const char *s64 = kReg64s[ir->opr1->phys];
+        MOV(s, s);  // Upper 32 bits are unspecified, so clear them.
         switch (ir->dst->vsize) {
         case SZ_FLOAT:   CVTSI2SS(s64, d); break;
         case SZ_DOUBLE:  CVTSI2SD(s64, d); break;
-- 
2.43.0


From 54fb0de8103f14faf0a81bea2bdf1da4aa34ade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:17 +0000
Subject: [PATCH 12/60] fix: rounding of unsigned long to floating type on x64

---
 src/cc/arch/x64/ir_x64.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cc/arch/x64/ir_x64.c b/src/cc/arch/x64/ir_x64.c
index eea40ba..b966d89 100644
--- a/src/cc/arch/x64/ir_x64.c
+++ b/src/cc/arch/x64/ir_x64.c
@@ -691,8 +691,9 @@ static void ei_cast(IR *ir) {
         }
       } else {
         // x64 support signed 64bit-signed-int to double only, so pass half value
-        // (precision is lost anyway).
+        // (keep the lowest bit sticky to be rounded correctly).
         const Name *neglabel = alloc_label();
+        const Name *evenlabel = alloc_label();
         const Name *skiplabel = alloc_label();
         TEST(s, s);
         JS(fmt_name(neglabel));
@@ -706,6 +707,9 @@ static void ei_cast(IR *ir) {
         PUSH(RAX);  // Push %rax to avoid Break
         MOV(s, RAX);
         SHR(IM(1), RAX);
+        JAE(fmt_name(evenlabel));
+        OR(IM(1), RAX);
+        EMIT_LABEL(fmt_name(evenlabel));
         switch (ir->dst->vsize) {
         case SZ_FLOAT:   CVTSI2SS(RAX, d); ADDSS(d, d); break;
         case SZ_DOUBLE:  CVTSI2SD(RAX, d); ADDSD(d, d); break;
-- 
2.43.0


From bb172118dbe091623ac8b1884b414f2bc807d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:17 +0000
Subject: [PATCH 13/60] fix: conversion from floating type to unsigned integers
 on x64

---
 src/cc/arch/x64/ir_x64.c  | 4 +---
 src/cc/frontend/fe_misc.c | 8 ++++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/cc/arch/x64/ir_x64.c b/src/cc/arch/x64/ir_x64.c
index b966d89..67a5400 100644
--- a/src/cc/arch/x64/ir_x64.c
+++ b/src/cc/arch/x64/ir_x64.c
@@ -722,9 +722,7 @@ static void ei_cast(IR *ir) {
   } else if (ir->opr1->flag & VRF_FLONUM) {
     assert(!(ir->opr1->flag & VRF_CONST));
     // flonum->fix
-    int powd = ir->dst->vsize;
-    if (powd < 2)
-      powd = 2;
+    const int powd = 3;  // Use 64 bits to cover the range of unsigned int.
     switch (ir->opr1->vsize) {
     case SZ_FLOAT:   CVTTSS2SI(kFReg64s[ir->opr1->phys], kRegSizeTable[powd][ir->dst->phys]); break;
     case SZ_DOUBLE:  CVTTSD2SI(kFReg64s[ir->opr1->phys], kRegSizeTable[powd][ir->dst->phys]); break;
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 4e8b2e6..17e3461 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -398,11 +398,11 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
   if (is_flonum(sub->type) &&
       is_fixnum(type->kind) && type->fixnum.is_unsigned && dst_size >= 8) {
     // Transform from (uint64_t)flonum
-    //   to: (flonum <= INT64_MAX) ? (int64_t)flonum
-    //                             : ((int64_t)(flonum - (INT64_MAX + 1UL)) ^ (1L << 63))
+    //   to: (flonum < INT64_MAX + 1UL) ? (int64_t)flonum
+    //                                  : ((int64_t)(flonum - (INT64_MAX + 1UL)) ^ (1L << 63))
     Type *i64t = get_fixnum_type_from_size(dst_size);
-    Expr *cond = new_expr_bop(EX_LE, &tyBool, token, sub,
-                              new_expr_flolit(sub->type, sub->token, INT64_MAX));
+    Expr *cond = new_expr_bop(EX_LT, &tyBool, token, sub,
+                              new_expr_flolit(sub->type, sub->token, (uint64_t)INT64_MAX + 1UL));
     Expr *offsetted = new_expr_addsub(
         EX_SUB, token, sub,
         new_expr_flolit(sub->type, sub->token, (uint64_t)INT64_MAX + 1UL));
-- 
2.43.0


From 468699805a0253eeb7f512666b5113ce47e2f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:32 +0000
Subject: [PATCH 14/60] fix: type of folded constant additions and subtractions

---
 src/cc/frontend/fe_misc.c | 34 ++++++----------------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 17e3461..11a4a93 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -918,11 +918,13 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
   assert(ltype != NULL);
   assert(rtype != NULL);
   if (is_number(ltype) && is_number(rtype)) {
+    cast_numbers(&lhs, &rhs, true);
+    type = lhs->type;
     if (is_const(lhs) && is_const(rhs)) {
 #ifndef __NO_FLONUM
-      if (is_flonum(lhs->type) || is_flonum(rhs->type)) {
-        Flonum lval = is_flonum(lhs->type) ? lhs->flonum : lhs->fixnum;
-        Flonum rval = is_flonum(rhs->type) ? rhs->flonum : rhs->fixnum;
+      if (is_flonum(type)) {
+        Flonum lval = lhs->flonum;
+        Flonum rval = rhs->flonum;
         Flonum value;
         switch (kind) {
         case EX_ADD:     value = lval + rval; break;
@@ -932,27 +934,9 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
           value = -1;  // Dummy
           break;
         }
-        Type *type = lhs->type;
-        if (is_flonum(rhs->type))
-          type = rhs->type;
-        if (is_flonum(type)) {
-          return new_expr_flolit(type, lhs->token, value);
-        } else {
-          Fixnum fixnum = value;
-          return new_expr_fixlit(type, lhs->token, fixnum);
-        }
+        return new_expr_flolit(type, lhs->token, value);
       }
 #endif
-      enum FixnumKind lnt = ltype->fixnum.kind;
-      enum FixnumKind rnt = rtype->fixnum.kind;
-      if (lnt >= FX_ENUM) {
-        ltype = &tyInt;
-        lnt = FX_INT;
-      }
-      if (rnt >= FX_ENUM) {
-        rtype = &tyInt;
-        rnt = FX_INT;
-      }
 
       Fixnum lval = lhs->fixnum;
       Fixnum rval = rhs->fixnum;
@@ -965,15 +949,9 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
         value = -1;
         break;
       }
-      Type *type = lnt >= rnt ? ltype : rtype;
-      if (type->fixnum.kind < FX_INT)
-        type = &tyInt;
       return new_expr_fixlit(type, lhs->token,
                              wrap_value(value, type_size(type), type->fixnum.is_unsigned));
     }
-
-    cast_numbers(&lhs, &rhs, true);
-    type = lhs->type;
   } else if (ptr_or_array(ltype)) {
     if (is_fixnum(rtype->kind)) {
       type = ltype;
-- 
2.43.0


From 92e949295d67ed36b4c7abe4c2e7910063ed7614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:35 +0000
Subject: [PATCH 15/60] fix: conversion of a floating expression to unsigned
 long evaluates it once

---
 src/cc/frontend/fe_misc.c     | 9 +++++++++
 src/cc/frontend/parser_expr.c | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 11a4a93..1eb40d5 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -401,6 +401,13 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
     //   to: (flonum < INT64_MAX + 1UL) ? (int64_t)flonum
     //                                  : ((int64_t)(flonum - (INT64_MAX + 1UL)) ^ (1L << 63))
     Type *i64t = get_fixnum_type_from_size(dst_size);
+    Expr *assign = NULL;
+    if (sub->kind != EX_VAR && !is_global_scope(curscope)) {
+      // Evaluate the operand only once.
+      Expr *tmp = alloc_tmp_var(curscope, sub->type);
+      assign = new_expr_bop(EX_ASSIGN, tmp->type, token, tmp, sub);
+      sub = tmp;
+    }
     Expr *cond = new_expr_bop(EX_LT, &tyBool, token, sub,
                               new_expr_flolit(sub->type, sub->token, (uint64_t)INT64_MAX + 1UL));
     Expr *offsetted = new_expr_addsub(
@@ -409,6 +416,8 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
     Expr *xorred = new_expr_bop(EX_BITXOR, i64t, token, make_cast(i64t, token, offsetted, false),
                                 new_expr_fixlit(i64t, token, (uint64_t)1 << 63));
     sub = new_expr_ternary(token, cond, make_cast(i64t, token, sub, false), xorred, i64t);
+    if (assign != NULL)
+      sub = new_expr_bop(EX_COMMA, i64t, token, assign, sub);
   }
 #endif
 
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 7e23cf1..9349111 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -644,7 +644,8 @@ static Expr *lparen(Token *tok) {
   // Do not reduce cast expression using `make_cast`
   // because it ignores `(int)x = 1`.
 
-  if (type->kind != TY_VOID && is_const(sub))
+  if ((type->kind != TY_VOID && is_const(sub)) ||
+      (is_fixnum(type->kind) && is_flonum(sub->type)))
     return make_cast(type, token, sub, true);
   return sub->type->kind != TY_VOID ? new_expr_cast(type, token, sub) : sub;
 }
-- 
2.43.0


From db825a8006acdb2f47e66efc3125fdd7389a96c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:56 +0000
Subject: [PATCH 16/60] fix: constant subtraction and division in assembler
 expressions

---
 src/as/parse_asm.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 3f9d160..3f09ad0 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -509,7 +509,13 @@ static Expr *parse_mul(ParseInfo *info) {
     if (lhs->kind == EX_FIXNUM && rhs->kind == EX_FIXNUM) {
       switch (tok->kind) {
       case TK_MUL:  lhs->fixnum *= rhs->fixnum; break;
-      case TK_DIV:  lhs->fixnum += rhs->fixnum; break;
+      case TK_DIV:
+        if (rhs->fixnum == 0) {
+          parse_error(info, "division by zero");
+          break;
+        }
+        lhs->fixnum /= rhs->fixnum;
+        break;
       default:  assert(false); break;
       }
     } else {
@@ -539,7 +545,7 @@ static Expr *parse_add(ParseInfo *info) {
     if (lhs->kind == EX_FIXNUM && rhs->kind == EX_FIXNUM) {
       switch (tok->kind) {
       case TK_ADD:  lhs->fixnum += rhs->fixnum; break;
-      case TK_SUB:  lhs->fixnum += rhs->fixnum; break;
+      case TK_SUB:  lhs->fixnum -= rhs->fixnum; break;
       default:  assert(false); break;
       }
     } else {
-- 
2.43.0


From 107dfd455103840c012e309e232517e32060db6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:56 +0000
Subject: [PATCH 17/60] fix: escape sequences of wide character literals

---
 src/cc/frontend/lexer.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index 2a6a7b9..a110e0f 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -173,7 +173,7 @@ static int backslash(int c, bool is_wide, const char **pp) {
   case '1': case '2': case '3': case '4': case '5': case '6': case '7':
     {
       const char *p = *pp + 1;
-      char vv = c - '0';
+      int vv = c - '0';
       for (int i = 0, n = is_wide ? 11 : 2; i < n; ++i, ++p) {
         char c2 = *p;
         if (!isoctal(c2))
@@ -181,12 +181,12 @@ static int backslash(int c, bool is_wide, const char **pp) {
         vv = (vv << 3) | (c2 - '0');
       }
       *pp = p - 1;
-      return vv;
+      return is_wide ? vv : (char)vv;
     }
   case 'x':
     {
       const char *p = *pp + 1;
-      char vv = 0;
+      int vv = 0;
       for (int i = 0, n = is_wide ? 8 : 2; i < n; ++i, ++p) {
         int v = xvalue(*p);
         if (v < 0)
@@ -194,7 +194,7 @@ static int backslash(int c, bool is_wide, const char **pp) {
         vv = (vv << 4) | v;
       }
       *pp = p - 1;
-      return vv;
+      return is_wide ? vv : (char)vv;
     }
   case 'a':  return '\a';
   case 'b':  return '\b';
-- 
2.43.0


From 9c0e6ae961b1a2f62cc9f1bc185af75c199a2b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:24 +0000
Subject: [PATCH 18/60] fix: accept the question mark escape sequence

---
 src/cc/frontend/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index a110e0f..1ab6110 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -207,7 +207,7 @@ static int backslash(int c, bool is_wide, const char **pp) {
   default:
     lex_error(*pp, "Illegal escape");
     // Fallthrough
-  case '\'': case '"': case '\\':
+  case '\'': case '"': case '\\': case '?':
     return c;
   }
 }
-- 
2.43.0


From 800999df36ad232216524cf32432748f7d746505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:56 +0000
Subject: [PATCH 19/60] fix: order of case values in a switch over 64-bit
 integers

---
 src/cc/backend/codegen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cc/backend/codegen.c b/src/cc/backend/codegen.c
index 5e26fe7..a7c781b 100644
--- a/src/cc/backend/codegen.c
+++ b/src/cc/backend/codegen.c
@@ -391,8 +391,10 @@ static int compare_cases(const void *pa, const void *pb) {
     return 1;
   if (cb->case_.value == NULL)
     return -1;
-  Fixnum d = ca->case_.value->fixnum - cb->case_.value->fixnum;
-  return d > 0 ? 1 : d < 0 ? -1 : 0;
+  Fixnum va = ca->case_.value->fixnum, vb = cb->case_.value->fixnum;
+  if (is_unsigned(ca->case_.value->type))
+    return (UFixnum)va > (UFixnum)vb ? 1 : (UFixnum)va < (UFixnum)vb ? -1 : 0;
+  return va > vb ? 1 : va < vb ? -1 : 0;
 }
 
 static void gen_switch_cond_table_jump(Stmt *swtch, VReg *vreg, Stmt **cases, int len, int cond_flag) {
-- 
2.43.0


From 916fff35fb5b3309dde8df7643e83c2bb5f9b657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:08 +0000
Subject: [PATCH 20/60] fix: integer promotion of the controlling expression of
 a switch

---
 src/cc/frontend/parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 8430c04..f9b52a7 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -344,6 +344,8 @@ static Stmt *parse_switch(const Token *tok) {
   Expr *value = parse_expr();
   mark_var_used(value);
   not_void(value->type, value->token);
+  if (is_fixnum(value->type->kind))
+    value = promote_to_int(value);
   consume(TK_RPAR, "`)' expected");
 
   Stmt *stmt = new_stmt_switch(tok, value);
@@ -382,10 +384,9 @@ static Stmt *parse_case(const Token *tok) {
   }
 
   if (value != NULL) {
+    value = make_cast(swtch->switch_.value->type, value->token, value, false);
     if (find_case(swtch, value->fixnum) >= 0) {
       parse_error(PE_NOFATAL, tok, "Case value `%" PRId64 "' already defined", value->fixnum);
-    } else {
-      value = make_cast(swtch->switch_.value->type, value->token, value, false);
     }
   } else {
     if (swtch->switch_.default_ != NULL) {
-- 
2.43.0


From 8e4e1f5964a5bb2f446a4cd07da2a5074e82a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:54 +0000
Subject: [PATCH 21/60] fix: local char array initialized with a string of just
 its length

---
 src/cc/frontend/initializer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index c2260f3..2bcaee0 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -153,7 +153,7 @@ static Stmt *init_char_array_by_string(Expr *dst, Initializer *src, const Token
   Expr *var = new_expr_variable(varinfo->ident->ident, strtype, NULL, curscope);
   assert(str->type->kind == TY_ARRAY);
   mark_var_used(var);
-  return build_memcpy(dst, var, len * type_size(str->type->pa.ptrof));
+  return build_memcpy(dst, var, MIN(len, dstlen) * type_size(str->type->pa.ptrof));
 }
 
 typedef struct {
-- 
2.43.0


From 764acef6e494a3c26d1a0efa71f2fcf3f9c096ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:55 +0000
Subject: [PATCH 22/60] fix: static floating object initialized with unsigned
 constant

---
 src/cc/frontend/initializer.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 2bcaee0..e5a2e90 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -635,12 +635,8 @@ static Initializer *check_global_initializer(Type *type, Initializer *init) {
     if (init->kind == IK_SINGLE) {
       switch (init->single->kind) {
       case EX_FIXNUM:
-        {
-          Fixnum fixnum = init->single->fixnum;
-          init->single = new_expr_flolit(type, init->single->token, fixnum);
-        }
-        // Fallthrough
       case EX_FLONUM:
+        init->single = make_cast(type, init->single->token, init->single, false);
         return init;
       default:
         parse_error(PE_NOFATAL, init->single->token, "Constant expression expected");
-- 
2.43.0


From 9f21f1656556d37b3a34cd90ba99c827d1fdc3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:50 +0000
Subject: [PATCH 23/60] fix: character constants have type int

---
 src/cc/frontend/parser_expr.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 9349111..4162c8a 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -267,13 +267,7 @@ static Expr *literal(Token *tok) {
       enum FixnumKind fx;
       bool u = flag & TKF_UNSIGNED;
       if (flag & TKF_CHAR) {
-#ifndef __NO_WCHAR
-        static const enum FixnumKind kCharTable[] = { FX_CHAR, FX_INT };
-        assert(long_count < (int)ARRAY_SIZE(kCharTable));
-        fx = kCharTable[long_count];
-#else
-        fx = FX_CHAR;
-#endif
+        fx = FX_INT;
       } else {
         static const enum FixnumKind kFxTable[] = { FX_INT, FX_LONG, FX_LLONG };
         assert(long_count < (int)ARRAY_SIZE(kFxTable));
-- 
2.43.0


From 290897e086e4042d8207ec6d5e10ce7cf55926b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:10 +0000
Subject: [PATCH 24/60] fix: integer promotion of unsigned bit-fields narrower
 than int

---
 src/cc/frontend/fe_misc.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 1eb40d5..5b459f3 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -446,7 +446,24 @@ const MemberInfo *search_from_anonymous(const Type *type, const Name *name, cons
   return NULL;
 }
 
+static bool is_narrow_bitfield(const Expr *expr) {
+#ifndef __NO_BITFIELD
+  // Bit-field whose all values are representable in int.
+  if (expr->kind == EX_MEMBER && expr->member.info->bitfield.active) {
+    const MemberInfo *minfo = expr->member.info;
+    return is_fixnum(expr->type->kind) && expr->type->fixnum.is_unsigned &&
+           expr->type->fixnum.kind == FX_INT &&
+           minfo->bitfield.width < (int)type_size(&tyInt) * TARGET_CHAR_BIT;
+  }
+#endif
+  return false;
+}
+
 static bool cast_numbers(Expr **pLhs, Expr **pRhs, bool make_int) {
+  if (is_narrow_bitfield(*pLhs))
+    *pLhs = make_cast(&tyInt, (*pLhs)->token, *pLhs, false);
+  if (is_narrow_bitfield(*pRhs))
+    *pRhs = make_cast(&tyInt, (*pRhs)->token, *pRhs, false);
   Expr *lhs = *pLhs;
   Expr *rhs = *pRhs;
   Type *ltype = lhs->type;
@@ -748,7 +765,7 @@ Expr *make_refer(const Token *tok, Expr *expr) {
 Expr *promote_to_int(Expr *expr) {
   assert(expr->type->kind == TY_FIXNUM);
   enum FixnumKind kind = expr->type->fixnum.kind;
-  if (kind >= FX_INT && kind <= FX_LLONG)
+  if (kind >= FX_INT && kind <= FX_LLONG && !is_narrow_bitfield(expr))
     return expr;
   return make_cast(&tyInt, expr->token, expr, false);
 }
-- 
2.43.0


From 534b76b739619500e002c7ae53d2b1903d372610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:15 +0000
Subject: [PATCH 25/60] fix: floating conditions are not inverted in the SSA
 form

---
 src/cc/backend/ssa.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/cc/backend/ssa.c b/src/cc/backend/ssa.c
index d95b630..7a95866 100644
--- a/src/cc/backend/ssa.c
+++ b/src/cc/backend/ssa.c
@@ -222,7 +222,24 @@ static int insert_unconditional_bb(BBContainer *bbcon, int ito, int ifrom, IR* l
   case IR_JMP:
     if (last->jmp.bb == to) {
       assert(last->jmp.cond != COND_ANY);
-      if (fallthrough) {
+      if (fallthrough && (last->jmp.cond & COND_FLONUM)) {
+        // Floating condition cannot be inverted because of NaN: Jump over the BB instead.
+        BB *skip = new_bb();
+        BB *next = from->next;
+        vec_push(skip->irs, new_ir_jmp(next));
+        vec_push(skip->from_bbs, from);
+        for (int i = 0; i < next->from_bbs->len; ++i) {
+          if (next->from_bbs->data[i] == from)
+            next->from_bbs->data[i] = skip;
+        }
+        vec_insert(bbcon, ifrom + 1, skip);
+        from->next = skip;
+        skip->next = next;
+        if (ito > ifrom)
+          ++ito;
+        at = ifrom + 2;
+        last->jmp.bb = bb;
+      } else if (fallthrough) {
         last->jmp.bb = from->next;
         last->jmp.cond = invert_cond(last->jmp.cond);
       } else {
@@ -263,11 +280,10 @@ static int insert_unconditional_bb(BBContainer *bbcon, int ito, int ifrom, IR* l
   return at;
 }
 
-static int make_from_bb_unconditional(BBContainer *bbcon, int ibb, int ifb) {
+static void make_from_bb_unconditional(BBContainer *bbcon, int ibb, int ifb) {
   BB *bb = bbcon->data[ibb];
   assert(ifb < bb->from_bbs->len);
   BB *from = bb->from_bbs->data[ifb];
-  int at = INT_MAX;
   int pos = from->irs->len;
   if (pos > 0) {
     IR *last = from->irs->data[pos - 1];
@@ -278,13 +294,12 @@ static int make_from_bb_unconditional(BBContainer *bbcon, int ibb, int ifb) {
           break;
       }
       assert(ifrom < bbcon->len);
-      at = insert_unconditional_bb(bbcon, ibb, ifrom, last);
+      int at = insert_unconditional_bb(bbcon, ibb, ifrom, last);
 
       // Replace from_bbs with inserted one.
       bb->from_bbs->data[ifb] = bbcon->data[at];
     }
   }
-  return at;
 }
 
 static Vector *extract_cyclic_dependency(int ifb, Vector *phis) {
@@ -432,10 +447,9 @@ void resolve_phis(RegAlloc *ra, BBContainer *bbcon) {
       continue;
 
     for (int ifb = 0; ifb < bb->from_bbs->len; ++ifb) {
-      int at = make_from_bb_unconditional(bbcon, ibb, ifb);
-      if (at <= ibb) {  // Inserted before this BB.
+      make_from_bb_unconditional(bbcon, ibb, ifb);
+      while (bbcon->data[ibb] != bb)  // Inserted before this BB.
         ++ibb;
-      }
 
       replace_phis(ra, bb, ifb, phis);
     }
-- 
2.43.0


From d3c0cb6454ee2956614008894b7650d6b130b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:35 +0000
Subject: [PATCH 26/60] fix: sequentialize SSA phi moves correctly

---
 src/cc/backend/ssa.c | 149 +++++++++++++------------------------------
 1 file changed, 43 insertions(+), 106 deletions(-)

diff --git a/src/cc/backend/ssa.c b/src/cc/backend/ssa.c
index 7a95866..83cf44d 100644
--- a/src/cc/backend/ssa.c
+++ b/src/cc/backend/ssa.c
@@ -302,83 +302,11 @@ static void make_from_bb_unconditional(BBContainer *bbcon, int ibb, int ifb) {
   }
 }
 
-static Vector *extract_cyclic_dependency(int ifb, Vector *phis) {
-  // Check destination register dependency.
-  int n = phis->len;
-  for (int i = 0; i < n; ++i) {
-    Phi *phi = phis->data[i];
-    assert(ifb < phi->params->len);
-    VReg *src = phi->params->data[ifb];
-    // Find that src is one of predecessor destination vreg.
-    int j;
-    for (j = 0; j < i; ++j) {
-      Phi *phi2 = phis->data[j];
-      if (phi2->dst == src)
-        break;
-    }
-    if (j >= i)
-      continue;
-
-    // Move i before j: shift intermediate elements.
-    int d = i - j;
-    memmove(&phis->data[j + 1], &phis->data[j], d * sizeof(*phis->data));
-    phis->data[j] = phi;
-    ++i;
-  }
-
-  // Detect cyclic dependency.
-  Vector *cyclics = NULL;
-  for (int i = 0; i < n; ++i) {
-    Phi *phi = phis->data[i];
-    VReg *src = phi->params->data[ifb];
-    // Find that src is one of predecessor destination vreg.
-    int j;
-    for (j = 0; j < i; ++j) {
-      Phi *phi2 = phis->data[j];
-      if (phi2->dst == src)
-        break;
-    }
-    if (j >= i)
-      continue;
-
-    // Destination is dependent on predecessor: Pick up cyclic dependency to `cyclic`.
-    Vector *cyclic = new_vector();
-    for (;;) {
-      Phi *phi2 = phis->data[j];
-      vec_push(cyclic, phi2);
-      phis->data[j] = NULL;
-      if (j >= i)
-        break;
-
-      VReg *src2 = phi2->params->data[ifb];
-      while (++j < i) {
-        Phi *phi3 = phis->data[j];
-        if (phi3->dst == src2)
-          break;
-      }
-    }
-    assert(cyclic->len >= 2);
-
-    if (cyclics == NULL)
-      cyclics = new_vector();
-    vec_push(cyclics, cyclic);
-
-    // Eliminate them from phis.
-    for (int k = 0; k < n; ++k) {
-      if (phis->data[k] == NULL) {
-        phis->data[k] = phis->data[--n];
-        phis->data[n] = NULL;
-      }
-    }
-    for (; n > 0 && phis->data[n - 1] == NULL; --n)
-      ;
-    phis->len = n;  // Truncate (Recovered in later).
-  }
-  return cyclics;
-}
-
 static void replace_phis(RegAlloc *ra, BB *bb, int ifb, Vector *phis) {
-  Vector *cyclics = extract_cyclic_dependency(ifb, phis);
+  // Phis are parallel assignments: sequentialize them.
+  int n = phis->len;
+  if (n == 0)
+    return;
 
   // Detect insertion point.
   BB *from = bb->from_bbs->data[ifb];
@@ -390,43 +318,52 @@ static void replace_phis(RegAlloc *ra, BB *bb, int ifb, Vector *phis) {
       --pos;
   }
 
-  // Put non-cyclic phis.
-  for (int iphi = 0; iphi < phis->len; ++iphi) {
-    Phi *phi = phis->data[iphi];
-    VReg *src_vreg = phi->params->data[ifb];
-    IR *mov = new_ir_mov(phi->dst, src_vreg, 0);
-    vec_insert(from->irs, pos++, mov);
+  VReg **dsts = malloc_or_die(sizeof(*dsts) * n);
+  VReg **srcs = malloc_or_die(sizeof(*srcs) * n);
+  for (int i = 0; i < n; ++i) {
+    Phi *phi = phis->data[i];
+    assert(ifb < phi->params->len);
+    dsts[i] = phi->dst;
+    srcs[i] = phi->params->data[ifb];
   }
 
-  if (cyclics != NULL) {
-    Vector **vreg_table = ra->vreg_table;
-    for (int i = 0; i < cyclics->len; ++i) {
-      Vector *cyclic = cyclics->data[i];
-      assert(cyclic->len > 0);
-      Phi *first = cyclic->data[0];
-
-      // Allocate temporary vreg.
-      assert(first->dst->original != first->dst);  // phi's destination must not be an original virtual register.
-      VReg *original = first->dst->original;
-      Vector *vt = vreg_table[original->virt];
-      VReg *tmp = reg_alloc_with_original(ra, original);
-      vec_push(vt, tmp);
-
-      for (int j = 0; j < cyclic->len; ++j) {
-        Phi *phi = cyclic->data[j];
-        VReg *src_vreg = phi->params->data[ifb];
-        IR *mov = new_ir_mov(j == 0 ? tmp : phi->dst, src_vreg, 0);
-        vec_insert(from->irs, pos++, mov);
-        vec_push(phis, phi);  // Restore phi.
+  while (n > 0) {
+    // Find a move whose destination is not referred from other remaining moves.
+    int i;
+    for (i = 0; i < n; ++i) {
+      int j;
+      for (j = 0; j < n; ++j) {
+        if (j != i && srcs[j] == dsts[i])
+          break;
       }
+      if (j >= n)
+        break;
+    }
 
-      IR *mov = new_ir_mov(first->dst, tmp, 0);
-      vec_insert(from->irs, pos++, mov);
+    if (i < n) {
+      vec_insert(from->irs, pos++, new_ir_mov(dsts[i], srcs[i], 0));
+      // Eliminate the move, keeping the order.
+      --n;
+      memmove(&dsts[i], &dsts[i + 1], sizeof(*dsts) * (n - i));
+      memmove(&srcs[i], &srcs[i + 1], sizeof(*srcs) * (n - i));
+      continue;
+    }
 
-      free_vector(cyclic);
+    // All remaining moves are in cyclic dependency: Save one destination to a temporary.
+    VReg *first = dsts[0];
+    assert(first->original != first);  // phi's destination must not be an original virtual register.
+    VReg *original = first->original;
+    VReg *tmp = reg_alloc_with_original(ra, original);
+    vec_push(ra->vreg_table[original->virt], tmp);
+    vec_insert(from->irs, pos++, new_ir_mov(tmp, first, 0));
+    for (int j = 0; j < n; ++j) {
+      if (srcs[j] == first)
+        srcs[j] = tmp;
     }
-    free_vector(cyclics);
   }
+
+  free(dsts);
+  free(srcs);
 }
 
 //
-- 
2.43.0


From 459213c6e002a80e24ab85025c37beda6681068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:35 +0000
Subject: [PATCH 27/60] fix: wrap constant operands to their size in backend
 constant folding

---
 src/cc/backend/optimize.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index a6580df..a313390 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -248,6 +248,12 @@ static int replace_register_in_bb(BB *bb, VReg *target, VReg *alternation, int s
   return first;
 }
 
+// Constant value as an operand: Same size cast does not adjust the sign of the value.
+static int64_t const_operand_value(VReg *vreg, bool is_unsigned) {
+  assert((vreg->flag & (VRF_FLONUM | VRF_CONST)) == VRF_CONST);
+  return wrap_value(vreg->fixnum, 1 << vreg->vsize, is_unsigned);
+}
+
 static bool calc_const_cond(enum ConditionKind cond, VReg *opr1, VReg *opr2) {
   assert(opr1->flag & VRF_CONST);
   assert(opr2->flag & VRF_CONST);
@@ -268,8 +274,8 @@ static bool calc_const_cond(enum ConditionKind cond, VReg *opr1, VReg *opr2) {
   } else
 #endif
   {
-    int64_t n1 = opr1->fixnum;
-    int64_t n2 = opr2->fixnum;
+    int64_t n1 = const_operand_value(opr1, (cond & COND_UNSIGNED) != 0);
+    int64_t n2 = const_operand_value(opr2, (cond & COND_UNSIGNED) != 0);
     switch ((int)cond) {
     case COND_EQ | COND_UNSIGNED:  // Fallthrough
     case COND_EQ:  return n1 == n2;
@@ -355,12 +361,12 @@ static int64_t calc_const_expr(IR *ir) {
 
   int64_t value = 0;
   if (ir->flag & IRF_UNSIGNED) {
-    uint64_t opr1 = ir->opr1->fixnum;
-    uint64_t opr2 = ir->opr2 != NULL ? ir->opr2->fixnum : 0;
+    uint64_t opr1 = const_operand_value(ir->opr1, true);
+    uint64_t opr2 = ir->opr2 != NULL ? const_operand_value(ir->opr2, true) : 0;
     CALC_CONST(ir->kind);
   } else {
-    int64_t opr1 = ir->opr1->fixnum;
-    int64_t opr2 = ir->opr2 != NULL ? ir->opr2->fixnum : 0;
+    int64_t opr1 = const_operand_value(ir->opr1, false);
+    int64_t opr2 = ir->opr2 != NULL ? const_operand_value(ir->opr2, false) : 0;
     CALC_CONST(ir->kind);
   }
 #undef CALC
@@ -444,7 +450,8 @@ static bool constant_folding(RegAlloc *ra, IR *ir) {
       if (ir->dst->flag & VRF_FLONUM) {
         double value;
         if (!(ir->opr1->flag & VRF_FLONUM)) {
-          value = (ir->flag & IRF_UNSIGNED) ? (double)(uint64_t)ir->opr1->fixnum : (double)ir->opr1->fixnum;
+          int64_t n = const_operand_value(ir->opr1, (ir->flag & IRF_UNSIGNED) != 0);
+          value = (ir->flag & IRF_UNSIGNED) ? (double)(uint64_t)n : (double)n;
         } else {
           value = ir->opr1->flonum.value;
         }
-- 
2.43.0


From e7136669b26bf422b81d2d19a9ee5bb122716f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:28 +0000
Subject: [PATCH 28/60] fix: round single precision constants in backend
 constant folding

---
 src/cc/backend/regalloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/backend/regalloc.c b/src/cc/backend/regalloc.c
index 488762c..afed4f1 100644
--- a/src/cc/backend/regalloc.c
+++ b/src/cc/backend/regalloc.c
@@ -71,6 +71,8 @@ VReg *reg_alloc_spawn_const(RegAlloc *ra, int64_t value, enum VRegSize vsize) {
 
 #ifndef __NO_FLONUM
 VReg *reg_alloc_spawn_fconst(RegAlloc *ra, double value, enum VRegSize vsize) {
+  if (vsize == VRegSize4)
+    value = (float)value;  // Round to single precision.
   union { double d; uint64_t q; } u1, u2;
   u1.d = value;
   for (int i = 0; i < ra->consts->len; ++i) {
-- 
2.43.0


From 103135f635710516ee3f11d715a44b5c8169cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:54 +0000
Subject: [PATCH 29/60] fix: string functions with non-ASCII bytes, padding,
 empty needles and last tokens

---
 libsrc/string/memccpy.c    | 9 ++++++---
 libsrc/string/memchr.c     | 5 +++--
 libsrc/string/stpcpy.c     | 2 +-
 libsrc/string/stpncpy.c    | 4 +++-
 libsrc/string/strcasecmp.c | 6 +++---
 libsrc/string/strchr.c     | 3 ++-
 libsrc/string/strncpy.c    | 4 +++-
 libsrc/string/strndup.c    | 1 +
 libsrc/string/strrchr.c    | 3 ++-
 libsrc/string/strstr.c     | 5 +++--
 libsrc/string/strtok_r.c   | 5 +++--
 11 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/libsrc/string/memccpy.c b/libsrc/string/memccpy.c
index 427d8f7..25bf036 100644
--- a/libsrc/string/memccpy.c
+++ b/libsrc/string/memccpy.c
@@ -2,7 +2,10 @@
 
 void *memccpy(void *dst, const void *src, int c, size_t n) {
   char *b = memchr(src, c, n);
-  if (b != NULL)
-    n = b - (char *)src;
-  return memcpy(dst, src, n);
+  if (b == NULL) {
+    memcpy(dst, src, n);
+    return NULL;
+  }
+  n = b + 1 - (char *)src;
+  return (char*)memcpy(dst, src, n) + n;
 }
diff --git a/libsrc/string/memchr.c b/libsrc/string/memchr.c
index ab1e6e7..b6b173c 100644
--- a/libsrc/string/memchr.c
+++ b/libsrc/string/memchr.c
@@ -1,8 +1,9 @@
 #include "string.h"
 
 void *memchr(const void *buf, int c, size_t n) {
-  for (const char *p = buf, *e = p + n; p < e; ++p) {
-    if (*p == c)
+  const unsigned char ch = c;
+  for (const unsigned char *p = buf, *e = p + n; p < e; ++p) {
+    if (*p == ch)
       return (void*)p;
   }
   return NULL;
diff --git a/libsrc/string/stpcpy.c b/libsrc/string/stpcpy.c
index 0eb7f51..ad1f34e 100644
--- a/libsrc/string/stpcpy.c
+++ b/libsrc/string/stpcpy.c
@@ -3,5 +3,5 @@
 char *stpcpy(char *dst, const char *src) {
   while ((*dst++ = *src++) != '\0')
     ;
-  return dst;
+  return dst - 1;
 }
diff --git a/libsrc/string/stpncpy.c b/libsrc/string/stpncpy.c
index a6d7894..4e0bd98 100644
--- a/libsrc/string/stpncpy.c
+++ b/libsrc/string/stpncpy.c
@@ -1,7 +1,9 @@
 #include "string.h"
 
 char *stpncpy(char *dst, const char *src, size_t n) {
-  for (; n > 0 && (*dst++ = *src++) != '\0'; --n)
+  for (; n > 0 && (*dst = *src) != '\0'; --n, ++dst, ++src)
     ;
+  for (size_t i = 0; i < n; ++i)
+    dst[i] = '\0';
   return dst;
 }
diff --git a/libsrc/string/strcasecmp.c b/libsrc/string/strcasecmp.c
index ed94ec0..42bcdf2 100644
--- a/libsrc/string/strcasecmp.c
+++ b/libsrc/string/strcasecmp.c
@@ -3,9 +3,9 @@
 
 int strcasecmp(const char *p, const char *q) {
   for (;; ++p, ++q) {
-    unsigned char c1 = *(unsigned char*)p;
-    unsigned char c2 = *(unsigned char*)q;
-    int d = (int)c1 - (int)c2;
+    int c1 = tolower(*(unsigned char*)p);
+    int c2 = tolower(*(unsigned char*)q);
+    int d = c1 - c2;
     if (d != 0)
       return d;
     if (c1 == 0)
diff --git a/libsrc/string/strchr.c b/libsrc/string/strchr.c
index 296b9c0..b52fce0 100644
--- a/libsrc/string/strchr.c
+++ b/libsrc/string/strchr.c
@@ -1,8 +1,9 @@
 #include "string.h"
 
 char *strchr(const char *s, int c) {
+  const char ch = c;
   for (;; ++s) {
-    if (*s == c)
+    if (*s == ch)
       return (char*)s;
     if (*s == '\0')
       return NULL;
diff --git a/libsrc/string/strncpy.c b/libsrc/string/strncpy.c
index 9dcceae..822b082 100644
--- a/libsrc/string/strncpy.c
+++ b/libsrc/string/strncpy.c
@@ -2,7 +2,9 @@
 
 char *strncpy(char *dst, const char *src, size_t n) {
   char *os = dst;
-  for (; n > 0 && (*dst++ = *src++) != '\0'; --n)
+  for (; n > 0 && (*dst = *src) != '\0'; --n, ++dst, ++src)
     ;
+  for (; n > 0; --n)
+    *dst++ = '\0';
   return os;
 }
diff --git a/libsrc/string/strndup.c b/libsrc/string/strndup.c
index ce14001..f366b53 100644
--- a/libsrc/string/strndup.c
+++ b/libsrc/string/strndup.c
@@ -2,6 +2,7 @@
 #include "stdlib.h"  // malloc
 
 char *strndup(const char *str, size_t size) {
+  size = strnlen(str, size);
   char *dup = malloc(size + 1);
   if (dup != NULL) {
     memcpy(dup, str, size);
diff --git a/libsrc/string/strrchr.c b/libsrc/string/strrchr.c
index b6bc79a..18ab970 100644
--- a/libsrc/string/strrchr.c
+++ b/libsrc/string/strrchr.c
@@ -1,9 +1,10 @@
 #include "string.h"
 
 char *strrchr(const char *s, int c) {
+  const char ch = c;
   char *last = NULL;
   for (;; ++s) {
-    if (*s == c)
+    if (*s == ch)
       last = (char*)s;
     if (*s == '\0')
       return last;
diff --git a/libsrc/string/strstr.c b/libsrc/string/strstr.c
index f8fa574..5db01c4 100644
--- a/libsrc/string/strstr.c
+++ b/libsrc/string/strstr.c
@@ -1,9 +1,10 @@
 #include "string.h"
 
 char *strstr(const char *s1, const char *s2) {
-  for (size_t len = strlen(s2); *s1 != '\0'; ++s1) {
+  for (size_t len = strlen(s2);; ++s1) {
     if (strncmp(s1, s2, len) == 0)
       return (char*)s1;
+    if (*s1 == '\0')
+      return NULL;
   }
-  return NULL;
 }
diff --git a/libsrc/string/strtok_r.c b/libsrc/string/strtok_r.c
index 07a17d7..f7382ff 100644
--- a/libsrc/string/strtok_r.c
+++ b/libsrc/string/strtok_r.c
@@ -8,7 +8,8 @@ char *strtok_r(char *src, const char *delim, char **ptr) {
     return NULL;
   char *r = *ptr;
   size_t n = strcspn(r, delim);
-  r[n] = '\0';
-  *ptr += n + 1;
+  *ptr += n;
+  if (**ptr != '\0')
+    *(*ptr)++ = '\0';
   return r;
 }
-- 
2.43.0


From 26308cb1a05380c87722667fab9895fa9cfac6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:06 +0000
Subject: [PATCH 30/60] fix: base prefixes in strtol, and spaces and minus in
 strtoul

---
 libsrc/stdlib/_strtoull_sub.c | 11 ++++++++++-
 libsrc/stdlib/strtoul.c       | 10 ++++++++--
 libsrc/stdlib/strtoull.c      |  7 +++++--
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/libsrc/stdlib/_strtoull_sub.c b/libsrc/stdlib/_strtoull_sub.c
index 016c418..7d94136 100644
--- a/libsrc/stdlib/_strtoull_sub.c
+++ b/libsrc/stdlib/_strtoull_sub.c
@@ -1,6 +1,15 @@
-#include "ctype.h"  // isspace, tolower
+#include "ctype.h"  // isxdigit, tolower
 
 unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max) {
+  if (base == 0 || base == 16) {
+    if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit(p[2])) {
+      p += 2;
+      base = 16;
+    } else if (base == 0) {
+      base = *p == '0' ? 8 : 10;
+    }
+  }
+
   char digimax = '0' + (base <= 10 ? base : 10);
   char hexmax = 'a' - 10 + base;
   unsigned long long premax = max / base;
diff --git a/libsrc/stdlib/strtoul.c b/libsrc/stdlib/strtoul.c
index d29abbf..ebb9e92 100644
--- a/libsrc/stdlib/strtoul.c
+++ b/libsrc/stdlib/strtoul.c
@@ -1,13 +1,19 @@
 #include "stdlib.h"
+#include "ctype.h"  // isspace
+#include "stdbool.h"
 
+extern bool _parse_sign(const char **pp);
 extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max);
 
 unsigned long strtoul(const char *p, char **pp, int base) {
   const char *orig = p;
-  if (*p == '+')
-    ++p;
+  for (; isspace(*p); ++p)
+    ;
+  bool neg = _parse_sign(&p);
   char *q;
   unsigned long result = _strtoull_sub(p, &q, base, -1UL);
+  if (neg)
+    result = -result;
   if (pp != 0)
     *pp = q == p ? (char*)orig : q;
   return result;
diff --git a/libsrc/stdlib/strtoull.c b/libsrc/stdlib/strtoull.c
index 5de6a7b..1f81229 100644
--- a/libsrc/stdlib/strtoull.c
+++ b/libsrc/stdlib/strtoull.c
@@ -1,6 +1,8 @@
 #include "stdlib.h"
 #include "ctype.h"  // isspace
+#include "stdbool.h"
 
+extern bool _parse_sign(const char **pp);
 extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max);
 
 unsigned long long strtoull(const char *p, char **pp, int base) {
@@ -9,10 +11,11 @@ unsigned long long strtoull(const char *p, char **pp, int base) {
   for (; isspace(*p); ++p)
     ;
 
-  if (*p == '+')
-    ++p;
+  bool neg = _parse_sign(&p);
   char *q;
   unsigned long long result = _strtoull_sub(p, &q, base, -1ULL);
+  if (neg)
+    result = -result;
   if (pp != 0)
     *pp = q == p ? (char*)orig : q;
   return result;
-- 
2.43.0


From 2c928b44af8687709d851abb8417028e0bad1b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:09 +0000
Subject: [PATCH 31/60] fix: refuse allocation sizes that overflow

---
 libsrc/stdlib/_malloc.h | 4 +++-
 libsrc/stdlib/calloc.c  | 2 ++
 libsrc/stdlib/malloc.c  | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/libsrc/stdlib/_malloc.h b/libsrc/stdlib/_malloc.h
index 1589908..af0f11a 100644
--- a/libsrc/stdlib/_malloc.h
+++ b/libsrc/stdlib/_malloc.h
@@ -1,11 +1,13 @@
 #pragma once
 
+#include "stddef.h"  // size_t
+
 typedef long Align;
 
 typedef union header {
   struct {
     union header *ptr;
-    unsigned int size;
+    size_t size;
   } s;
   Align x;
 } Header;
diff --git a/libsrc/stdlib/calloc.c b/libsrc/stdlib/calloc.c
index 5b53244..87f99a2 100644
--- a/libsrc/stdlib/calloc.c
+++ b/libsrc/stdlib/calloc.c
@@ -2,6 +2,8 @@
 #include "string.h"  // memset
 
 void *calloc(size_t nmemb, size_t size) {
+  if (size != 0 && nmemb > (size_t)-1 / size)
+    return NULL;
   size_t nbytes = nmemb * size;
   void *adr = malloc(nbytes);
   if (adr != NULL)
diff --git a/libsrc/stdlib/malloc.c b/libsrc/stdlib/malloc.c
index 898482e..ce808e6 100644
--- a/libsrc/stdlib/malloc.c
+++ b/libsrc/stdlib/malloc.c
@@ -52,6 +52,8 @@ void *malloc(size_t nbytes) {
   Header *p, *prevp;
   size_t nunits;
 
+  if (nbytes > (size_t)-1 / 2 - 2 * PAGESIZE)
+    return 0;
   nunits = (nbytes + sizeof(Header) - 1) / sizeof(Header) + 1;
   prevp = freep;
   for (p = prevp->s.ptr; ; prevp = p, p = p->s.ptr) {
-- 
2.43.0


From 4d6d62bddc15026eef7cb002368639379bdd71d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 32/60] fix: printf width, precision, sign and alignment of
 numbers and characters

---
 libsrc/stdio/vfprintf.c | 115 +++++++++++++++++++++++++---------------
 1 file changed, 71 insertions(+), 44 deletions(-)

diff --git a/libsrc/stdio/vfprintf.c b/libsrc/stdio/vfprintf.c
index 177faa9..19fb9d0 100644
--- a/libsrc/stdio/vfprintf.c
+++ b/libsrc/stdio/vfprintf.c
@@ -12,6 +12,7 @@
 
 #define PRINTF_BUFSIZ  (32)
 #define MIN(a, b)  ((a) < (b) ? (a) : (b))
+#define MAX(a, b)  ((a) > (b) ? (a) : (b))
 #define SIGN(p)  ((p) ? '+' : '-')
 #define STATIC_ASSERT(cond)  char __dummy[(cond) ? 0 : -1]; (void)__dummy
 
@@ -69,9 +70,7 @@ static char *snprintullong2(char *bufend, unsigned long long x, int base, const
 
 static int snprintstr(FILE *fp, const char *s, int order, int suborder, bool leftalign,
                       char padding) {
-  size_t len = strlen(s);
-  if (suborder > 0)
-    len = MIN(len, (unsigned int)suborder);
+  size_t len = suborder >= 0 ? strnlen(s, suborder) : strlen(s);
   if (order <= 0 || len >= (unsigned int)order) {
     putnstr(fp, len, s);
     return len;
@@ -87,6 +86,33 @@ static int snprintstr(FILE *fp, const char *s, int order, int suborder, bool lef
   }
 }
 
+static int snprintinteger(FILE *fp, unsigned long long x, int base, const char *digits,
+                          const char *prefix, int order, int suborder, bool leftalign,
+                          char padding) {
+  char buf[PRINTF_BUFSIZ];
+  STATIC_ASSERT(sizeof(buf) >= (sizeof(long long) * CHAR_BIT + 2) / 3 + 1);
+  char *p = snprintullong2(buf + sizeof(buf), x, base, digits);
+  if (suborder == 0 && x == 0)
+    ++p;  // No digits.
+  int prefixlen = strlen(prefix);
+  int len = buf + sizeof(buf) - 1 - p;
+  int zeros = MAX(suborder - len, 0);
+  int spaces = MAX(order - (prefixlen + zeros + len), 0);
+  if (padding == '0' && !leftalign && suborder < 0) {
+    zeros = spaces;
+    spaces = 0;
+  }
+
+  if (!leftalign)
+    putpadding(fp, spaces, ' ');
+  putnstr(fp, prefixlen, prefix);
+  putpadding(fp, zeros, '0');
+  putnstr(fp, len, p);
+  if (leftalign)
+    putpadding(fp, spaces, ' ');
+  return prefixlen + zeros + len + spaces;
+}
+
 static int sprintsign(FILE *fp, bool negative, bool force, int *porder) {
   int o = 0;
   if (negative) {
@@ -114,33 +140,39 @@ static long double pow10(int order) {
   return a;
 }
 
-static int printnonfinite(FILE *fp, long double x, int order, int suborder, bool sign,
-                          bool leftalign) {
+static int printnonfinite(FILE *fp, long double x, int order, bool sign, bool leftalign) {
   int o = sprintsign(fp, signbit(x), sign, &order);
-  return o + snprintstr(fp, isnan(x) ? "nan" : "inf", order, suborder, leftalign, ' ');
+  return o + snprintstr(fp, isnan(x) ? "nan" : "inf", order, -1, leftalign, ' ');
 }
 
 static int printfloat(FILE *fp, long double x, int order, int suborder, bool sign, bool leftalign,
                       char padding) {
   if (!isfinite(x))
-    return printnonfinite(fp, x, order, suborder, sign, leftalign);
+    return printnonfinite(fp, x, order, sign, leftalign);
 
   bool neg = signbit(x);
   if (neg)
     x = -x;
-  int o = sprintsign(fp, neg, sign, &order);
 
   unsigned long long int_part = x;
-  suborder = suborder > 0 ? suborder : 6;
+  suborder = suborder >= 0 ? suborder : 6;
   long double one = pow10(suborder);
   unsigned long long fraction = (x - int_part) * one + 0.5;
   if (fraction >= one) {
     ++int_part;
     fraction -= one;
   }
-  o += snprintullong(fp, int_part, 10, kHexDigits, order, padding);
-  _fputc('.', fp); ++o;
-  o += snprintullong(fp, fraction, 10, kHexDigits, suborder, '0');
+  int fraclen = suborder > 0 ? suborder + 1 : 0;
+  int o = snprintinteger(fp, int_part, 10, kHexDigits, neg ? "-" : sign ? "+" : "",
+                         leftalign ? 0 : order - fraclen, -1, false, padding);
+  if (suborder > 0) {
+    _fputc('.', fp); ++o;
+    o += snprintullong(fp, fraction, 10, kHexDigits, suborder, '0');
+  }
+  if (leftalign && o < order) {
+    putpadding(fp, order - o, ' ');
+    o = order;
+  }
   return o;
 }
 
@@ -166,7 +198,7 @@ static int normalize_float(long double *px) {
 static int printscientific(FILE *fp, long double x, int order, int suborder, bool sign,
                            bool leftalign, char padding) {
   if (!isfinite(x))
-    return printnonfinite(fp, x, order, suborder, sign, leftalign);
+    return printnonfinite(fp, x, order, sign, leftalign);
 
   bool neg = signbit(x);
   if (neg)
@@ -175,7 +207,7 @@ static int printscientific(FILE *fp, long double x, int order, int suborder, boo
 
   int e = normalize_float(&x);
   unsigned long long int_part = x;
-  suborder = suborder > 0 ? suborder : 6;
+  suborder = suborder >= 0 ? suborder : 6;
   long double one = pow10(suborder);
   unsigned long long fraction = (x - int_part) * one + 0.5;
   if (fraction >= one) {
@@ -203,10 +235,6 @@ static int printscientific(FILE *fp, long double x, int order, int suborder, boo
 #endif
 
 int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
-  char buf[PRINTF_BUFSIZ];
-#define bufend  (buf + sizeof(buf))
-  STATIC_ASSERT(sizeof(buf) >= (sizeof(long long) * CHAR_BIT + 2) / 3);
-
   const unsigned char *fmt = (const unsigned char*)fmt_;
   int c, i;
   int o;
@@ -221,23 +249,22 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
 
     // Handle '%'
     char padding = ' ';
-    int order = 0, suborder = 0;
+    int order = 0, suborder = -1;
     bool sign = false;
     bool leftalign = false;
     bool sizez = false;
     int nlong = 0;
     c = fmt[++i];
 
-    if (c == '+') {
-      sign = true;
-      c = fmt[++i];
-    } else if (c == '-') {
-      leftalign = true;
-      c = fmt[++i];
-    }
-    if (c == '0') {
-      padding = '0';
-      c = fmt[++i];
+    for (;; c = fmt[++i]) {
+      if (c == '+')
+        sign = true;
+      else if (c == '-')
+        leftalign = true;
+      else if (c == '0')
+        padding = '0';
+      else
+        break;
     }
     if (c >= '1' && c <= '9') {
       order = c - '0';
@@ -245,10 +272,15 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
         order = order * 10 + (c - '0');
     } else if (c == '*') {
       order = va_arg(ap, int);
+      if (order < 0) {
+        leftalign = true;
+        order = -order;
+      }
       c = fmt[++i];
     }
     if (c == '.') {
       c = fmt[++i];
+      suborder = 0;
       if (isdigit(c)) {
         do {
           suborder = suborder * 10 + (c - '0');
@@ -286,10 +318,8 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
         }
         bool negative = x < 0;
         unsigned long long ux = negative ? -x : x;
-        if (negative || order > 0 || sign)
-          o += sprintsign(fp, negative, sign, &order);
-        char *p = snprintullong2(bufend, ux, 10, kHexDigits);
-        o += snprintstr(fp, p, order, suborder, leftalign, padding);
+        o += snprintinteger(fp, ux, 10, kHexDigits, negative ? "-" : sign ? "+" : "",
+                            order, suborder, leftalign, padding);
       }
       break;
     case 'u':
@@ -304,10 +334,7 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
           default: x = va_arg(ap, unsigned long long); break;  // case 2:
           }
         }
-        char *p = snprintullong2(bufend, x, 10, kHexDigits);
-        if (sign)
-          *(--p) = '+';
-        o += snprintstr(fp, p, order, suborder, leftalign, padding);
+        o += snprintinteger(fp, x, 10, kHexDigits, "", order, suborder, leftalign, padding);
       }
       break;
     case 'x': case 'X':
@@ -323,17 +350,13 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
           default: x = va_arg(ap, unsigned long long); break;  // case 2:
           }
         }
-        o += snprintullong(fp, x, 16, digits, order, padding);
+        o += snprintinteger(fp, x, 16, digits, "", order, suborder, leftalign, padding);
       }
       break;
     case 'p':
       {
         void *ptr = va_arg(ap, void*);
-        char *p = snprintullong2(bufend, (uintptr_t)ptr, 16, kHexDigits);
-        p -= 2;
-        p[0] = '0';
-        p[1] = 'x';
-        o += snprintstr(fp, p, order, suborder, leftalign, padding);
+        o += snprintinteger(fp, (uintptr_t)ptr, 16, kHexDigits, "0x", order, -1, leftalign, padding);
       }
       break;
     case 's':
@@ -345,8 +368,12 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
       }
       break;
     case 'c':
+      if (!leftalign)
+        putpadding(fp, order - 1, ' ');
       _fputc(va_arg(ap, unsigned int), fp);
-      ++o;
+      if (leftalign)
+        putpadding(fp, order - 1, ' ');
+      o += MAX(order, 1);
       break;
     case '%':
       _fputc(c, fp);
-- 
2.43.0


From 0288e08224975472d3fbcc58013afcaffca087fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 33/60] fix: stdio short reads and writes, pushed back
 characters, SEEK_CUR, empty strings and close errors

---
 libsrc/stdio/_file.c    | 106 ++++++++++++++--------------------------
 libsrc/stdio/_file.h    |   2 -
 libsrc/stdio/fdopen.c   |   7 +--
 libsrc/stdio/fgetc.c    |   6 ---
 libsrc/stdio/fgets.c    |   2 +-
 libsrc/stdio/fmemopen.c |   9 ++--
 libsrc/stdio/fputs.c    |   6 +--
 libsrc/stdio/fread.c    |  16 +++++-
 libsrc/stdio/ftell.c    |   2 +-
 libsrc/stdio/fwrite.c   |   2 +
 libsrc/stdio/stdin.c    |   7 +--
 libsrc/stdio/ungetc.c   |   6 +--
 12 files changed, 73 insertions(+), 98 deletions(-)

diff --git a/libsrc/stdio/_file.c b/libsrc/stdio/_file.c
index eb74f5d..e37287a 100644
--- a/libsrc/stdio/_file.c
+++ b/libsrc/stdio/_file.c
@@ -1,79 +1,45 @@
 #include "stdio.h"
 
 #include "stdlib.h"  // free
-#include "string.h"  // memcpy
-#include "sys/stat.h"  // fstat
+#include "string.h"  // memcpy, memmove
 #include "unistd.h"
 
 #include "./_file.h"
 
-// Normal: if actual read size is less than required size, it means EOF.
-// Pipe:   if subscriber is faster than publisher, it happens. len == 0 means EOF.
-#define FILE_IS_END(fp, readsize)  (!((fp)->flag & FF_FIFO) || (readsize) == 0)
-
-static void _finit(FILE *fp) {
-  if ((fp->flag & FF_INITIALIZED))
-    return;
-
-  struct stat st;
-  int r = fstat(fp->fd, &st);
-  if (r == 0) {
-    switch (st.st_mode & S_IFMT) {
-    case S_IFIFO:
-    case S_IFSOCK:
-      fp->flag |= FF_FIFO;
-      break;
-    default:
-      break;
-    }
-  } else {
-    // TODO: Retry.
-  }
-  fp->flag |= FF_INITIALIZED;
-}
-
 ssize_t _fread(void *cookie, char *buf, size_t total) {
   FILE *fp = cookie;
-  _finit(fp);
   unsigned char *p = (unsigned char*)buf;
-  if (fp->rs > 0) {
-    size_t d = fp->rs - fp->rp;
-    if (total <= d) {
-      memcpy(p, &fp->rbuf[fp->rp], total);
-      fp->rp += total;
-      if (fp->rp >= fp->rs)
-        fp->rp = fp->rs = 0;
-      return total;
+  while (total > 0) {
+    if (fp->rp < fp->rs) {
+      size_t d = fp->rs - fp->rp;
+      if (d > total)
+        d = total;
+      memcpy(p, &fp->rbuf[fp->rp], d);
+      fp->rp += d;
+      p += d;
+      total -= d;
+      continue;
     }
-    memcpy(p, &fp->rbuf[fp->rp], d);
-    total -= d;
-    p += d;
-  }
 
-  if (total < fp->rcapa * 3 / 4) {
-    // Read more than requested size and store them to the buffer.
-    ssize_t len = read(fp->fd, fp->rbuf, fp->rcapa);
-    fp->rs = len;
-    size_t n = len < 0 || (size_t)len < total ? (size_t)len : total;
-    fp->rp = n;
-    if (n > 0) {
-      memcpy(p, fp->rbuf, n);
-      p += n;
+    fp->rp = fp->rs = 0;
+    ssize_t len;
+    if (total < fp->rcapa * 3 / 4) {
+      // Read more than requested size and store them to the buffer.
+      len = read(fp->fd, fp->rbuf, fp->rcapa);
+      if (len > 0)
+        fp->rs = len;
+    } else {
+      // Read to the given buffer directly.
+      len = read(fp->fd, p, total);
+      if (len > 0) {
+        p += len;
+        total -= len;
+      }
     }
-    if (len < (ssize_t)fp->rcapa && (ssize_t)n == len) {
-      if (FILE_IS_END(fp, len))
+    if (len <= 0) {
+      if (len == 0)
         fp->flag |= FF_EOF;
-    }
-  } else {
-    // Read to the given buffer directly.
-    ssize_t len = read(fp->fd, p, total);
-    if (len >= 0) {
-      p += len;
-      fp->rp = fp->rs = 0;
-      if ((size_t)len < total) {
-        if (FILE_IS_END(fp, len))
-          fp->flag |= FF_EOF;
-      }
+      break;
     }
   }
 
@@ -83,7 +49,6 @@ ssize_t _fread(void *cookie, char *buf, size_t total) {
 
 ssize_t _fwrite(void *cookie, const char *buf, size_t size) {
   FILE *fp = cookie;
-  _finit(fp);
   if (fp->wp >= fp->wcapa && (*fp->flush)(fp) != 0)
     return EOF;
 
@@ -101,12 +66,12 @@ ssize_t _fwrite(void *cookie, const char *buf, size_t size) {
 
 int _fflush(FILE *fp) {
   if (fp->flag & FF_WRITE) {
-    unsigned int wp = fp->wp;
-    if (wp > 0) {
-      size_t write_size = write(fp->fd, fp->wbuf, wp);
-      if (write_size != (size_t)wp)
+    while (fp->wp > 0) {
+      ssize_t write_size = write(fp->fd, fp->wbuf, fp->wp);
+      if (write_size <= 0)
         return EOF;
-      fp->wp = 0;
+      fp->wp -= write_size;
+      memmove(fp->wbuf, fp->wbuf + write_size, fp->wp);
     }
   }
   return 0;
@@ -114,7 +79,10 @@ int _fflush(FILE *fp) {
 
 int _fseek(void *cookie, off_t *offset, int origin) {
   FILE *fp = cookie;
-  off_t result = lseek(fp->fd, *offset, origin);
+  off_t ofs = *offset;
+  if (origin == SEEK_CUR)
+    ofs -= (fp->rs - fp->rp) + (fp->unget_char != EOF);
+  off_t result = lseek(fp->fd, ofs, origin);
   if (result == -1)
     return -1;
   fp->flag &= ~FF_EOF;
diff --git a/libsrc/stdio/_file.h b/libsrc/stdio/_file.h
index 20ff2c9..186d86f 100644
--- a/libsrc/stdio/_file.h
+++ b/libsrc/stdio/_file.h
@@ -8,8 +8,6 @@
 #define FF_WRITE        (1 << 2)
 #define FF_EOF          (1 << 3)
 #define FF_GROWMEM      (1 << 4)
-#define FF_FIFO         (1 << 5)
-#define FF_INITIALIZED  (1 << 15)
 
 typedef ssize_t (*cookie_read_function_t)(void *cookie, char *buf, size_t size);
 typedef ssize_t (*cookie_write_function_t)(void *cookie, const char *buf, size_t size);
diff --git a/libsrc/stdio/fdopen.c b/libsrc/stdio/fdopen.c
index 2d051a0..e199fbc 100644
--- a/libsrc/stdio/fdopen.c
+++ b/libsrc/stdio/fdopen.c
@@ -13,10 +13,11 @@
 static int _fclose(void *cookie) {
   FILE *fp = cookie;
   _remove_opened_file(fp);
-  (*fp->flush)(fp);
-  close(fp->fd);
+  int result = (*fp->flush)(fp);
+  if (close(fp->fd) != 0)
+    result = EOF;
   free(fp);
-  return 0;
+  return result;
 }
 
 FILE *fdopen(int fd, const char *mode) {
diff --git a/libsrc/stdio/fgetc.c b/libsrc/stdio/fgetc.c
index 6668520..863c852 100644
--- a/libsrc/stdio/fgetc.c
+++ b/libsrc/stdio/fgetc.c
@@ -3,12 +3,6 @@
 #include "./_file.h"
 
 int fgetc(FILE *fp) {
-  int uc = fp->unget_char;
-  if (uc != EOF) {
-    fp->unget_char = EOF;
-    return uc;
-  }
-
   unsigned char c;
   size_t count = fread(&c, 1, 1, fp);
   return count == 1 ? c : EOF;
diff --git a/libsrc/stdio/fgets.c b/libsrc/stdio/fgets.c
index 8bfce2e..ddfa85d 100644
--- a/libsrc/stdio/fgets.c
+++ b/libsrc/stdio/fgets.c
@@ -11,7 +11,7 @@ char *fgets(char *s, int n, FILE *fp) {
     if (c == '\n')
       break;
   }
-  if (p == s)
+  if (p == s && n > 0)
     return NULL;
   *p = '\0';
   return s;
diff --git a/libsrc/stdio/fmemopen.c b/libsrc/stdio/fmemopen.c
index d962ffe..ebf62a7 100644
--- a/libsrc/stdio/fmemopen.c
+++ b/libsrc/stdio/fmemopen.c
@@ -24,12 +24,10 @@ static bool _growmem(FILE *fp) {
 static ssize_t _memread(void *cookie, char *buf, size_t size) {
   FILE *fp = cookie;
   unsigned char *p = (unsigned char*)buf;
-  unsigned int sz = fp->wcapa - fp->wp;
-  if (sz <= 0) {
+  unsigned int sz = fp->wp < fp->wcapa ? fp->wcapa - fp->wp : 0;
+  if (sz < size)
     fp->flag |= FF_EOF;
-    return 0;
-  }
-  if (sz > size)
+  else
     sz = size;
 
   memcpy(p, &fp->wbuf[fp->wp], sz);
@@ -73,6 +71,7 @@ static int _memseek(void *cookie, off_t *offset, int origin) {
     fp->wp = fp->wcapa + *offset;
     break;
   }
+  fp->flag &= ~FF_EOF;
   fp->unget_char = EOF;
   return 0;
 }
diff --git a/libsrc/stdio/fputs.c b/libsrc/stdio/fputs.c
index 0189ea1..f1df0e6 100644
--- a/libsrc/stdio/fputs.c
+++ b/libsrc/stdio/fputs.c
@@ -1,8 +1,8 @@
 #include "stdio.h"
 #include "string.h"
 
-// Result: Success => positive value, Failure => EOF
+// Result: Success => non-negative value, Failure => EOF
 int fputs(const char *s, FILE *fp) {
-  size_t result = fwrite(s, 1, strlen(s), fp);
-  return result != 0 ? result : EOF;
+  size_t len = strlen(s);
+  return fwrite(s, 1, len, fp) == len ? (int)len : EOF;
 }
diff --git a/libsrc/stdio/fread.c b/libsrc/stdio/fread.c
index 67e0876..55c3050 100644
--- a/libsrc/stdio/fread.c
+++ b/libsrc/stdio/fread.c
@@ -5,6 +5,18 @@
 size_t fread(void *buffer, size_t size, size_t count, FILE *fp) {
   if (!(fp->flag & FF_READ))
     return 0;
-  ssize_t result = (fp->iof->read)(fp, buffer, size * count);
-  return result >= 0 ? result / size : 0;
+  size_t total = size * count;
+  if (total == 0)
+    return 0;
+
+  unsigned char *p = buffer;
+  int uc = fp->unget_char;
+  if (uc != EOF) {
+    fp->unget_char = EOF;
+    *p++ = uc;
+    if (--total == 0)
+      return 1;
+  }
+  ssize_t result = (fp->iof->read)(fp, (char*)p, total);
+  return ((p - (unsigned char*)buffer) + (result >= 0 ? result : 0)) / size;
 }
diff --git a/libsrc/stdio/ftell.c b/libsrc/stdio/ftell.c
index a7cd849..429e5f2 100644
--- a/libsrc/stdio/ftell.c
+++ b/libsrc/stdio/ftell.c
@@ -5,5 +5,5 @@
 
 long ftell(FILE *fp) {
   off_t result = lseek(fp->fd, 0, SEEK_CUR);
-  return result >= 0 ? result + fp->wp - (fp->rs - fp->rp) : result;
+  return result >= 0 ? result + fp->wp - (fp->rs - fp->rp) - (fp->unget_char != EOF) : result;
 }
diff --git a/libsrc/stdio/fwrite.c b/libsrc/stdio/fwrite.c
index 29deac1..3f5738b 100644
--- a/libsrc/stdio/fwrite.c
+++ b/libsrc/stdio/fwrite.c
@@ -7,6 +7,8 @@ size_t fwrite(const void *buffer, size_t size, size_t count, FILE *fp) {
   if (!(fp->flag & FF_WRITE))
     return 0;
 
+  if (size == 0)
+    return 0;
   ssize_t result = (fp->iof->write)(fp, buffer, size * count);
   return result >= 0 ? result / size : 0;
 }
diff --git a/libsrc/stdio/stdin.c b/libsrc/stdio/stdin.c
index 6690272..d2a24ad 100644
--- a/libsrc/stdio/stdin.c
+++ b/libsrc/stdio/stdin.c
@@ -20,10 +20,11 @@ typedef struct OUTFILE {
 static int _fclose_std(void *cookie) {
   FILE *fp = cookie;
   // _remove_opened_file(fp);
-  (*fp->flush)(fp);
-  close(fp->fd);
+  int result = (*fp->flush)(fp);
+  if (close(fp->fd) != 0)
+    result = EOF;
   // free(fp);
-  return 0;
+  return result;
 }
 
 static const cookie_io_functions_t kIof = {
diff --git a/libsrc/stdio/ungetc.c b/libsrc/stdio/ungetc.c
index dbc8a9a..2c52280 100644
--- a/libsrc/stdio/ungetc.c
+++ b/libsrc/stdio/ungetc.c
@@ -3,9 +3,9 @@
 #include "./_file.h"
 
 int ungetc(int c, FILE *fp) {
-  if (!(fp->flag & FF_READ))
+  if (!(fp->flag & FF_READ) || c == EOF)
     return EOF;
-  fp->unget_char = c;
+  fp->unget_char = (unsigned char)c;
   fp->flag &= ~FF_EOF;
-  return c;
+  return fp->unget_char;
 }
-- 
2.43.0


From 33e25c439781d580b7de0b0d9141e5f78f1db4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:46 +0000
Subject: [PATCH 34/60] fix: types of unsigned long and wide hexadecimal
 integer constants

---
 src/cc/frontend/parser_expr.c | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 4162c8a..bc84767 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -275,25 +275,18 @@ static Expr *literal(Token *tok) {
 
         // Check auto upgrade.
         UFixnum value = tok->fixnum.value;
-        while (fx < FX_LLONG) {
-          Type *type = get_fixnum_type(fx, u, 0);
-          int bits = type_size(type) * TARGET_CHAR_BIT - (u ? 0 : 1);
-          if ((value <= (((UFixnum)1U << bits) - 1U)) &&
-              (u || (Fixnum)value >= -((Fixnum)1 << (bits - 1))))
+        bool decimal = (tok->fixnum.flag & TKF_KIND_MASK) == 0;
+        for (;; ++fx) {
+          int bits = type_size(get_fixnum_type(fx, u, 0)) * TARGET_CHAR_BIT;
+          UFixnum high = value >> (bits - 1);  // Sign bit and above.
+          if (high == 0 || (u && high == 1))
             break;
-          if (!u && value <= ((UFixnum)1U << (bits + 1)) - 1U &&
-              (tok->fixnum.flag & TKF_KIND_MASK) != 0) {
+          if (!u && (!decimal || fx >= FX_LLONG) && high == 1) {
             u = true;
             break;
           }
-          ++fx;
-        }
-        if (!u && fx >= FX_LLONG) {
-          // Check auto upgrade to unsigned.
-          Type *type = get_fixnum_type(fx, u, 0);
-          int bits = type_size(type) * TARGET_CHAR_BIT - (u ? 0 : 1);
-          if (value > (((UFixnum)1 << bits) - 1))
-            u = true;
+          if (fx >= FX_LLONG)
+            break;
         }
       }
       Type *type = get_fixnum_type(fx, u, 0);
-- 
2.43.0


From 9e8ea2a2e8b1fa3487bc47671f692906a0c0c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:46 +0000
Subject: [PATCH 35/60] fix: floating constants with leading zeros

---
 src/cc/frontend/lexer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index 1ab6110..6c3282f 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -462,6 +462,13 @@ static Token *read_num(const char **pp) {
 #ifndef __NO_FLONUM
   if (base == 16 && (*p == '.' || tolower(*p) == 'p'))
     return read_flonum(pp, 16);
+  if (base == 8) {  // Leading zero might be a part of decimal float literal.
+    const char *r;
+    for (r = p; isdigit(*r); ++r)
+      ;
+    if (*r == '.' || tolower(*r) == 'e')
+      return read_flonum(pp, 10);
+  }
   if (*p == '.' || tolower(*p) == 'e') {
     if (base != 10)
       lex_error(p, "Illegal literal");
-- 
2.43.0


From 6e5e1ee12519828cf05ddb9e9de3bff341618d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:46 +0000
Subject: [PATCH 36/60] fix: line continuation before an empty line

---
 src/util/util.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/util.c b/src/util/util.c
index d4d1ea6..c8c68fd 100644
--- a/src/util/util.c
+++ b/src/util/util.c
@@ -145,6 +145,10 @@ ssize_t getline_cont(char **lineptr, size_t *capa, FILE *stream, int *plineno) {
       ssize_t nextlen = getline_cat(lineptr, capa, stream, len);
       if (nextlen == -1)
         break;
+      if (nextlen == len) {  // Empty line is appended, so preceding `\\' is not a continuation.
+        ++lineno;
+        break;
+      }
       len = nextlen;
     }
   }
-- 
2.43.0


From 8717a56b6c6dba618a24d8735950f31d567beef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:16 +0000
Subject: [PATCH 37/60] fix: macro hide sets leaked between expansions through
 shared tokens

---
 src/cpp/macro.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 793fcc8..cf9f61e 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -176,13 +176,13 @@ static void hsadd(HideSet *hs, Vector *ts) {
   for (int i = 0; i < ts->len; ++i) {
     const Token *tok = ts->data[i];
     if (tok->kind == TK_IDENT || tok->kind == TK_RPAR) {
-      HideSet *h = get_hideset(tok);
-      if (h == NULL) {
-        h = clone_hideset(hs);
-        set_token_hideset(tok, h);
-      } else {
-        union_hideset(h, hs);
-      }
+      // The token is shared with the macro body or the arguments, so put a hideset on its copy.
+      HideSet *h = clone_hideset(get_hideset(tok));
+      union_hideset(h, hs);
+      Token *copied = malloc_or_die(sizeof(*copied));
+      *copied = *tok;
+      set_token_hideset(copied, h);
+      ts->data[i] = copied;
     }
   }
 }
-- 
2.43.0


From 948d0fb4228e085f208aa28bfb5be4a72ac7f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:03 +0000
Subject: [PATCH 38/60] fix: do not evaluate #if and #elif conditions in
 skipped groups

---
 src/cpp/preprocessor.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 174ec2e..f495047 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -630,7 +630,7 @@ static bool handle_ifdef(const char **pp) {
   return macro_get(name) != NULL;
 }
 
-static bool handle_if(const char **pp, Stream *stream, bool enable) {
+static bool handle_if(const char **pp, Stream *stream) {
   size_t size;
   char *expanded = preprocess_one_line(*pp, stream, &size);
 
@@ -649,7 +649,7 @@ static bool handle_if(const char **pp, Stream *stream, bool enable) {
     result = pp_expr();
 
     const char *p = get_lex_p();
-    if (p != NULL && enable)
+    if (p != NULL)
       error("illegal expression");
 
     set_pp_stream(bak_stream);
@@ -702,17 +702,17 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
   const char *next;
   if ((next = keyword(directive, "ifdef")) != NULL) {
     vec_push(ppf->condstack, INT2VOIDP(cond_value(ppf->enable, ppf->satisfy)));
-    bool defined = handle_ifdef(&next);
+    bool defined = ppf->enable && handle_ifdef(&next);
     ppf->satisfy = defined ? Satisfied : NotSatisfied;
     ppf->enable = ppf->enable && ppf->satisfy == Satisfied;
   } else if ((next = keyword(directive, "ifndef")) != NULL) {
     vec_push(ppf->condstack, INT2VOIDP(cond_value(ppf->enable, ppf->satisfy)));
-    bool defined = handle_ifdef(&next);
+    bool defined = ppf->enable && handle_ifdef(&next);
     ppf->satisfy = defined ? NotSatisfied : Satisfied;
     ppf->enable = ppf->enable && ppf->satisfy == Satisfied;
   } else if ((next = keyword(directive, "if")) != NULL) {
     vec_push(ppf->condstack, INT2VOIDP(cond_value(ppf->enable, ppf->satisfy)));
-    bool cond = handle_if(&next, &ppf->stream, ppf->enable);
+    bool cond = ppf->enable && handle_if(&next, &ppf->stream);
     ppf->satisfy = cond ? Satisfied : NotSatisfied;
     ppf->enable = ppf->enable && ppf->satisfy == Satisfied;
   } else if ((next = keyword(directive, "else")) != NULL) {
@@ -732,15 +732,12 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
     if (ppf->satisfy == ElseAppeared)
       error("Illegal #elif");
 
-    bool cond = false;
-    bool cond2 = handle_if(&next, &ppf->stream, ppf->enable);
-    if (ppf->satisfy == NotSatisfied) {
-      cond = cond2;
-      if (cond)
-        ppf->satisfy = Satisfied;
-    }
-
-    ppf->enable = !ppf->enable && cond && ((flag & CF_ENABLE) != 0);
+    // The expression is evaluated only if the group can be taken.
+    bool cond = ppf->satisfy == NotSatisfied && (flag & CF_ENABLE) != 0 &&
+                handle_if(&next, &ppf->stream);
+    if (cond)
+      ppf->satisfy = Satisfied;
+    ppf->enable = cond;
   } else if ((next = keyword(directive, "endif")) != NULL) {
     if (ppf->condstack->len <= 0)
       error("`#endif' used without `#if'");
-- 
2.43.0


From 5254d57e5e0cd9b92ea38bdadab09cdbdc8557ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:41 +0000
Subject: [PATCH 39/60] fix: #if arithmetic in uintmax_t when an operand is
 unsigned

---
 src/cpp/pp_parser.c    | 99 ++++++++++++++++++++++++++----------------
 src/cpp/pp_parser.h    |  7 ++-
 src/cpp/preprocessor.c |  4 +-
 3 files changed, 70 insertions(+), 40 deletions(-)

diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index a5651ee..6386d53 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -140,10 +140,17 @@ Token *pp_consume(enum TokenKind kind, const char *error) {
   return tok;
 }
 
+static PpResult signed_result(int64_t value) {
+  return (PpResult){.value = value};
+}
+
 static PpResult parse_defined(void) {
   bool lpar = pp_match(TK_LPAR) != NULL;
 
-  const char *start = skip_whitespaces(get_lex_p());
+  const char *start = get_lex_p();
+  if (start == NULL)
+    pp_parse_error(NULL, "ident expected");
+  start = skip_whitespaces(start);
   const char *end = read_ident(start);
   if (end == NULL) {
     lex_error(start, "ident expected");
@@ -153,7 +160,7 @@ static PpResult parse_defined(void) {
   if (lpar)
     pp_consume(TK_RPAR, "No close paren");
 
-  return macro_get(alloc_name(start, end, false)) != NULL;
+  return signed_result(macro_get(alloc_name(start, end, false)) != NULL);
 }
 
 static Token *match2(enum TokenKind kind) {
@@ -297,20 +304,24 @@ static PpResult parse_precedence(Precedence precedence) {
 static PpResult literal(Token *tok) {
   switch (tok->kind) {
   case TK_INTLIT:
-    return tok->fixnum.value;
+    return (PpResult){
+      .value = tok->fixnum.value,
+      .is_unsigned = (tok->fixnum.flag & TKF_CHAR) == 0 &&
+                     ((tok->fixnum.flag & TKF_UNSIGNED) != 0 || tok->fixnum.value < 0),
+    };
   // case TK_STR:     return string_expr(tok, tok->str.buf, tok->str.len, tok->str.kind);
 #ifndef __NO_FLONUM
   case TK_FLOATLIT: case TK_DOUBLELIT: case TK_LDOUBLELIT:
-    return tok->flonum;
+    return signed_result(tok->flonum);
 #endif
-  default: assert(false); return 0;  // Unreachable.
+  default: assert(false); return signed_result(0);  // Unreachable.
   }
 }
 
 static PpResult variable(Token *ident) {
   if (equal_name(ident->ident, alloc_name("defined", NULL, false)))
     return parse_defined();
-  return 0;  // Undefined identifier is 0.
+  return signed_result(0);  // Undefined identifier is 0.
 }
 
 static PpResult unary(Token *tok) {
@@ -318,12 +329,19 @@ static PpResult unary(Token *tok) {
 
   enum TokenKind kind = tok->kind;
   switch (kind) {
-  case TK_ADD: return expr;
-  case TK_SUB: return -expr;
-  case TK_NOT: return expr ? 0 : 1;
-  case TK_TILDA: return ~expr;
-  default: assert(false); return 0;  // Unreachable.
+  case TK_ADD: break;
+  case TK_SUB: expr.value = 0 - (uint64_t)expr.value; break;
+  case TK_NOT: expr = signed_result(expr.value == 0); break;
+  case TK_TILDA: expr.value = ~expr.value; break;
+  default: assert(false); break;  // Unreachable.
   }
+  return expr;
+}
+
+static int64_t divide(int64_t lhs, int64_t rhs, bool is_unsigned) {
+  if (is_unsigned)
+    return (uint64_t)lhs / (uint64_t)rhs;
+  return rhs == -1 ? (int64_t)(0 - (uint64_t)lhs) : lhs / rhs;  // Avoid overflow.
 }
 
 static PpResult binary(PpResult lhs, Token *tok) {
@@ -331,41 +349,45 @@ static PpResult binary(PpResult lhs, Token *tok) {
   assert(rule != NULL);
   PpResult rhs = parse_precedence(rule->precedence + 1);
 
+  // Usual arithmetic conversions.
+  bool is_unsigned = lhs.is_unsigned || rhs.is_unsigned;
+  int64_t l = lhs.value, r = rhs.value;
+  uint64_t ul = l, ur = r;
+
   enum TokenKind kind = tok->kind;
   switch (kind) {
-  case TK_ADD:  return lhs + rhs;
-  case TK_SUB:  return lhs - rhs;
-  case TK_MUL:  return lhs * rhs;
+  case TK_ADD:  return (PpResult){ul + ur, is_unsigned};
+  case TK_SUB:  return (PpResult){ul - ur, is_unsigned};
+  case TK_MUL:  return (PpResult){ul * ur, is_unsigned};
   case TK_DIV:
-    if (rhs != 0) {
-      return lhs / rhs;
-    } else {
+    if (r == 0) {
       // pp_parse_error(tok, "Division by zero");
-      return lhs;
+      return (PpResult){l, is_unsigned};
     }
+    return (PpResult){divide(l, r, is_unsigned), is_unsigned};
   case TK_MOD:
-    if (rhs != 0) {
-      return lhs % rhs;
-    } else {
+    if (r == 0) {
       // pp_parse_error(tok, "Modulo by zero");
-      return lhs;
+      return (PpResult){l, is_unsigned};
     }
-  case TK_LSHIFT:  return lhs << rhs;
-  case TK_RSHIFT:  return lhs >> rhs;
-  case TK_AND:  return lhs & rhs;
-  case TK_OR:   return lhs | rhs;
-  case TK_HAT:  return lhs ^ rhs;
-  case TK_EQ:  return lhs == rhs;
-  case TK_NE:  return lhs != rhs;
-  case TK_LT:  return lhs < rhs;
-  case TK_LE:  return lhs <= rhs;
-  case TK_GE:  return lhs >= rhs;
-  case TK_GT:  return lhs > rhs;
-  case TK_LOGAND:  return lhs && rhs;
-  case TK_LOGIOR:  return lhs || rhs;
+    return (PpResult){ul - (uint64_t)divide(l, r, is_unsigned) * ur, is_unsigned};
+  case TK_LSHIFT:  return (PpResult){ul << (ur & 63), lhs.is_unsigned};
+  case TK_RSHIFT:
+    return (PpResult){lhs.is_unsigned ? (int64_t)(ul >> (ur & 63)) : l >> (ur & 63), lhs.is_unsigned};
+  case TK_AND:  return (PpResult){l & r, is_unsigned};
+  case TK_OR:   return (PpResult){l | r, is_unsigned};
+  case TK_HAT:  return (PpResult){l ^ r, is_unsigned};
+  case TK_EQ:  return signed_result(l == r);
+  case TK_NE:  return signed_result(l != r);
+  case TK_LT:  return signed_result(is_unsigned ? ul < ur : l < r);
+  case TK_LE:  return signed_result(is_unsigned ? ul <= ur : l <= r);
+  case TK_GE:  return signed_result(is_unsigned ? ul >= ur : l >= r);
+  case TK_GT:  return signed_result(is_unsigned ? ul > ur : l > r);
+  case TK_LOGAND:  return signed_result(l && r);
+  case TK_LOGIOR:  return signed_result(l || r);
   case TK_COMMA:  return rhs;
 
-  default: assert(false); return 0;  // Unreachable.
+  default: assert(false); return signed_result(0);  // Unreachable.
   }
 }
 
@@ -377,7 +399,10 @@ static PpResult ternary(PpResult expr, Token *tok) {
   pp_consume(TK_COLON, "`:' expected");
   PpResult fval = parse_precedence(rule->precedence);
 
-  return expr ? tval : fval;
+  return (PpResult){
+    .value = expr.value ? tval.value : fval.value,
+    .is_unsigned = tval.is_unsigned || fval.is_unsigned,
+  };
 }
 
 static PpResult grouping(Token *tok) {
diff --git a/src/cpp/pp_parser.h b/src/cpp/pp_parser.h
index 580020a..9a44787 100644
--- a/src/cpp/pp_parser.h
+++ b/src/cpp/pp_parser.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <stdbool.h>
 #include <stdint.h>  // int64_t
 #include <stdio.h>  // FILE
 
@@ -8,7 +9,11 @@
 typedef struct Macro Macro;
 typedef struct Vector Vector;
 
-typedef int64_t PpResult;
+// Value of an expression: intmax_t, or uintmax_t if `is_unsigned' is set.
+typedef struct {
+  int64_t value;
+  bool is_unsigned;
+} PpResult;
 
 typedef struct {
   const char *filename;
diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index f495047..58c6588 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -410,7 +410,7 @@ static void handle_line_directive(const char **pp, Stream *stream) {
     set_pp_stream(bak_stream);
     fclose(memfp);
   }
-  stream->lineno = num;
+  stream->lineno = num.value;
 
   const char *next = get_lex_p();
   if (next != NULL) {
@@ -656,7 +656,7 @@ static bool handle_if(const char **pp, Stream *stream) {
     fclose(memfp);
     *pp = get_lex_p();
   }
-  return result != 0;
+  return result.value != 0;
 }
 
 static intptr_t cond_value(bool enable, enum Satisfy satisfy) {
-- 
2.43.0


From e6965a99a1dfc1084c81277409a4543a7880adfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 40/60] fix: cpp joined tokens of macro expansions with their
 neighbours

---
 src/cpp/preprocessor.c | 56 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 58c6588..ff56d62 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -134,24 +134,59 @@ static bool handle_block_comment(const char **pp, Stream *stream) {
   return true;
 }
 
+typedef struct {
+  char last;  // Last character put.
+  bool boundary;  // Token boundary: the next character must not be concatenated to the last one.
+} LineOutput;
+
+// Whether different token is made if the characters are put side by side.
+static bool need_separator(char last, char next) {
+  if (isalnum_(last))
+    return isalnum_(next) || next == '"' || next == '\'' || (next == '.' && isdigit(last)) ||
+           ((next == '+' || next == '-') && strchr("eEpP", last) != NULL);
+  switch (last) {
+  case '.':  return next == '.' || isdigit(next);
+  case '+': case '&': case '|': case '=': case '#':
+    return next == last || next == '=';
+  case '-':  return next == '-' || next == '=' || next == '>';
+  case '<': case '>':
+    return next == last || next == '=';
+  case '/':  return next == '/' || next == '*' || next == '=';
+  case '*': case '%': case '^': case '!':
+    return next == '=';
+  default:  return false;
+  }
+}
+
+static void output_text(LineOutput *out, const char *begin, const char *end) {
+  if (begin >= end)
+    return;
+  if (out->boundary && need_separator(out->last, *begin))
+    fputc(' ', pp_ofp);
+  fwrite(begin, end - begin, 1, pp_ofp);
+  out->last = end[-1];
+  out->boundary = false;
+}
+
 static void process_line(const char *line, Stream *stream) {
   set_source_string(line, stream->filename, stream->lineno);
 
   const char *begin = get_lex_p();
 
+  LineOutput out = {.last = '\0', .boundary = false};
   const Name *defined = alloc_name("defined", NULL, false);
   for (;;) {
     const char *p = get_lex_p();
     if (p != NULL) {
       p = skip_whitespaces(p);
       if (begin < p) {
-        OUTPUT_PPLINE("%.*s", (int)(p - begin), begin);
-        --curpf->out_lineno;
+        output_text(&out, begin, p);
         begin = p;
       }
 
       if (handle_block_comment(&p, stream)) {
         begin = p;
+        out.boundary = true;
         set_source_string(begin, stream->filename, stream->lineno);
         continue;
       }
@@ -180,18 +215,21 @@ static void process_line(const char *line, Stream *stream) {
         vec_push(tokens, ident);
         macro_expand(tokens);
 
-        if (ident->begin != p)
-          fwrite(p, ident->begin - p, 1, pp_ofp);
+        output_text(&out, p, ident->begin);
 
         // Everything should have been expanded, so output
         for (int i = 0; i < tokens->len; ++i) {
           const Token *tok = tokens->data[i];
-          fwrite(tok->begin, tok->end - tok->begin, 1, pp_ofp);
+          // Block comment in a macro body concatenates identifiers.
+          out.boundary = i == 0 || !isalnum_(out.last) || !isalnum_(*tok->begin);
+          output_text(&out, tok->begin, tok->end);
         }
         if (macro->params_len >= 0) {
           // Put whitespace to avoid unexpected concatenation.
-          fputc(' ', pp_ofp);
+          static const char SPACE[] = " ";
+          output_text(&out, SPACE, SPACE + 1);
         }
+        out.boundary = true;
         begin = get_lex_p();
       }
       continue;
@@ -200,8 +238,10 @@ static void process_line(const char *line, Stream *stream) {
     match(-1);
   }
 
-  if (begin != NULL)
-    OUTPUT_PPLINE("%s\n", begin);
+  if (begin != NULL) {
+    output_text(&out, begin, begin + strlen(begin));
+    OUTPUT_PPLINE("\n");
+  }
 }
 
 // Preprocess one line and receive result into memory.
-- 
2.43.0


From 16d65e3b318d904e9fbcdf6c8fd0cd868a2a1646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 41/60] fix: empty macro argument, and operands not allowed in
 #if

---
 src/cpp/macro.c     | 5 +++++
 src/cpp/pp_parser.c | 5 ++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index cf9f61e..95dd616 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -378,6 +378,11 @@ void macro_expand(Vector *tokens) {
       Vector *args = pp_funargs(tokens, &next,
                                 macro->vaargs_ident != NULL ? macro->params_len : INT_MAX);
       if (args != NULL) {
+        if (args->len == 0 && macro->params_len > 0) {  // `()': An empty argument.
+          vec_push(args, new_vector());
+          if (macro->vaargs_ident != NULL && macro->params_len == 1)
+            vec_push(args, new_vector());
+        }
         int count = macro->params_len +
                     (macro->vaargs_ident != NULL);  // variadic argument is concatenated.
         if (count != args->len) {
diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index 6386d53..da88b7c 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -416,7 +416,7 @@ static const ParseRule *get_rule(enum TokenKind kind) {
   static const ParseRule kRules[] = {
     [TK_LPAR]          = {grouping},
 
-    [TK_MUL]           = {unary,    binary,    PREC_FACTOR},
+    [TK_MUL]           = {NULL,     binary,    PREC_FACTOR},
     [TK_DIV]           = {NULL,     binary,    PREC_FACTOR},
     [TK_MOD]           = {NULL,     binary,    PREC_FACTOR},
 
@@ -434,7 +434,7 @@ static const ParseRule *get_rule(enum TokenKind kind) {
     [TK_EQ]            = {NULL,     binary,    PREC_EQ},
     [TK_NE]            = {NULL,     binary,    PREC_EQ},
 
-    [TK_AND]           = {unary,    binary,    PREC_BITAND},
+    [TK_AND]           = {NULL,     binary,    PREC_BITAND},
     [TK_HAT]           = {NULL,     binary,    PREC_BITXOR},
     [TK_OR]            = {NULL,     binary,    PREC_BITOR},
 
@@ -449,7 +449,6 @@ static const ParseRule *get_rule(enum TokenKind kind) {
     [TK_TILDA]         = {unary},
 
     [TK_INTLIT]        = {literal},
-    [TK_STR]           = {literal},
     [TK_FLOATLIT]      = {literal},
     [TK_DOUBLELIT]     = {literal},
     [TK_LDOUBLELIT]    = {literal},
-- 
2.43.0


From 29ed4a272733d53f5d8c1b5c26f9df0f7e979a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 42/60] fix: expansion of a macro argument took tokens after
 the invocation; floating constants in #if

---
 src/cpp/macro.c     | 13 ++++++++++---
 src/cpp/pp_parser.c | 20 +++++++-------------
 src/cpp/pp_parser.h |  2 +-
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 95dd616..0a67f00 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -187,6 +187,8 @@ static void hsadd(HideSet *hs, Vector *ts) {
   }
 }
 
+static void expand_tokens(Vector *tokens, bool isolated);
+
 static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs) {
   Vector *os = new_vector();
   Vector *body = macro->body;
@@ -278,7 +280,7 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
             Vector *arg = args->data[j];
             expanded = new_vector();
             vec_concat(expanded, arg);
-            macro_expand(expanded);
+            expand_tokens(expanded, true);
             expanded_args[j] = expanded;
           }
           vec_concat(os, expanded);
@@ -356,7 +358,8 @@ void macro_delete(const Name *name) {
   table_delete(&macro_table, name);
 }
 
-void macro_expand(Vector *tokens) {
+// Expand macros in the tokens. If `isolated' is set, then arguments must be in the tokens.
+static void expand_tokens(Vector *tokens, bool isolated) {
   for (int i = 0; i < tokens->len; ++i) {
     const Token *tok = tokens->data[i];
     if (tok->kind != TK_IDENT)
@@ -376,7 +379,7 @@ void macro_expand(Vector *tokens) {
       replaced = subst(macro, NULL, NULL, hs);
     } else {  // "()'d macro"
       Vector *args = pp_funargs(tokens, &next,
-                                macro->vaargs_ident != NULL ? macro->params_len : INT_MAX);
+                                macro->vaargs_ident != NULL ? macro->params_len : INT_MAX, isolated);
       if (args != NULL) {
         if (args->len == 0 && macro->params_len > 0) {  // `()': An empty argument.
           vec_push(args, new_vector());
@@ -408,3 +411,7 @@ void macro_expand(Vector *tokens) {
     }
   }
 }
+
+void macro_expand(Vector *tokens) {
+  expand_tokens(tokens, false);
+}
diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index da88b7c..753c6fe 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -173,7 +173,7 @@ static Token *match2(enum TokenKind kind) {
   return pp_match(kind);
 }
 
-static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex) {
+static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex, bool isolated) {
   int index = *pindex;
   Token *tok;
   if (index < tokens->len) {
@@ -182,6 +182,8 @@ static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex) {
       ++index;
     else
       tok = NULL;
+  } else if (isolated) {
+    tok = NULL;
   } else {
     tok = match2(kind);
     if (tok != NULL && tok->kind != TK_EOF) {
@@ -193,11 +195,11 @@ static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex) {
   return tok;
 }
 
-Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg) {
+Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool isolated) {
   Vector *args = NULL;
-  while (match3(PPTK_SPACE, tokens, pindex))
+  while (match3(PPTK_SPACE, tokens, pindex, isolated))
     ;
-  if (match3(TK_LPAR, tokens, pindex)) {
+  if (match3(TK_LPAR, tokens, pindex, isolated)) {
     args = new_vector();
     Vector *arg = NULL;
     int paren = 0;
@@ -206,7 +208,7 @@ Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg) {
     for (;;) {
       const char *start = get_lex_p();
       bool fetched = *pindex >= tokens->len;
-      Token *tok = match3(-1, tokens, pindex);
+      Token *tok = match3(-1, tokens, pindex, isolated);
       if (tok == NULL /*|| tok->kind == TK_EOF*/) {
         pp_parse_error(NULL, "`)' expected");
       }
@@ -309,11 +311,6 @@ static PpResult literal(Token *tok) {
       .is_unsigned = (tok->fixnum.flag & TKF_CHAR) == 0 &&
                      ((tok->fixnum.flag & TKF_UNSIGNED) != 0 || tok->fixnum.value < 0),
     };
-  // case TK_STR:     return string_expr(tok, tok->str.buf, tok->str.len, tok->str.kind);
-#ifndef __NO_FLONUM
-  case TK_FLOATLIT: case TK_DOUBLELIT: case TK_LDOUBLELIT:
-    return signed_result(tok->flonum);
-#endif
   default: assert(false); return signed_result(0);  // Unreachable.
   }
 }
@@ -449,9 +446,6 @@ static const ParseRule *get_rule(enum TokenKind kind) {
     [TK_TILDA]         = {unary},
 
     [TK_INTLIT]        = {literal},
-    [TK_FLOATLIT]      = {literal},
-    [TK_DOUBLELIT]     = {literal},
-    [TK_LDOUBLELIT]    = {literal},
 
     [TK_IDENT]         = {variable},
 
diff --git a/src/cpp/pp_parser.h b/src/cpp/pp_parser.h
index 9a44787..290baad 100644
--- a/src/cpp/pp_parser.h
+++ b/src/cpp/pp_parser.h
@@ -23,7 +23,7 @@ typedef struct {
 
 Stream *set_pp_stream(Stream *stream);
 PpResult pp_expr(void);
-Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg);  // <Vector*<Token*>>
+Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool isolated);  // <Vector*<Token*>>
 
 Token *pp_match(enum TokenKind kind);
 Token *pp_consume(enum TokenKind kind, const char *error);
-- 
2.43.0


From 7419d6de034f3907f2617968f7e87b4e4db0cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:27 +0000
Subject: [PATCH 43/60] fix: ## with empty arguments, and trailing spaces of
 macro arguments

---
 src/cpp/macro.c     | 31 +++++++++++++++++++------------
 src/cpp/pp_parser.c | 11 +++++++++--
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 0a67f00..08fe434 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -118,9 +118,16 @@ static void intersection_hideset(HideSet *hs, HideSet *hs2) {
   }
 }
 
+// Stands for an empty argument beside `##'.
+static Token kPlacemarker = {.kind = PPTK_SPACE, .begin = "", .end = ""};
+
 static void glue1(Vector *ls, const Token *tok2) {
   if (ls->len > 0) {
     const Token *tok1 = ls->data[ls->len - 1];
+    if (tok1 == &kPlacemarker) {
+      ls->data[ls->len - 1] = (Token*)tok2;
+      return;
+    }
     // TODO: Check whether the concatenated is ident.
     size_t len1 = tok1->end - tok1->begin;
     size_t len2 = tok2->end - tok2->begin;
@@ -254,19 +261,11 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
         if (param_table != NULL && table_try_get(param_table, tok->ident, (void**)&j)) {
           assert(j < args->len);
           const Vector *arg = args->data[j];
-          if (arg->len == 0) {  // only if actuals can be empty
-            intptr_t k;
-            if (body->len > i + 2 && ((Token*)body->data[i + 2])->kind == TK_IDENT &&
-                table_try_get(param_table, ((Token*)body->data[i + 2])->ident, (void**)&k)) {
-              assert(k < args->len);
-              const Vector *arg2 = args->data[k];
-              vec_concat(os, arg2);
-            }
-            i += 2;
-          } else {
+          if (arg->len == 0)
+            vec_push(os, &kPlacemarker);
+          else
             vec_concat(os, arg);
-            // Handle `##` at next iteration.
-          }
+          // Handle `##` at next iteration.
           continue;
         }
       }
@@ -333,6 +332,14 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
 
     vec_push(os, tok);
   }
+
+  int n = 0;
+  for (int i = 0; i < os->len; ++i) {
+    if (os->data[i] != &kPlacemarker)
+      os->data[n++] = os->data[i];
+  }
+  os->len = n;
+
   hsadd(hs, os);
   return os;
 }
diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index 753c6fe..e458726 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -195,6 +195,13 @@ static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex, bool isol
   return tok;
 }
 
+static void push_arg(Vector *args, Vector *arg) {
+  // Drop trailing spaces.
+  while (arg->len > 0 && ((Token*)arg->data[arg->len - 1])->kind == PPTK_SPACE)
+    vec_pop(arg);
+  vec_push(args, arg);
+}
+
 Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool isolated) {
   Vector *args = NULL;
   while (match3(PPTK_SPACE, tokens, pindex, isolated))
@@ -225,7 +232,7 @@ Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool isolated) {
         arg = new_vector();
 
       if (tok->kind == TK_COMMA && paren <= 0 && args->len < vaarg) {
-        vec_push(args, arg);
+        push_arg(args, arg);
         arg = new_vector();
         continue;
       }
@@ -241,7 +248,7 @@ Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg, bool isolated) {
         vec_push(arg, tok);
     }
     if (arg != NULL)
-      vec_push(args, arg);
+      push_arg(args, arg);
 
     if (args->len == vaarg)
       vec_push(args, new_vector());
-- 
2.43.0


From 9aa00d68d954fd5c5c38915b4566b04b6d201ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 44/60] fix: parameters and parentheses in __VA_OPT__

---
 src/cpp/macro.c | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 08fe434..dad9f29 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -196,20 +196,9 @@ static void hsadd(HideSet *hs, Vector *ts) {
 
 static void expand_tokens(Vector *tokens, bool isolated);
 
-static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs) {
+static Vector *subst_body(Macro *macro, Table *param_table, Vector *args, Vector **expanded_args,
+                          Vector *body) {
   Vector *os = new_vector();
-  Vector *body = macro->body;
-  if (body == NULL)
-    return os;
-
-  Vector **expanded_args = NULL;
-  if (args != NULL && args->len > 0) {
-    expanded_args = alloca(sizeof(*expanded_args) * args->len);
-    if (expanded_args == NULL)
-      error("alloca failed");
-    for (int i = 0; i < args->len; ++i)
-      expanded_args[i] = NULL;
-  }
 
   static const Name *va_opt;
   if (va_opt == NULL && macro->vaargs_ident != NULL)
@@ -290,18 +279,22 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
       // Handle GNU extension: __VA_OPT__
       if (macro->vaargs_ident != NULL && equal_name(tok->ident, va_opt) &&
           i + 2 < body->len && ((Token*)body->data[i + 1])->kind == TK_LPAR) {
-        int j;
+        int j, paren = 0;
         for (j = i + 2; j < body->len; ++j) {
-          if (((Token*)body->data[j])->kind == TK_RPAR)
+          enum TokenKind kind = ((Token*)body->data[j])->kind;
+          if (kind == TK_LPAR)
+            ++paren;
+          else if (kind == TK_RPAR && --paren < 0)
             break;
         }
         if (j < body->len) {
           Vector *arg = args->data[args->len - 1];
           if (arg->len > 0) {  // vaargs is not empty
-            // TODO: expand?
+            Vector *content = new_vector();
             for (int k = i + 2; k < j; ++k) {
-              vec_push(os, body->data[k]);
+              vec_push(content, body->data[k]);
             }
+            vec_concat(os, subst_body(macro, param_table, args, expanded_args, content));
           }
           i = j;
           continue;
@@ -332,6 +325,23 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
 
     vec_push(os, tok);
   }
+  return os;
+}
+
+static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs) {
+  if (macro->body == NULL)
+    return new_vector();
+
+  Vector **expanded_args = NULL;
+  if (args != NULL && args->len > 0) {
+    expanded_args = alloca(sizeof(*expanded_args) * args->len);
+    if (expanded_args == NULL)
+      error("alloca failed");
+    for (int i = 0; i < args->len; ++i)
+      expanded_args[i] = NULL;
+  }
+
+  Vector *os = subst_body(macro, param_table, args, expanded_args, macro->body);
 
   int n = 0;
   for (int i = 0; i < os->len; ++i) {
-- 
2.43.0


From d510a65bcbaaecd5918239a4098c153db39f46d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:06 +0000
Subject: [PATCH 45/60] fix: line numbers after a skipped #include and after
 #include_next

---
 src/cpp/preprocessor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index ff56d62..29e95fe 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -415,6 +415,7 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
 
   // Put linemarker to restore line and filename.
   fprintf(pp_ofp, "# %d \"%s\" 2\n", stream->lineno + 1, stream->filename);
+  curpf->out_lineno = stream->lineno;
 }
 
 static void handle_pragma(const char **pp, const char *filename) {
@@ -787,7 +788,6 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
   } else if (ppf->enable) {
     if ((next = keyword(directive, "include")) != NULL) {
       handle_include(next, &ppf->stream, false);
-      ++ppf->out_lineno;
       next = NULL;
     } else if ((next = keyword(directive, "include_next")) != NULL) {
       handle_include(next, &ppf->stream, true);
-- 
2.43.0


From c94c4828908c6a47997c3801993ced6edd16258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:48 +0000
Subject: [PATCH 46/60] fix: diagnose #line without a line number

---
 src/cpp/preprocessor.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 29e95fe..262df55 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -435,6 +435,8 @@ static void handle_pragma(const char **pp, const char *filename) {
 static void handle_line_directive(const char **pp, Stream *stream) {
   size_t size;
   char *expanded = preprocess_one_line(*pp, stream, &size);
+  if (!isdigit(*skip_whitespaces(expanded)))
+    error("line number expected: %s", expanded);
 
   PpResult num;
   {
-- 
2.43.0


From d29b36f27597a62577955e5dbaaa0c6cf7ccb754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:20 +0000
Subject: [PATCH 47/60] fix: comments before the operand of a directive, and
 space before a comment in a macro body

---
 src/cpp/preprocessor.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 262df55..3865e12 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -61,6 +61,18 @@ static const char *keyword(const char *s, const char *word) {
   return skip_whitespaces(s + len);
 }
 
+// Skip whitespaces and comments which are closed in the line.
+static const char *skip_comments(const char *p) {
+  for (;;) {
+    p = skip_whitespaces(p);
+    const char *comstart = block_comment_start(p);
+    const char *q = comstart != NULL ? block_comment_end(comstart + 2) : NULL;
+    if (q == NULL)
+      return p;
+    p = q;
+  }
+}
+
 static const char *find_directive(const char *line) {
   bool hash = false;
   const char *p = line;
@@ -321,7 +333,7 @@ static FILE *search_sysinc(const char *prevdir, const char *path, char **pfn) {
 }
 
 static void handle_include(const char *p, Stream *stream, bool is_next) {
-  const char *orgp = p = skip_whitespaces(p);
+  const char *orgp = p = skip_comments(p);
 
   if (*p != '<')
     p = preprocess_one_line(p, stream, NULL);
@@ -486,6 +498,8 @@ static Vector *parse_macro_body(const char *p, Stream *stream) {
     const char *q = block_comment_start(start);
     if (q != NULL) {
       const char *comment_start = q;
+      if (comment_start != start)  // Whitespace before the comment.
+        need_space = true;
       q += 2;
       for (;;) {
         q = block_comment_end(q);
@@ -534,7 +548,7 @@ static Vector *parse_macro_body(const char *p, Stream *stream) {
 }
 
 static void handle_define(const char *p, Stream *stream) {
-  const char *begin = p;
+  const char *begin = p = skip_comments(p);
   const char *end = read_ident(p);
   if (end == NULL)
     error("ident expected");
@@ -576,7 +590,7 @@ static void handle_define(const char *p, Stream *stream) {
 }
 
 static void handle_undef(const char **pp) {
-  const char *p = *pp;
+  const char *p = skip_comments(*pp);
   const char *begin = p;
   const char *end = read_ident(p);
   if (end == NULL)
@@ -663,7 +677,7 @@ static void process_disabled_line(const char *p, Stream *stream) {
 }
 
 static bool handle_ifdef(const char **pp) {
-  const char *p = *pp;
+  const char *p = skip_comments(*pp);
   const char *begin = p;
   const char *end = read_ident(p);
   *pp = end;
-- 
2.43.0


From f0c387d5f8a25fab0ab8d33a533c44d21ef4cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 48/60] fix: endless loop for #include of an identifier which
 is not a macro

---
 src/cpp/preprocessor.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 3865e12..f594314 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -349,23 +349,24 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
     set_source_string(p, stream->filename, stream->lineno);
     Token *ident = match(TK_IDENT);
     assert(ident != NULL);
-    if (can_expand_ident(ident->ident)) {
-      Vector *tokens = new_vector();
-      vec_push(tokens, ident);
-      macro_expand(tokens);
-      StringBuffer sb;
-      sb_init(&sb);
-      for (int i = 0; i < tokens->len; ++i) {
-        const Token *tok = tokens->data[i];
-        sb_append(&sb, tok->begin, tok->end);
-      }
-
-      char *expanded = sb_to_string(&sb);
-      set_source_string(expanded, NULL, -1);
-      p = expanded;
+    if (!can_expand_ident(ident->ident))
+      break;
 
-      // TODO: Recursive back.
+    Vector *tokens = new_vector();
+    vec_push(tokens, ident);
+    macro_expand(tokens);
+    StringBuffer sb;
+    sb_init(&sb);
+    for (int i = 0; i < tokens->len; ++i) {
+      const Token *tok = tokens->data[i];
+      sb_append(&sb, tok->begin, tok->end);
     }
+
+    char *expanded = sb_to_string(&sb);
+    set_source_string(expanded, NULL, -1);
+    p = expanded;
+
+    // TODO: Recursive back.
   }
 
   switch (*p++) {
-- 
2.43.0


From 717c1edd7a2e5be16c8733fde5cf38c9e5a79e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 49/60] fix: stack alignment at the program entry

---
 libsrc/crt0/_start.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/crt0/_start.c b/libsrc/crt0/_start.c
index b156e3c..9f00333 100644
--- a/libsrc/crt0/_start.c
+++ b/libsrc/crt0/_start.c
@@ -40,7 +40,7 @@ void _start(void) {
   __asm("mov (%rsp), %rdi\n"
         "lea 8(%rsp), %rsi\n"
         "lea 8(%rsi, %rdi, 8), %rdx\n"
-        "jmp start2");
+        "call start2");
 #elif defined(__aarch64__)
   __asm("ldr x0, [sp]\n"
         "add x1, sp, #8\n"
-- 
2.43.0


From e8b6415678175fb4fe93948e736db0a6d5c3ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 50/60] fix: flushing or seeking a read-only memory stream does
 not modify its buffer

---
 libsrc/stdio/fmemopen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/stdio/fmemopen.c b/libsrc/stdio/fmemopen.c
index ebf62a7..e403268 100644
--- a/libsrc/stdio/fmemopen.c
+++ b/libsrc/stdio/fmemopen.c
@@ -49,7 +49,7 @@ static ssize_t _memwrite(void *cookie, const char *buf, size_t size) {
 
 static int _memflush(FILE *fp) {
   unsigned int wp = fp->wp;
-  if (wp < fp->wcapa) {
+  if ((fp->flag & FF_WRITE) && wp < fp->wcapa) {
     fp->wbuf[wp] = '\0';
   }
   return 0;
-- 
2.43.0


From 7181ff41859806dae14f6ffd574f889280688b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 51/60] fix: ftell on memory streams

---
 libsrc/stdio/ftell.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/stdio/ftell.c b/libsrc/stdio/ftell.c
index 429e5f2..e296e21 100644
--- a/libsrc/stdio/ftell.c
+++ b/libsrc/stdio/ftell.c
@@ -4,6 +4,6 @@
 #include "./_file.h"
 
 long ftell(FILE *fp) {
-  off_t result = lseek(fp->fd, 0, SEEK_CUR);
+  off_t result = fp->fd >= 0 ? lseek(fp->fd, 0, SEEK_CUR) : 0;  // A memory stream has no descriptor.
   return result >= 0 ? result + fp->wp - (fp->rs - fp->rp) - (fp->unget_char != EOF) : result;
 }
-- 
2.43.0


From a6a56ebfaf219bd5f57b870d5988fbcc16da9689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:18 +0000
Subject: [PATCH 52/60] fix: conversion of large floating constants to unsigned
 long

---
 src/cc/frontend/fe_misc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 5b459f3..4220bc6 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -359,7 +359,9 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
         if (is_bool(type))
           fixnum = sub->flonum != 0;
         else
-          fixnum = wrap_value(sub->flonum, type_size(type), type->fixnum.is_unsigned);
+          fixnum = wrap_value(type->fixnum.is_unsigned && sub->flonum >= (UFixnum)1 << 63
+                                  ? (Fixnum)(UFixnum)sub->flonum : (Fixnum)sub->flonum,
+                              type_size(type), type->fixnum.is_unsigned);
         return new_expr_fixlit(type, sub->token, fixnum);
       }
       assert(type->kind == TY_FLONUM);
-- 
2.43.0


From 61061cac1ebcee0a63ba78a7b8a44564569debbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:03 +0000
Subject: [PATCH 53/60] fix: riscv64 code generator does not destroy the
 callee-saved register s1

---
 src/cc/arch/riscv64/ir_riscv64.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 65e527d..a2d82ee 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -18,20 +18,21 @@
 const char *kReg64s[PHYSICAL_REG_MAX] = {
   A0, A1, A2, A3, A4, A5, A6, A7,                         // Temporary
   S2, S3, S4, S5, S6, S7, S8, S9, S10, S11, FP,           // Callee save
-  T0, T1, T2, T3, T4, T5, T6};                            // Caller save
+  T0, T1, T2, T3, T4, T5,                                 // Caller save
+  S1};                                                    // Callee save
 
 #define GET_A0_INDEX()   0
 
 #define CALLEE_SAVE_REG_COUNT  ((int)ARRAY_SIZE(kCalleeSaveRegs))
-static const int kCalleeSaveRegs[] = {8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18};
+static const int kCalleeSaveRegs[] = {8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 25};
 
 #define CALLER_SAVE_REG_COUNT  ((int)ARRAY_SIZE(kCallerSaveRegs))
-static const int kCallerSaveRegs[] = {19, 20, 21, 22, 23, 24, 25};
+static const int kCallerSaveRegs[] = {19, 20, 21, 22, 23, 24};
 
 const int ArchRegParamMapping[] = {0, 1, 2, 3, 4, 5, 6, 7};
 
-// Break s1 in store, mod and tjmp
-static const char *kTmpReg = S1;
+// Break t6 in load and store
+static const char *kTmpReg = T6;
 
 #define SZ_FLOAT   VRegSize4
 #define SZ_DOUBLE  VRegSize8
-- 
2.43.0


From 544dc10aa534bbbf0515432fd436a2b38a25cfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:03 +0000
Subject: [PATCH 54/60] fix: riscv64 functions save the callee-saved register
 fs8

---
 src/cc/arch/riscv64/ir_riscv64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index a2d82ee..949d0ce 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -46,7 +46,7 @@ const char *kFReg64s[PHYSICAL_FREG_MAX] = {
 #define GET_FA0_INDEX()   0
 
 #define CALLEE_SAVE_FREG_COUNT  ((int)ARRAY_SIZE(kCalleeSaveFRegs))
-static const int kCalleeSaveFRegs[] = {8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19};
+static const int kCalleeSaveFRegs[] = {8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19};
 
 #define CALLER_SAVE_FREG_COUNT  ((int)ARRAY_SIZE(kCallerSaveFRegs))
 static const int kCallerSaveFRegs[] = {20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31};
-- 
2.43.0


From d952818ead317d93181debedc21cbc7d6807c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:03 +0000
Subject: [PATCH 55/60] fix: signedness of riscv64 conversions from floating
 types to 32-bit integers

---
 src/cc/arch/riscv64/ir_riscv64.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 949d0ce..7daec00 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -593,14 +593,14 @@ static void ei_cast(IR *ir) {
       assert(!(ir->opr1->flag & VRF_CONST));
       if (ir->flag & IRF_UNSIGNED) {
         switch (ir->opr1->vsize) {
-        case SZ_FLOAT:   FCVT_W_S(kReg64s[ir->dst->phys], kFReg32s[ir->opr1->phys]); break;
-        case SZ_DOUBLE:  FCVT_W_D(kReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
+        case SZ_FLOAT:   FCVT_WU_S(kReg64s[ir->dst->phys], kFReg32s[ir->opr1->phys]); break;
+        case SZ_DOUBLE:  FCVT_WU_D(kReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
         default: assert(false); break;
         }
       } else {
         switch (ir->opr1->vsize) {
-        case SZ_FLOAT:   FCVT_WU_S(kReg64s[ir->dst->phys], kFReg32s[ir->opr1->phys]); break;
-        case SZ_DOUBLE:  FCVT_WU_D(kReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
+        case SZ_FLOAT:   FCVT_W_S(kReg64s[ir->dst->phys], kFReg32s[ir->opr1->phys]); break;
+        case SZ_DOUBLE:  FCVT_W_D(kReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
         default: assert(false); break;
         }
       }
-- 
2.43.0


From f0eec28ec4e7acbbaa4dab90e1cb2acb060889ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:32 +0000
Subject: [PATCH 56/60] fix: riscv64 keeps 32-bit values sign-extended in
 registers

---
 src/cc/arch/riscv64/ir_riscv64.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 7daec00..d2a8b75 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -274,8 +274,7 @@ static void ei_load(IR *ir) {
       else                         LH(dst, src);
       break;
     case 2:
-      if (ir->flag & IRF_UNSIGNED) LWU(dst, src);
-      else                         LW(dst, src);
+      LW(dst, src);  // 32-bit values are kept sign-extended in registers, even if unsigned.
       break;
     case 3:
       LD(dst, src);
@@ -400,7 +399,7 @@ static void ei_mul(IR *ir) {
     }
   } else {
     assert(!(ir->opr1->flag & VRF_CONST) && !(ir->opr2->flag & VRF_CONST));
-    if (ir->dst->vsize <= 2 && !(ir->flag & IRF_UNSIGNED)) {
+    if (ir->dst->vsize <= 2) {
       MULW(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys], kReg64s[ir->opr2->phys]);
     } else {
       MUL(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys], kReg64s[ir->opr2->phys]);
@@ -533,7 +532,10 @@ static void ei_neg(IR *ir) {
     case SZ_DOUBLE:  FNEG_D(kFReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
     }
   } else {
-    NEG(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys]);
+    if (ir->dst->vsize <= 2)
+      SUBW(kReg64s[ir->dst->phys], ZERO, kReg64s[ir->opr1->phys]);
+    else
+      NEG(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys]);
   }
 }
 
@@ -629,7 +631,8 @@ static void ei_cast(IR *ir) {
     int pow = MIN(powd, pows);
     const char *dst = kReg64s[ir->dst->phys], *src = kReg64s[ir->opr1->phys];
 
-    if (ir->flag & IRF_UNSIGNED) {
+    // 32-bit values are kept sign-extended in registers, even if unsigned.
+    if ((ir->flag & IRF_UNSIGNED) && !(pow == 2 && powd == 2)) {
       switch (pow) {
       case 0:  ZEXT_B(dst, src); break;
       case 1:  ZEXT_H(dst, src); break;
@@ -662,7 +665,7 @@ static void emit_mov(int dstphys, VReg *opr1) {
   } else {
     const char *dst = kReg64s[dstphys];
     if (opr1->flag & VRF_CONST) {
-      LI(dst, IM(opr1->fixnum));
+      LI(dst, IM(opr1->vsize == VRegSize4 ? (int32_t)opr1->fixnum : opr1->fixnum));
     } else {
       if (opr1->phys != dstphys) {
         MV(dst, kReg64s[opr1->phys]);
@@ -891,7 +894,7 @@ static void ei_pusharg(IR *ir) {
     // Assume parameter registers are arranged from index 0.
     const char *dst = kReg64s[ir->pusharg.index];
     if (ir->opr1->flag & VRF_CONST)
-      LI(dst, IM(ir->opr1->fixnum));
+      LI(dst, IM(ir->opr1->vsize == VRegSize4 ? (int32_t)ir->opr1->fixnum : ir->opr1->fixnum));
     else if (ir->pusharg.index != ir->opr1->phys)
       MV(dst, kReg64s[ir->opr1->phys]);
   }
-- 
2.43.0


From ffaf2a21c330bb3606c5912574b535f96ef37aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 57/60] fix: ld finds the section of a section symbol by its
 st_shndx

---
 src/ld/ld.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 2397ac9..d3447dc 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -184,8 +184,8 @@ static uint64_t calc_rela_sym_address(LinkEditor *ld, ElfObj *elfobj, const Elf6
   switch (ELF64_ST_BIND(sym->st_info)) {
   case STB_LOCAL:
     if (ELF64_ST_TYPE(sym->st_info) == STT_SECTION) {
-      assert(ELF64_R_SYM(rela->r_info) < elfobj->ehdr.e_shnum);
-      const ElfSectionInfo *s = &elfobj->section_infos[ELF64_R_SYM(rela->r_info)];
+      assert(sym->st_shndx < elfobj->ehdr.e_shnum);
+      const ElfSectionInfo *s = &elfobj->section_infos[sym->st_shndx];
       address = s->progbits.address;
     } else {
       Elf64_Section shndx = sym->st_shndx;
-- 
2.43.0


From eaa9d7a37bad68f6280a2fbf7d3adf176aa39ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 58/60] fix: ld includes the padding between bss sections in
 the memory size

---
 src/ld/ld.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index d3447dc..3ea0ab4 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -595,6 +595,7 @@ static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
             ElfSectionInfo *p = list->data[j];
             Elf64_Shdr *shdr = p->shdr;
             size_t align = shdr->sh_addralign;
+            uint64_t prev_address = address;
             address = ALIGN(address, align);
             p->progbits.address = address;
             size_t size = shdr->sh_size;
@@ -604,7 +605,7 @@ static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
               secgroup->align = align;
 
             if (p->shdr->sh_type == SHT_NOBITS)
-              secgroup->bss_size += size;
+              secgroup->bss_size += address - prev_address;  // Include padding.
           }
         }
         break;
-- 
2.43.0


From 42af2f0031c724569dccbe115969ed0af0f0ff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 59/60] fix: ld puts the file offset of largely aligned
 segments where their contents are

---
 src/ld/ld.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 3ea0ab4..99089d3 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -696,13 +696,14 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
   const int flags = 0;
 #endif
   out_elf_header(fp, entry_address, phnum, 0, flags, 0);
-  out_program_header(fp, 0, PROG_START, section_groups[SEC_TEXT].start_address, code_rodata_sz,
+  uint64_t code_offset = ALIGN(PROG_START, section_groups[SEC_TEXT].align);
+  out_program_header(fp, 0, code_offset, section_groups[SEC_TEXT].start_address, code_rodata_sz,
                      code_rodata_sz);
   if (phnum > 1) {
     size_t datamemsz = section_groups[SEC_DATA].ds->len + section_groups[SEC_DATA].bss_size;
-    uint64_t offset = PROG_START + code_rodata_sz;
+    uint64_t offset = code_offset + code_rodata_sz;
     if (section_groups[SEC_DATA].ds->len > 0)
-      offset = ALIGN(offset, DATA_ALIGN);
+      offset = ALIGN(offset, section_groups[SEC_DATA].align);
     out_program_header(fp, 1, offset, section_groups[SEC_DATA].start_address,
                        section_groups[SEC_DATA].ds->len, datamemsz);
   }
-- 
2.43.0


From 72c2a9e143d7a1b873a06008666d674fc3d12f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 60/60] fix: ld keeps the destination register of riscv64 jal

---
 src/ld/ld.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 99089d3..e2d38d3 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -363,7 +363,7 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
 
           uint32_t *q = (uint32_t*)p;
           assert((*q & 0x0000007f) == 0x6f);  // jal
-          *q = (*q & 0x0000007f) | SWIZZLE_JAL(offset);
+          *q = (*q & 0x00000fff) | SWIZZLE_JAL(offset);
         }
         break;
       case R_RISCV_BRANCH:
-- 
2.43.0

