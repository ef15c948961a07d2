From dc83aa8a973a162176004e3342ccd988ca9c6e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 01/94] fix: ToInt32 and its siblings wrap numbers of any
 magnitude

---
 include/ratjs/rjs_operation.h | 50 ++++++++++++++---------------------
 src/lib/rjs_number.c          | 11 +++++---
 2 files changed, 28 insertions(+), 33 deletions(-)

diff --git a/include/ratjs/rjs_operation.h b/include/ratjs/rjs_operation.h
index cd5419e..1212293 100644
--- a/include/ratjs/rjs_operation.h
+++ b/include/ratjs/rjs_operation.h
@@ -723,6 +723,20 @@ rjs_to_integer_or_infinity (RJS_Runtime *rt, RJS_Value *v, RJS_Number *pn)
     return RJS_OK;
 }
 
+/**
+ * Get the integer part of a number modulo 2^32.
+ * \param n The number.
+ * \return The integer congruent to the integer part of the number. (0 if the number is not finite)
+ */
+static inline int64_t
+rjs_number_to_int64_modulo (RJS_Number n)
+{
+    if (isnan(n) || isinf(n))
+        return 0;
+
+    return (int64_t)fmod(n, 4294967296.0);
+}
+
 /**
  * Convert the value to 8 bits signed integer.
  * \param rt The current runtime.
@@ -740,11 +754,7 @@ rjs_to_int8 (RJS_Runtime *rt, RJS_Value *v, int8_t *pi)
     if ((r = rjs_to_number(rt, v, &n)) == RJS_ERR)
         return r;
 
-    if (isnan(n) || isinf(n) || (n == 0)) {
-        *pi = 0;
-    } else {
-        *pi = (int64_t)n;
-    }
+    *pi = rjs_number_to_int64_modulo(n);
 
     return RJS_OK;
 }
@@ -766,11 +776,7 @@ rjs_to_uint8 (RJS_Runtime *rt, RJS_Value *v, uint8_t *pi)
     if ((r = rjs_to_number(rt, v, &n)) == RJS_ERR)
         return r;
 
-    if (isnan(n) || isinf(n) || (n == 0)) {
-        *pi = 0;
-    } else {
-        *pi = (int64_t)n;
-    }
+    *pi = rjs_number_to_int64_modulo(n);
 
     return RJS_OK;
 }
@@ -831,11 +837,7 @@ rjs_to_int16 (RJS_Runtime *rt, RJS_Value *v, int16_t *pi)
     if ((r = rjs_to_number(rt, v, &n)) == RJS_ERR)
         return r;
 
-    if (isnan(n) || isinf(n) || (n == 0)) {
-        *pi = 0;
-    } else {
-        *pi = (int64_t)n;
-    }
+    *pi = rjs_number_to_int64_modulo(n);
 
     return RJS_OK;
 }
@@ -857,11 +859,7 @@ rjs_to_uint16 (RJS_Runtime *rt, RJS_Value *v, uint16_t *pi)
     if ((r = rjs_to_number(rt, v, &n)) == RJS_ERR)
         return r;
 
-    if (isnan(n) || isinf(n) || (n == 0)) {
-        *pi = 0;
-    } else {
-        *pi = (int64_t)n;
-    }
+    *pi = rjs_number_to_int64_modulo(n);
 
     return RJS_OK;
 }
@@ -883,11 +881,7 @@ rjs_to_int32 (RJS_Runtime *rt, RJS_Value *v, int32_t *pi)
     if ((r = rjs_to_number(rt, v, &n)) == RJS_ERR)
         return r;
 
-    if (isnan(n) || isinf(n) || (n == 0)) {
-        *pi = 0;
-    } else {
-        *pi = (int64_t)n;
-    }
+    *pi = rjs_number_to_int64_modulo(n);
 
     return RJS_OK;
 }
@@ -909,11 +903,7 @@ rjs_to_uint32 (RJS_Runtime *rt, RJS_Value *v, uint32_t *pi)
     if ((r = rjs_to_number(rt, v, &n)) == RJS_ERR)
         return r;
 
-    if (isnan(n) || isinf(n) || (n == 0)) {
-        *pi = 0;
-    } else {
-        *pi = (int64_t)n;
-    }
+    *pi = rjs_number_to_int64_modulo(n);
 
     return RJS_OK;
 }
diff --git a/src/lib/rjs_number.c b/src/lib/rjs_number.c
index 2df6116..db9cfb3 100644
--- a/src/lib/rjs_number.c
+++ b/src/lib/rjs_number.c
@@ -95,9 +95,14 @@ rjs_number_signed_right_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJ
 void
 rjs_number_unsigned_right_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv)
 {
-    uint32_t n1 = rjs_value_get_number(rt, v1);
-    uint32_t n2 = rjs_value_get_number(rt, v2);
-    uint32_t rn = n1 >> n2;
+    uint32_t n1 = 0;
+    uint32_t n2 = 0;
+    uint32_t rn;
+
+    rjs_to_uint32(rt, v1, &n1);
+    rjs_to_uint32(rt, v2, &n2);
+
+    rn = n1 >> (n2 & 0x1f);
 
     rjs_value_set_number(rt, rv, rn);
 }
-- 
2.43.0


From 27b12f6e7894ef56b057cc3ddb510bcb9c85e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 02/94] fix: assigning to a const binding throws TypeError in
 sloppy code too

---
 src/lib/rjs_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 53b76d5..63bfd19 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -7423,7 +7423,7 @@ parse_lexical_decl (RJS_Runtime *rt, RJS_Value *vs)
         dtype = RJS_AST_DECL_LET;
     } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_const)) {
         type  = RJS_AST_ConstDecl;
-        dtype = RJS_AST_DECL_CONST;
+        dtype = RJS_AST_DECL_STRICT;
     } else {
         parse_unexpect_error(rt, &tok->location, _("`let\' or `const\'"));
         goto end;
-- 
2.43.0


From 6c6f2337ce8162a84d204cf9893dbea336a2650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 03/94] fix: relational operators convert objects with the
 number hint

---
 src/lib/rjs_bc_call.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 03974fe..c2ee7f5 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -601,9 +601,9 @@ do_bc_compare (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
     RJS_Value *n2  = rjs_value_stack_push(rt);
     RJS_Result r;
 
-    if ((r = rjs_to_primitive(rt, v1, p1, -1)) == RJS_ERR)
+    if ((r = rjs_to_primitive(rt, v1, p1, RJS_VALUE_NUMBER)) == RJS_ERR)
         goto end;
-    if ((r = rjs_to_primitive(rt, v2, p2, -1)) == RJS_ERR)
+    if ((r = rjs_to_primitive(rt, v2, p2, RJS_VALUE_NUMBER)) == RJS_ERR)
         goto end;
 
     if (rjs_value_is_string(rt, p1) && rjs_value_is_string(rt, p2)) {
-- 
2.43.0


From 0f4a1fa97f6d7e7344a619bf8855ebf35ab02a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 04/94] fix: the in operator evaluates its right operand before
 converting the key

---
 src/lib/rjs_bc_call.c | 19 ++++++++++++++++++-
 src/lib/rjs_bc_gen.c  |  9 +--------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index c2ee7f5..25a8387 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -715,8 +715,25 @@ end:
         goto error;\
     rjs_value_set_boolean(rt, result, !r);
 
+/*Check if the object has the property.*/
+static inline RJS_Result
+do_bc_has_prop (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p)
+{
+    size_t     top = rjs_value_stack_save(rt);
+    RJS_Value *key = rjs_value_stack_push(rt);
+    RJS_Result r;
+
+    if (!rjs_value_is_object(rt, o))
+        r = rjs_throw_type_error(rt, _("the value is not an object"));
+    else if ((r = rjs_to_property_key(rt, p, key)) == RJS_OK)
+        r = rjs_has_property(rt, o, key);
+
+    rjs_value_stack_restore(rt, top);
+    return r;
+}
+
 #define bc_has_prop(operand1, operand2, result)\
-    if ((r = rjs_has_property(rt, operand1, operand2)) == RJS_ERR)\
+    if ((r = do_bc_has_prop(rt, operand1, operand2)) == RJS_ERR)\
         goto error;\
     rjs_value_set_boolean(rt, result, r);
 
diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 022eb19..2703dbc 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -1284,14 +1284,7 @@ bc_gen_in_expr (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstBinaryExpr *expr, int rid
     } else
 #endif /*ENABLE_PRIV_NAME*/
     {
-        int tr = bc_reg_add(rt, bg);
-
-        bc_gen_expr(rt, bg, ast, tr);
-
-        cid = bc_cmd_add(rt, bg, RJS_BC_to_prop, line);
-        cmd = bc_cmd_get(bg, cid);
-        cmd->unary.operand = tr;
-        cmd->unary.result  = r1;
+        bc_gen_expr(rt, bg, ast, r1);
 
         bc_type = RJS_BC_has_prop;
     }
-- 
2.43.0


From 69daede5317c58d6fbb0e01ba046c6d14aa27009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 05/94] fix: assigning to a property of null or undefined
 evaluates the right side first

---
 src/lib/rjs_bc_gen.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 2703dbc..d609d99 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -467,7 +467,7 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
     case RJS_AST_MemberExpr: {
         RJS_AstBinaryExpr *be = (RJS_AstBinaryExpr*)expr;
         RJS_Ast           *ast;
-        int                line1, line2;
+        int                line2;
 
         ref->type          = RJS_BC_REF_PROPERTY;
         ref->base_rid      = bc_reg_add(rt, bg);
@@ -476,7 +476,6 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
 
         ast = bc_ast_get(rt, &be->operand1);
         bc_gen_expr(rt, bg, ast, ref->base_rid);
-        line1 = ast->location.first_line;
 
         ast = bc_ast_get(rt, &be->operand2);
         line2 = ast->location.first_line;
@@ -485,12 +484,6 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
             RJS_AstPropRef *pr = (RJS_AstPropRef*)ast;
 
             ref->ref_name_prop = pr;
-
-            line = line1;
-
-            cid = bc_cmd_add(rt, bg, RJS_BC_require_object, line);
-            cmd = bc_cmd_get(bg, cid);
-            cmd->store.value = ref->base_rid;
         } else {
             int tmp_rid = bc_reg_add(rt, bg);
 
-- 
2.43.0


From 152c8968648bda9cb831093152931c08ade2c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 06/94] fix: BigInt power with exponent 1 keeps the sign; +-1
 takes any exponent

---
 src/lib/rjs_big_int_internal_opt.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index d40a6fc..4f9c13f 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1761,19 +1761,18 @@ rjs_big_int_exponentiate (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Val
         goto end;
     }
 
-    if (bi_size(src2) > 1) {
-        r = rjs_throw_range_error(rt, _("exponent is too big"));
-        goto end;
-    }
-
     e = src2->n[0];
 
     if ((bi_size(src1) == 1) && (src1->n[0] == 1)) {
         if ((r = bi_set_item(rt, dst, 0, 1)) == RJS_ERR)
             goto end;
+    } else if (bi_size(src2) > 1) {
+        r = rjs_throw_range_error(rt, _("exponent is too big"));
+        goto end;
     } else if (e == 1) {
         if ((r = bi_dup(rt, dst, src1)) == RJS_ERR)
             goto end;
+        dst->size = RJS_ABS(dst->size);
     } else {
         bi_map_resize(rt, &emap, 1);
         pbi = emap.items;
-- 
2.43.0


From ad54421f5f5181e5671576a4fd61cc9b1121bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 07/94] fix: shifting 0n by any amount is 0n

---
 src/lib/rjs_big_int_internal_opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 4f9c13f..885dcc3 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1834,7 +1834,7 @@ bi_shift (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst, RJS_Bool rev
     bi_init(&inp);
     bi_init(&res);
 
-    if (pos2 == 0) {
+    if ((pos1 == 0) || (pos2 == 0)) {
         r = bi_dup(rt, dst, src1);
         goto end;
     }
-- 
2.43.0


From 49bfbf74fe0a2f0935b58c8224258356c2e456fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 08/94] fix: a template literal converts each value before
 evaluating the next

---
 gen/bc/bc.json        |  1 +
 src/lib/rjs_bc_call.c |  4 ++++
 src/lib/rjs_bc_gen.c  | 11 +++++++++++
 3 files changed, 16 insertions(+)

diff --git a/gen/bc/bc.json b/gen/bc/bc.json
index 5f670b8..e894f21 100644
--- a/gen/bc/bc.json
+++ b/gen/bc/bc.json
@@ -155,6 +155,7 @@
             "to_number",
             "to_numeric",
             "to_prop",
+            "to_string",
             "negative",
             "reverse",
             "typeof",
diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 25a8387..3364f8e 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -266,6 +266,10 @@ await_pop_async_iter_state (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value
     if ((r = rjs_to_property_key(rt, operand, result)) == RJS_ERR)\
         goto error;
 
+#define bc_to_string(operand, result)\
+    if ((r = rjs_to_string(rt, operand, result)) == RJS_ERR)\
+        goto error;
+
 #define bc_require_object(value)\
     if ((r = rjs_require_object_coercible(rt, value)) == RJS_ERR)\
         goto error;
diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index d609d99..3a13092 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -1595,6 +1595,17 @@ bc_gen_templ_expr (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTemplate *expr, int ri
 
         line = ast->location.first_line;
 
+        if (fr == -1) {
+            int sr = bc_reg_add(rt, bg);
+
+            cid = bc_cmd_add(rt, bg, RJS_BC_to_string, line);
+            cmd = bc_cmd_get(bg, cid);
+            cmd->unary.operand = tr;
+            cmd->unary.result  = sr;
+
+            tr = sr;
+        }
+
         cid = bc_cmd_add(rt, bg, RJS_BC_arg_add, line);
         cmd = bc_cmd_get(bg, cid);
         cmd->store.value = tr;
-- 
2.43.0


From ddfdaad49eca43e9d57a52d728812ff4aba9cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 09/94] fix: delete of an optional chain

---
 src/lib/rjs_bc_gen.c | 24 ++++++++++++++++++++++++
 src/lib/rjs_parser.c |  2 +-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 3a13092..a2fc05e 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -1124,6 +1124,30 @@ bc_gen_delete_expr (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstUnaryExpr *expr, int
         assert(0);
     }
 
+    if (ref.opt_expr) {
+        int le = bc_label_add(rt, bg);
+
+        cid = bc_cmd_add(rt, bg, RJS_BC_jump, line);
+        cmd = bc_cmd_get(bg, cid);
+        cmd->jump.label = le;
+
+        /*The optional chain is cut short: nothing to be deleted.*/
+        cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
+        cmd = bc_cmd_get(bg, cid);
+        cmd->stub.label = bg->opt_end_label;
+
+        cid = bc_cmd_add(rt, bg, RJS_BC_load_true, line);
+        cmd = bc_cmd_get(bg, cid);
+        cmd->load.dest = rid;
+
+        cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
+        cmd = bc_cmd_get(bg, cid);
+        cmd->stub.label = le;
+
+        bg->opt_end_label = ref.old_opt_label;
+        bg->opt_res_reg   = ref.old_opt_reg;
+    }
+
     return RJS_OK;
 }
 
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 63bfd19..e639b53 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -2045,9 +2045,9 @@ check_delete_operand_internal (RJS_Runtime *rt, RJS_Value *v)
         switch (ast->type) {
         case RJS_AST_Id:
         case RJS_AST_PrivMemberExpr:
-        case RJS_AST_OptionalExpr:
             r = RJS_FALSE;
             break;
+        case RJS_AST_OptionalExpr:
         case RJS_AST_ParenthesesExpr: {
             RJS_AstUnaryExpr *ue = (RJS_AstUnaryExpr*)ast;
 
-- 
2.43.0


From 43a1d7fea989353b66bd7dd93ddef20212ef111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 10/94] fix: BigInt product sign

---
 src/lib/rjs_big_int_internal_opt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 885dcc3..62708c8 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1406,8 +1406,7 @@ bi_mul (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst)
     if ((r = bi_dup(rt, dst, sum)) == RJS_ERR)
         goto end;
 
-    if (pos1 != pos2)
-        dst->size = - dst->size;
+    dst->size = (pos1 != pos2) ? - bi_size(dst) : bi_size(dst);
 
     r = RJS_OK;
 end:
-- 
2.43.0


From 92e7849d5e79059a4aa90ce6151a9a303e25c52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 11/94] fix: only canonical numeric strings are array indices

---
 src/lib/rjs_string.c | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index d0e2059..dd608ad 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -494,24 +494,17 @@ rjs_string_to_index_internal (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
     uc  = string_get_uchars(s);
     len = s->length;
 
-    while (len) {
-        if (!rjs_uchar_is_white_space(*uc))
-            break;
-
-        uc  ++;
-        len --;
-    }
-
     if (!len)
         goto end;
-        
-    if (!rjs_uchar_is_digit(*uc))
+
+    /*Only the canonical form of the number is an index.*/
+    if ((*uc == '0') && (len > 1))
         goto end;
 
     n = 0;
     while (len) {
         if (!rjs_uchar_is_digit(*uc))
-            break;
+            goto end;
 
         n *= 10;
         n += *uc - '0';
@@ -523,14 +516,6 @@ rjs_string_to_index_internal (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
         len --;
     }
 
-    while (len) {
-        if (!rjs_uchar_is_white_space(*uc))
-            goto end;
-
-        uc  ++;
-        len --;
-    }
-
     is_idx = RJS_TRUE;
     *pi    = n;
 end:
-- 
2.43.0


From 2a77423ef597ed5274bee302a76cd8c4a7b8bea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 12/94] fix: only canonical indices are own properties of
 String objects

---
 src/lib/rjs_primitive_object.c | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/lib/rjs_primitive_object.c b/src/lib/rjs_primitive_object.c
index a08c7e0..4ca9566 100644
--- a/src/lib/rjs_primitive_object.c
+++ b/src/lib/rjs_primitive_object.c
@@ -65,32 +65,20 @@ static RJS_Result
 string_get_own_property (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p, RJS_PropertyDesc *pd)
 {
     RJS_PrimitiveObject *po;
-    RJS_Result           r;
-    RJS_Number           n;
-    uint64_t             idx;
+    int64_t              idx;
     size_t               len;
 
-    if (rjs_value_is_string(rt, p)) {
-        if ((r = rjs_to_number(rt, p, &n)) == RJS_ERR)
-            return r;
-    } else {
-        return RJS_FALSE;
-    }
-
-    if (isinf(n) || isnan(n))
-        return RJS_FALSE;
-
-    if (signbit(n))
+    /*Only canonical numeric strings are indices of the characters.*/
+    if (!rjs_value_is_string(rt, p))
         return RJS_FALSE;
 
-    if (floor(n) != n)
+    if (!rjs_string_to_index(rt, p, &idx))
         return RJS_FALSE;
 
     po  = (RJS_PrimitiveObject*)rjs_value_get_object(rt, o);
     len = rjs_string_get_length(rt, &po->value);
 
-    idx = n;
-    if (idx >= len)
+    if (idx >= (int64_t)len)
         return RJS_FALSE;
 
     pd->flags = RJS_PROP_FL_DATA|RJS_PROP_FL_ENUMERABLE;
-- 
2.43.0


From 76acf657f1914752a7474e08e5c259e2bd23982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 13/94] fix: parseInt and integer literals convert exactly the
 digits, correctly rounded

---
 src/lib/rjs_global_object.c |   3 -
 src/lib/rjs_strtoi.c        | 129 ++++++++++++++++++++++++++++--------
 2 files changed, 102 insertions(+), 30 deletions(-)

diff --git a/src/lib/rjs_global_object.c b/src/lib/rjs_global_object.c
index f173525..e7d3223 100644
--- a/src/lib/rjs_global_object.c
+++ b/src/lib/rjs_global_object.c
@@ -228,9 +228,6 @@ static RJS_NF(global_parseInt)
         goto end;
     }
 
-    if ((d == INFINITY) || (d == -INFINITY))
-        d = NAN;
-
     rjs_value_set_number(rt, rv, d);
     r = RJS_OK;
 end:
diff --git a/src/lib/rjs_strtoi.c b/src/lib/rjs_strtoi.c
index e30d5e6..a7cd5c5 100644
--- a/src/lib/rjs_strtoi.c
+++ b/src/lib/rjs_strtoi.c
@@ -25,10 +25,79 @@
 
 #include "ratjs_internal.h"
 
+/*Get the value of a digit character, -1 if it is not a digit of the base.*/
+static int
+digit_value (int c, int base)
+{
+    int v;
+
+    if ((c >= '0') && (c <= '9'))
+        v = c - '0';
+    else if ((c >= 'a') && (c <= 'z'))
+        v = c - 'a' + 10;
+    else if ((c >= 'A') && (c <= 'Z'))
+        v = c - 'A' + 10;
+    else
+        return -1;
+
+    return (v < base) ? v : -1;
+}
+
+/*Convert decimal digits to a number.*/
+static double
+decimal_digits (const char *p, size_t len)
+{
+    char   buf[64];
+    char  *copy = buf;
+    double d;
+
+    /*Only the digits belong to the integer, not a fraction or exponent behind them.*/
+    if (len >= sizeof(buf)) {
+        copy = malloc(len + 1);
+        if (!copy)
+            return rjs_strtod(p, NULL);
+    }
+
+    memcpy(copy, p, len);
+    copy[len] = 0;
+
+    d = rjs_strtod(copy, NULL);
+
+    if (copy != buf)
+        free(copy);
+
+    return d;
+}
+
+/*Convert digits with a base of 2^bits to a correctly rounded number.*/
+static double
+pow2_digits (const char *p, size_t len, int base, int bits)
+{
+    uint64_t m      = 0;
+    int      e      = 0;
+    int      sticky = 0;
+
+    for (; len; p ++, len --) {
+        int v = digit_value(*p, base);
+
+        if (!(m >> (63 - bits))) {
+            m = (m << bits) | v;
+        } else {
+            if (e < 0x100000)
+                e += bits;
+            if (v)
+                sticky = 1;
+        }
+    }
+
+    return ldexp((double)(m | sticky), e);
+}
+
 /**
  * Convert the string to integer.
  * \param str The string.
  * \param[out] end Return the end pointer which character cannot be parsed as integer.
+ * It is "str" if there is not any digit.
  * \param base Base of the number.
  * \return The double precision number.
  */
@@ -36,6 +105,7 @@ double
 rjs_strtoi (const char *str, char **end, int base)
 {
     const char *p    = str;
+    const char *digits;
     int         sign = 1;
     double      d    = 0;
 
@@ -66,36 +136,41 @@ rjs_strtoi (const char *str, char **end, int base)
     if (base == 0)
         base = 10;
 
-    if (base == 10)
-        return rjs_strtod(str, end);
-
-    while (*p) {
-        int v;
+    digits = p;
+    while (digit_value(*p, base) != -1)
+        p ++;
 
-        if (base <= 10) {
-            if ((*p < '0') || (*p > '0' + base - 1))
-                break;
+    if (p == digits) {
+        if (end)
+            *end = (char*)str;
+        return 0;
+    }
 
-            v = *p - '0';
-        } else {
-            if (isdigit(*p)) {
-                v = *p - '0';
-            } else {
-                int lower = 'a' + base - 11;
-                int upper = 'A' + base - 11;
-
-                if ((*p >= 'a') && (*p <= lower))
-                    v = *p - 'a' + 10;
-                else if ((*p >= 'A' && (*p <= upper)))
-                    v = *p - 'A' + 10;
-                else
-                    break;
-            }
+    switch (base) {
+    case 10:
+        d = decimal_digits(digits, p - digits);
+        break;
+    case 2:
+        d = pow2_digits(digits, p - digits, base, 1);
+        break;
+    case 4:
+        d = pow2_digits(digits, p - digits, base, 2);
+        break;
+    case 8:
+        d = pow2_digits(digits, p - digits, base, 3);
+        break;
+    case 16:
+        d = pow2_digits(digits, p - digits, base, 4);
+        break;
+    case 32:
+        d = pow2_digits(digits, p - digits, base, 5);
+        break;
+    default:
+        for (; digits < p; digits ++) {
+            d *= base;
+            d += digit_value(*digits, base);
         }
-
-        d *= base;
-        d += v;
-        p ++;
+        break;
     }
 
     if (end)
-- 
2.43.0


From 893326e83352b27c52a1b27eb95904a3d3a6d2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 14/94] fix: Number(BigInt) rounds correctly; parseFloat
 ignores a stale errno

---
 src/lib/rjs_global_object.c     | 2 --
 src/lib/rjs_number_object_inc.c | 8 ++++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_global_object.c b/src/lib/rjs_global_object.c
index e7d3223..f75e0c3 100644
--- a/src/lib/rjs_global_object.c
+++ b/src/lib/rjs_global_object.c
@@ -159,8 +159,6 @@ static RJS_NF(global_parseFloat)
         d = rjs_strtod(cstr, &end);
         if (end == cstr) {
             d = NAN;
-        } else if ((errno == ERANGE) && ((d == HUGE_VAL) || (d == -HUGE_VAL))) {
-            d = NAN;
         }
     }
 
diff --git a/src/lib/rjs_number_object_inc.c b/src/lib/rjs_number_object_inc.c
index 9f304f2..21df5dc 100644
--- a/src/lib/rjs_number_object_inc.c
+++ b/src/lib/rjs_number_object_inc.c
@@ -44,12 +44,12 @@ static RJS_NF(Number_constructor)
 
 #if ENABLE_BIG_INT
         if (rjs_value_is_big_int(rt, prim)) {
-            int64_t i;
-
-            if ((r = rjs_big_int_to_int64(rt, prim, &i)) == RJS_ERR)
+            /*The decimal text is exact, and its conversion is correctly rounded.*/
+            if ((r = rjs_big_int_to_string(rt, prim, 10, nv)) == RJS_ERR)
                 goto end;
 
-            n = i;
+            if ((r = rjs_to_number(rt, nv, &n)) == RJS_ERR)
+                goto end;
         } else
 #endif /*ENABLE_BIG_INT*/
         {
-- 
2.43.0


From a273f437840c869f8b6510f7177c5dea354d19e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 15/94] fix: catch without binding keeps the declaration stack
 balanced

---
 src/lib/rjs_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index e639b53..ec6cdb8 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -6928,7 +6928,8 @@ parse_try_stmt (RJS_Runtime *rt, RJS_Value *vs)
 
         r = parse_block(rt, &stmt->catch_block);
 
-        decl_pop(rt);
+        if (stmt->catch_decl)
+            decl_pop(rt);
 
         if (r == RJS_ERR)
             goto end;
-- 
2.43.0


From ee8880ba00c62e466b23049c12a68d0c3f8ad7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 16/94] fix: script evaluation and class calls give the value
 stack back

---
 src/lib/rjs_script.c             | 4 ++++
 src/lib/rjs_script_func_object.c | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/lib/rjs_script.c b/src/lib/rjs_script.c
index 7cdb799..fb02540 100644
--- a/src/lib/rjs_script.c
+++ b/src/lib/rjs_script.c
@@ -297,6 +297,7 @@ rjs_script_evaluation (RJS_Runtime *rt, RJS_Value *v, RJS_Value *rv)
     RJS_Context     *ctxt;
     RJS_Environment *global_env;
     RJS_ScriptDecl  *old_script_decl;
+    size_t           top = rjs_value_stack_save(rt);
 
     assert(rjs_value_is_script(rt, v));
 
@@ -318,6 +319,9 @@ rjs_script_evaluation (RJS_Runtime *rt, RJS_Value *v, RJS_Value *rv)
 
     /*Restore the old script declaration.*/
     global_env->script_decl = old_script_decl;
+
+    /*Drop the registers of the script.*/
+    rjs_value_stack_restore(rt, top);
     return r;
 }
 
diff --git a/src/lib/rjs_script_func_object.c b/src/lib/rjs_script_func_object.c
index 5180168..27ea4e9 100644
--- a/src/lib/rjs_script_func_object.c
+++ b/src/lib/rjs_script_func_object.c
@@ -180,6 +180,7 @@ rjs_script_func_object_op_call (RJS_Runtime *rt, RJS_Value *o, RJS_Value *thiz,
     if (sfo->script_func->flags & RJS_FUNC_FL_CLASS_CONSTR) {
         rjs_throw_type_error(rt, _("class's constructor cannot be called"));
         rjs_context_pop(rt);
+        rjs_value_stack_restore(rt, top);
 
         return RJS_ERR;
     }
-- 
2.43.0


From 2885d2368a8b7c771101296efc03cdc2b135fa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 17/94] fix: finally overrides and restores pending completions

---
 src/lib/rjs_bc_call.c  | 34 ++++++++++++++++++----------------
 src/lib/rjs_iterator.c | 20 +++++++++++---------
 2 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 3364f8e..d5d57bb 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -48,14 +48,20 @@ await_pop_async_iter_state (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value
 
     ASYNC_OP_DEBUG();
 
-    if ((r = rjs_await_async_iterator_close(rt, type, iv, rv)) == RJS_ERR)
-        return r;
+    r = rjs_await_async_iterator_close(rt, type, iv, rv);
+
+    /*The original error has priority over the errors of close.*/
+    if (ac->i0 == RJS_ERR)
+        return rjs_throw(rt, &ac->v0);
 
-    r = ac->i0;
     if (r == RJS_ERR)
-        rjs_throw(rt, &ac->v0);
+        return r;
 
-    return r;
+    /*The value to be returned is not changed.*/
+    if (ac->i0 == RJS_RETURN)
+        rjs_value_copy(rt, rv, &((RJS_ScriptContext*)ac)->retv);
+
+    return ac->i0;
 }
 
 #else /*!define ENABLE_ASYNC*/
@@ -1120,15 +1126,7 @@ do_bc_has_prop (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p)
             sc->ip = s->s.s_try.finally_ip;\
             goto restart;\
         case RJS_TRY_STATE_FINALLY:\
-            switch (s->s.s_try.next_op) {\
-            case RJS_TRY_NEXT_OP_NORMAL:\
-            case RJS_TRY_NEXT_OP_THROW:\
-                break;\
-            case RJS_TRY_NEXT_OP_RETURN:\
-                rjs_state_pop(rt);\
-                r = RJS_RETURN;\
-                goto ret;\
-            }\
+            /*Break or continue in finally overrides the pending completion.*/\
             break;\
         case RJS_TRY_STATE_END:\
             switch (s->s.s_try.next_op) {\
@@ -1146,6 +1144,7 @@ do_bc_has_prop (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p)
                 r = RJS_ERR;\
                 goto error;\
             case RJS_TRY_NEXT_OP_RETURN:\
+                rjs_value_copy(rt, &sc->retv, s->s.s_try.error);\
                 rjs_state_pop(rt);\
                 r = RJS_RETURN;\
                 goto ret;\
@@ -1189,7 +1188,8 @@ do_bc_has_prop (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p)
 #define bc_finally()\
     RJS_State *s = rjs_state_top(rt);\
     assert(s->type == RJS_STATE_TRY);\
-    s->s.s_try.state = RJS_TRY_STATE_FINALLY;
+    s->s.s_try.state = RJS_TRY_STATE_FINALLY;\
+    rjs_catch(rt, NULL);
 
 #define bc_try_end()\
     RJS_State *s = rjs_state_top(rt);\
@@ -1353,8 +1353,10 @@ error:
         if (s->type == RJS_STATE_TRY) {
             if (r == RJS_ERR)
                 s->s.s_try.next_op = RJS_TRY_NEXT_OP_THROW;
-            else if (r == RJS_RETURN)
+            else if (r == RJS_RETURN) {
                 s->s.s_try.next_op = RJS_TRY_NEXT_OP_RETURN;
+                rjs_value_copy(rt, s->s.s_try.error, &sc->retv);
+            }
 
             switch (s->s.s_try.state) {
             case RJS_TRY_STATE_TRY:
diff --git a/src/lib/rjs_iterator.c b/src/lib/rjs_iterator.c
index 0d57001..9fa1dd2 100644
--- a/src/lib/rjs_iterator.c
+++ b/src/lib/rjs_iterator.c
@@ -272,9 +272,8 @@ rjs_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter)
     RJS_Bool   is_err;
     RJS_Result r;
 
-    is_err = rt->error_flag;
-    if (is_err)
-        rjs_value_copy(rt, err, &rt->error);
+    /*Set the pending error aside while "return" runs.*/
+    is_err = rjs_catch(rt, err);
 
     if ((r = rjs_get_method(rt, iter->iterator, rjs_pn_return(rt), ret)) == RJS_ERR)
         goto end;
@@ -294,8 +293,10 @@ rjs_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter)
 
     r = RJS_OK;
 end:
-    if (is_err)
+    if (is_err) {
         rjs_value_copy(rt, &rt->error, err);
+        rt->error_flag = RJS_TRUE;
+    }
 
     rjs_value_stack_restore(rt, top);
     return r;
@@ -324,9 +325,8 @@ rjs_async_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter, RJS_AsyncOpFunc o
     RJS_Bool    is_err;
     RJS_Result  r;
 
-    is_err = rt->error_flag;
-    if (is_err)
-        rjs_value_copy(rt, err, &rt->error);
+    /*Set the pending error aside while "return" runs.*/
+    is_err = rjs_catch(rt, err);
 
     if ((r = rjs_get_method(rt, iter->iterator, rjs_pn_return(rt), ret)) == RJS_ERR)
         goto end;
@@ -340,10 +340,12 @@ rjs_async_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter, RJS_AsyncOpFunc o
         goto end;
 
     if (op)
-        r = rjs_await(rt, res, op, ip, vp);
+        r = rjs_await(rt, res, op, ip, (is_err && vp) ? err : vp);
 end:
-    if (is_err)
+    if (is_err) {
         rjs_value_copy(rt, &rt->error, err);
+        rt->error_flag = RJS_TRUE;
+    }
 
     rjs_value_stack_restore(rt, top);
     return r;
-- 
2.43.0


From 7514b042f84f2cb8242b0abc9745ef9772488180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 18/94] fix: tail call gets a new function environment and
 checks class constructors

---
 src/lib/rjs_native_stack.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 33d250c..dce3573 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1149,11 +1149,13 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
     assert(s->type == RJS_STATE_CALL);
 
     if ((flags & RJS_CALL_FL_TCO)
-            && rjs_same_value(rt, &ctxt->function, s->s.s_call.func)) {
+            && rjs_same_value(rt, &ctxt->function, s->s.s_call.func)
+            && !(((RJS_ScriptContext*)ctxt)->script_func->flags & RJS_FUNC_FL_CLASS_CONSTR)) {
         /*Tail call optimize.*/
         RJS_ScriptContext *sc = (RJS_ScriptContext*)ctxt;
-        RJS_Value         *args;
-        size_t             argc;
+        RJS_Environment   *env;
+        RJS_Value         *args, *tmp;
+        size_t             argc, top;
 
         /*Replace the arguments.*/
         if (s->s.s_call.argc) {
@@ -1172,13 +1174,21 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
         sc->args = args;
         sc->argc = argc;
 
-        /*Bind this argument.*/
-        rt->env         = sc->scb.lex_env;
-        sc->scb.lex_env = sc->scb.var_env;
+        /*Use a new environment, the old one may be captured by closures.*/
+        env = sc->scb.lex_env;
+        top = rjs_value_stack_save(rt);
+        tmp = rjs_value_stack_push(rt);
+        rjs_value_set_gc_thing(rt, tmp, env);
 
-        rjs_function_env_clear(rt, sc->scb.var_env);
-        rjs_ordinary_call_bind_this(rt, &ctxt->function, s->s.s_call.thiz);
+        rjs_function_env_new(rt, &rt->env, &ctxt->function, rjs_v_undefined(rt));
         sc->scb.lex_env = rt->env;
+        sc->scb.var_env = rt->env;
+
+        /*Bind this argument.*/
+        rjs_ordinary_call_bind_this(rt, &ctxt->function, s->s.s_call.thiz);
+
+        sc->scb.lex_env = env;
+        rjs_value_stack_restore(rt, top);
 
         /*Pop up the states.*/
         while (sp < rt->rb.curr_native_stack->state.item_num) {
@@ -1186,6 +1196,8 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
                 return r;
         }
 
+        sc->scb.lex_env = sc->scb.var_env;
+
         r = RJS_FALSE;
 #if ENABLE_EVAL
     } else if ((flags & RJS_CALL_FL_EVAL)
-- 
2.43.0


From f8b59341bf2e120029cca03d41b895eed3c74b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 19/94] fix: binding cache stays correct when eval adds or
 delete removes bindings

---
 src/lib/rjs_environment.c |  4 ++++
 src/lib/rjs_eval_opt.c    |  9 +++++++++
 src/lib/rjs_operation.c   | 39 ++++++++++++++++++++++++++-------------
 3 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/lib/rjs_environment.c b/src/lib/rjs_environment.c
index d46ecba..ed92878 100644
--- a/src/lib/rjs_environment.c
+++ b/src/lib/rjs_environment.c
@@ -107,6 +107,10 @@ rjs_env_build_outer_stack (RJS_Runtime *rt, RJS_Environment *env)
             e->back_ref.env = env;
             e->env = outer;
 
+            /*The bindings of the outer environment may be changed by "eval".*/
+            if (!outer->cache_enable)
+                env->cache_enable = RJS_FALSE;
+
             e ++;
             outer = outer->outer;
         } while (e < le);
diff --git a/src/lib/rjs_eval_opt.c b/src/lib/rjs_eval_opt.c
index fc9ca68..84c0058 100644
--- a/src/lib/rjs_eval_opt.c
+++ b/src/lib/rjs_eval_opt.c
@@ -79,6 +79,12 @@ rjs_eval_declaration_instantiation (RJS_Runtime *rt,
 
         curr_env = lex_env;
         while (curr_env != var_env) {
+            /*The object environment of a with statement cannot conflict.*/
+            if (curr_env->gc_thing.ops->type == RJS_GC_THING_OBJECT_ENV) {
+                curr_env = curr_env->outer;
+                continue;
+            }
+
             for (id = var_grp->binding_start;
                     id < var_grp->binding_start + var_grp->binding_num;
                     id ++) {
@@ -174,6 +180,9 @@ rjs_eval_declaration_instantiation (RJS_Runtime *rt,
                 if (!r) {
                     rjs_env_create_mutable_binding(rt, var_env, &sbr->binding_name, RJS_TRUE);
                     rjs_env_initialize_binding(rt, var_env, &sbr->binding_name, tmp);
+#if ENABLE_BINDING_CACHE
+                    rjs_env_disable_cache(var_env);
+#endif /*ENABLE_BINDING_CACHE*/
                 } else {
                     rjs_env_set_mutable_binding(rt, var_env, &sbr->binding_name, tmp, RJS_FALSE);
                 }
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 3988ba9..ade2653 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -2069,15 +2069,15 @@ rjs_resolve_binding (RJS_Runtime *rt, RJS_BindingName *bn, RJS_Environment **pe)
     RJS_Result       r;
 
 #if ENABLE_BINDING_CACHE
+    /*Build the outer environment stack.*/
+    if ((bn->env_idx != 0xffff) && env->cache_enable && env->depth && !env->outer_stack)
+        rjs_env_build_outer_stack(rt, env);
+
     if ((bn->env_idx != 0xffff) && env->cache_enable) {
         /*The outer environment is already in cache.*/
         if (bn->env_idx) {
             RJS_EnvStackEntry *ent;
 
-            /*Build the outer environment stack.*/
-            if (!env->outer_stack)
-                rjs_env_build_outer_stack(rt, env);
-
             /*Get the outer environment from the stack directly.*/
             ent = &env->outer_stack[bn->env_idx - 1];
             env = ent->env;
@@ -2086,18 +2086,29 @@ rjs_resolve_binding (RJS_Runtime *rt, RJS_BindingName *bn, RJS_Environment **pe)
 #endif /*ENABLE_BINDING_CACHE*/
     {
         RJS_Environment *bot        = env;
+        RJS_BindingName *fbn        = bn;
 #if ENABLE_BINDING_CACHE
         RJS_Bool         need_cache = env->cache_enable;
+        RJS_BindingName  tbn;
+
+        /*The cached index belongs to one environment only, do not use it to search.*/
+        if (bn->binding_idx != 0xffff) {
+            tbn             = *bn;
+            tbn.env_idx     = 0xffff;
+            tbn.binding_idx = 0xffff;
+            fbn             = &tbn;
+        }
 #endif /*ENABLE_BINDING_CACHE*/
 
         while (env) {
 #if ENABLE_BINDING_CACHE
-            /*Do not cache the binding if go through the "with" block.*/
-            if (env->gc_thing.ops->type ==  RJS_GC_THING_OBJECT_ENV)
+            /*Do not cache the binding if go through the "with" block
+             *or the environment changed by "eval".*/
+            if ((env->gc_thing.ops->type ==  RJS_GC_THING_OBJECT_ENV) || !env->cache_enable)
                 need_cache = RJS_FALSE;
 #endif /*ENABLE_BINDING_CACHE*/
 
-            if ((r = rjs_env_has_binding(rt, env, bn)) == RJS_ERR)
+            if ((r = rjs_env_has_binding(rt, env, fbn)) == RJS_ERR)
                 return r;
             if (r)
                 break;
@@ -2189,18 +2200,20 @@ rjs_set_binding_value (RJS_Runtime *rt, RJS_Environment *env, RJS_BindingName *b
 RJS_Result
 rjs_delete_binding (RJS_Runtime *rt, RJS_Environment *env, RJS_BindingName *bn, RJS_Bool strict)
 {
-    if (env)
+    if (env) {
+#if ENABLE_BINDING_CACHE
+        /*The binding may be found in another environment after it is deleted.*/
+        if (env->outer)
+            rjs_env_disable_cache(env);
+#endif /*ENABLE_BINDING_CACHE*/
+
         return rjs_env_delete_binding(rt, env, bn);
+    }
 
     if (strict)
         return rjs_throw_reference_error(rt, _("cannot find binding \"%s\""),
                 rjs_string_to_enc_chars(rt, bn->name, NULL, NULL));
 
-#if ENABLE_BINDING_CACHE
-    if (env)
-        rjs_env_disable_cache(env);
-#endif /*ENABLE_BINDING_CACHE*/
-
     return RJS_TRUE;
 }
 
-- 
2.43.0


From 08e590e470762880c0e31cd90c321cc58b3e339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 20/94] fix: var arguments, for heads and body redeclarations
 follow the specification

---
 src/lib/rjs_code_gen_inc.c | 12 ++++++++++-
 src/lib/rjs_parser.c       | 42 ++++++++++++--------------------------
 2 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/lib/rjs_code_gen_inc.c b/src/lib/rjs_code_gen_inc.c
index 216a9ed..ad889be 100644
--- a/src/lib/rjs_code_gen_inc.c
+++ b/src/lib/rjs_code_gen_inc.c
@@ -32,6 +32,7 @@
 #define BINDING_INIT_FL_FUNC  16
 #define BINDING_INIT_FL_PARAM 32
 #define BINDING_INIT_FL_UNDEF 64
+#define BINDING_INIT_FL_ARGS  128
 #define BINDING_INIT_FL_LEX \
     (BINDING_INIT_FL_LET|BINDING_INIT_FL_CONST|BINDING_INIT_FL_CLASS)
 
@@ -102,6 +103,14 @@ binding_init_table_param_check (RJS_Runtime *rt, RJS_Value *tab,
                     bi->flags |= RJS_AST_BINDING_INIT_BOT;
                     bi->bot_binding_ref = bdi->binding_ref;
                 }
+            } else if ((flags & BINDING_INIT_FL_ARGS) && (param_decl != decl)
+                    && (di->type == RJS_AST_DECL_VAR)
+                    && rjs_string_equal(rt, &di->binding_ref->name->value, rjs_s_arguments(rt))) {
+                /*The variable "arguments" gets the value of the arguments object.*/
+                bi->flags |= RJS_AST_BINDING_INIT_BOT;
+                bi->bot_binding_ref = binding_ref_new(rt, param_decl, &di->ast.location, rjs_s_arguments(rt));
+                rjs_code_gen_binding_ref_idx(rt, bi->bot_binding_ref);
+                rjs_code_gen_decl_idx(rt, param_decl);
             }
         }
 
@@ -191,7 +200,8 @@ gen_func (RJS_Runtime *rt, RJS_AstFunc *func)
         /*Create variables table.*/
         binding_init_table_param_check(rt, &func->var_table,
             func->var_decl, func->param_decl,
-            BINDING_INIT_FL_VAR|BINDING_INIT_FL_FUNC|BINDING_INIT_FL_UNDEF);
+            BINDING_INIT_FL_VAR|BINDING_INIT_FL_FUNC|BINDING_INIT_FL_UNDEF
+            |((func->flags & RJS_AST_FUNC_FL_NEED_ARGS) ? BINDING_INIT_FL_ARGS : 0));
 
         /*Create lexical declarations table.*/
         binding_init_table(rt, &func->lex_table, func->lex_decl,
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index ec6cdb8..cc2c21f 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -631,7 +631,10 @@ decl_item_add (RJS_Runtime *rt, RJS_AstDeclType type, RJS_Location *loc,
                     var_di = RJS_CONTAINER_OF(he, RJS_AstDeclItem, he);
 
                     if ((var_di->type != RJS_AST_DECL_VAR)
-                            && (var_di->type != RJS_AST_DECL_PARAMETER)) {
+                            && (var_di->type != RJS_AST_DECL_PARAMETER)
+                            && !((var_di->type == RJS_AST_DECL_FUNCTION)
+                                    && ((decl == func->lex_decl) || (decl == func->var_decl))
+                                    && !(func->flags & RJS_AST_FUNC_FL_MODULE))) {
                         parse_error(rt, loc, _("\"%s\" is already defined"),
                                 rjs_string_to_enc_chars(rt, id, NULL, NULL));
                     } else {
@@ -1348,7 +1351,7 @@ func_pop (RJS_Runtime *rt)
                 || !(func->flags & RJS_AST_FUNC_FL_SIMPLE_PARAM))
             func->flags |= RJS_AST_FUNC_FL_UNMAP_ARGS;
 
-        if (func->var_decl) {
+        if (func->var_decl && !(func->flags & RJS_AST_FUNC_FL_EXPR_PARAM)) {
             /*Remove the "arguments" variable. It is already initialized.*/
             he = hash_lookup(rt, &func->var_decl->item_hash, rjs_s_arguments(rt), &phe);
             if (he) {
@@ -6396,6 +6399,7 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
     RJS_AstForStmt *stmt        = NULL;
     RJS_Parser     *parser      = rt->parser;
     RJS_Result      r           = RJS_ERR;
+    int             old_in      = parser->flags & RJS_PARSE_FL_IN;
     RJS_Bool        is_decl     = RJS_FALSE;
     RJS_Bool        is_async_of = RJS_FALSE;
     RJS_AstDeclType dtype       = RJS_AST_DECL_LET;
@@ -6429,6 +6433,9 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
     if ((r = get_token_expect(rt, RJS_TOKEN_lparenthese)) == RJS_ERR)
         goto end;
 
+    /*The operator "in" is not allowed in the initializer.*/
+    parser->flags &= ~RJS_PARSE_FL_IN;
+
     tok = get_token(rt);
     if (tok->type == RJS_TOKEN_semicolon) {
         unget_token(rt);
@@ -6485,6 +6492,8 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
         }
     }
 
+    parser->flags |= old_in;
+
     if (is_decl) {
         RJS_AstList *l = ast_get(rt, &stmt->init);
 
@@ -6606,37 +6615,12 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
     if (r == RJS_ERR)
         goto end;
 
-    /*Check if the bound names is redefined in statement.*/
-    if (is_decl && (dtype != RJS_AST_DECL_VAR)) {
-        RJS_Ast *ast = ast_get(rt, &stmt->loop_stmt);
-
-        if (ast && (ast->type == RJS_AST_Block)) {
-            RJS_AstBlock    *blk = (RJS_AstBlock*)ast;
-            RJS_AstDeclItem *di;
-
-            rjs_list_foreach_c(&stmt->decl->item_list, di, RJS_AstDeclItem, ast.ln) {
-                if (di->type != RJS_AST_DECL_VAR) {
-                    RJS_HashEntry *he;
-
-                    rjs_value_set_string(rt, tmp, di->he.key);
-
-                    he = hash_lookup(rt, &blk->decl->item_hash, tmp, NULL);
-                    if (he) {
-                        RJS_AstDeclItem *ndi = RJS_CONTAINER_OF(he, RJS_AstDeclItem, he);
-
-                        parse_error(rt, &ndi->ast.location, _("\"%s\" is already defined"),
-                                rjs_string_to_enc_chars(rt, tmp, NULL, NULL));
-                        parse_prev_define_note(rt, &di->ast.location);
-                    }
-                }
-            }
-        }
-    }
-
     loc_update_last_ast(rt, &stmt->ast.location, &stmt->loop_stmt);
 
     r = RJS_OK;
 end:
+    parser->flags |= old_in;
+
     if (stmt) {
         if (parser->decl_stack) {
             if (parser->decl_stack == stmt->decl)
-- 
2.43.0


From bf580491d11e2c11ee14a41d6ed4f08749fec1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 21/94] fix: parser accepts and rejects what ECMAScript says in
 cover grammars, directives, patterns, modules and regular expressions; no
 crash on bad input

---
 gen/ast/ast.json             |   1 +
 gen/strtab/internal_string.h |   7 +
 src/lib/include/rjs_lex.h    |  10 ++
 src/lib/rjs_bc_gen.c         |   2 +
 src/lib/rjs_lex.c            |  41 ++++-
 src/lib/rjs_parser.c         | 334 +++++++++++++++++++++++++++++------
 src/lib/rjs_regexp.c         |  19 +-
 7 files changed, 350 insertions(+), 64 deletions(-)

diff --git a/gen/ast/ast.json b/gen/ast/ast.json
index 0efbd04..d927c76 100644
--- a/gen/ast/ast.json
+++ b/gen/ast/ast.json
@@ -533,6 +533,7 @@
             "import_name": "RJS_AstValueEntry*",
             "export_name": "RJS_AstValueEntry*",
             "has_str": "RJS_Bool",
+            "is_reserved": "RJS_Bool",
             "he": "RJS_HashEntry"
         }
     }
diff --git a/gen/strtab/internal_string.h b/gen/strtab/internal_string.h
index 99e82b2..914dc28 100644
--- a/gen/strtab/internal_string.h
+++ b/gen/strtab/internal_string.h
@@ -36,6 +36,13 @@ strings[] = {
     {"rejected"},
     {"yield"},
     {"await"},
+    {"static"},
+    {"implements"},
+    {"interface"},
+    {"package"},
+    {"private"},
+    {"protected"},
+    {"public"},
     {"NFC"},
     {"NFD"},
     {"NFKC"},
diff --git a/src/lib/include/rjs_lex.h b/src/lib/include/rjs_lex.h
index 848def7..13c12d2 100644
--- a/src/lib/include/rjs_lex.h
+++ b/src/lib/include/rjs_lex.h
@@ -170,6 +170,16 @@ rjs_lex_deinit (RJS_Runtime *rt, RJS_Lex *lex);
 RJS_INTERNAL RJS_Result
 rjs_lex_get_token (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token);
 
+/**
+ * Convert the current "/" or "/=" token to the regular expression starts with it.
+ * The token must be the last one got from the input.
+ * \param rt The current runtime.
+ * \param lex The lexical analyzer.
+ * \param token The token.
+ */
+RJS_INTERNAL void
+rjs_lex_get_regexp (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token);
+
 /**
  * Get the next JSON token from the input.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index a2fc05e..de61e09 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -2029,6 +2029,8 @@ bc_gen_object (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstList *o, int rid)
             }
             break;
         }
+        case RJS_AST_LastElision:
+            break;
         default:
             assert(0);
         }
diff --git a/src/lib/rjs_lex.c b/src/lib/rjs_lex.c
index 9f7ca6c..2520ec8 100644
--- a/src/lib/rjs_lex.c
+++ b/src/lib/rjs_lex.c
@@ -396,7 +396,13 @@ lex_string (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token, int start)
                     }
 
                     token->flags |= RJS_TOKEN_FL_LEGACY_ESCAPE;
-                    
+
+                    if (rt->parser && (((RJS_Parser*)rt->parser)->flags & RJS_PARSE_FL_STRICT)) {
+                        rjs_input_get_location(lex->input, &loc);
+                        lex_error(rt, lex, &loc,
+                                _("legacy escape character cannot be used in strict mode"));
+                    }
+
                     if ((c1 == '8') || (c1 == '9')) {
                         rjs_uchar_buffer_append_uc(rt, &lex->uc_text, c1);
                         break;
@@ -555,7 +561,7 @@ lex_number (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
             break;
         case 8:
             if (!rjs_uchar_is_octal(c)) {
-                if (legacy_oct && (rjs_uchar_is_digit(c) || (c == '.') || (c == 'e') || (c == 'E'))) {
+                if (legacy_oct && rjs_uchar_is_digit(c)) {
                     base = 10;
                 } else if (!dn) {
                     rjs_input_get_location(lex->input, &loc);
@@ -701,6 +707,8 @@ int_end:
     if (no_sep) {
         RJS_Parser *parser = rt->parser;
 
+        token->flags |= RJS_TOKEN_FL_LEGACY_ESCAPE;
+
         if (parser && (parser->flags & RJS_PARSE_FL_STRICT)) {
             rjs_input_get_position(lex->input,
                     &token->location.last_line,
@@ -1043,6 +1051,17 @@ lex_regexp (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
 
                 if (c == ']')
                     break;
+
+                if (c == '\\') {
+                    c = lex_get_uc(rt, lex);
+                    if ((c == RJS_INPUT_END) || rjs_uchar_is_line_terminator(c)) {
+                        rjs_input_get_location(lex->input, &loc);
+                        lex_error(rt, lex, &loc, _("expect `/\' at end of the regular expression"));
+                        break;
+                    }
+
+                    rjs_uchar_buffer_append_uc(rt, &lex->uc_text, c);
+                }
             }
         } else {
             rjs_uchar_buffer_append_uc(rt, &lex->uc_text, c);
@@ -1267,6 +1286,24 @@ lex_template (RJS_Runtime *rt, RJS_Lex *lex, RJS_Bool is_head, RJS_Token *token)
     rjs_value_stack_restore(rt, top);
 }
 
+/**
+ * Convert the current "/" or "/=" token to the regular expression starts with it.
+ * The token must be the last one got from the input.
+ * \param rt The current runtime.
+ * \param lex The lexical analyzer.
+ * \param token The token.
+ */
+void
+rjs_lex_get_regexp (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
+{
+    if (token->type == RJS_TOKEN_slash_eq)
+        lex_unget_uc(rt, lex, '=');
+
+    token->flags = 0;
+
+    lex_regexp(rt, lex, token);
+}
+
 /**
  * Get the next token from the input.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index cc2c21f..28133d3 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -1121,6 +1121,11 @@ binding_param (RJS_Runtime *rt, RJS_Value *v, ParamAttr *pa)
     RJS_Ast     *ast  = ast_get(rt, v);
     RJS_AstFunc *func = func_top(rt);
 
+    if (!ast) {
+        /*The illegal binding is already reported.*/
+        return;
+    }
+
     switch (ast->type) {
     case RJS_AST_Id: {
         RJS_AstId *id = (RJS_AstId*)ast;
@@ -1152,7 +1157,8 @@ binding_param (RJS_Runtime *rt, RJS_Value *v, ParamAttr *pa)
         break;
     }
     default:
-        assert(0);
+        /*The illegal binding is already reported.*/
+        break;
     }
 }
 
@@ -1962,7 +1968,15 @@ check_binding_identifier (RJS_Runtime *rt, RJS_Location *loc, RJS_Value *id)
 
     if (rjs_string_equal(rt, id, rjs_s_arguments(rt))
                 || rjs_string_equal(rt, id, rjs_s_eval(rt))
-                || rjs_string_equal(rt, id, rjs_s_yield(rt)))
+                || rjs_string_equal(rt, id, rjs_s_yield(rt))
+                || rjs_string_equal(rt, id, rjs_s_let(rt))
+                || rjs_string_equal(rt, id, rjs_s_static(rt))
+                || rjs_string_equal(rt, id, rjs_s_implements(rt))
+                || rjs_string_equal(rt, id, rjs_s_interface(rt))
+                || rjs_string_equal(rt, id, rjs_s_package(rt))
+                || rjs_string_equal(rt, id, rjs_s_private(rt))
+                || rjs_string_equal(rt, id, rjs_s_protected(rt))
+                || rjs_string_equal(rt, id, rjs_s_public(rt)))
         no_strict_list_add(rt, RJS_AST_IdRef, id);
 
     if (parser->flags & RJS_PARSE_FL_MODULE) {
@@ -2163,10 +2177,22 @@ check_expr_ast (RJS_Runtime *rt, RJS_Ast *ast)
         break;
     }
     case RJS_AST_Object: {
-        RJS_AstList *o = (RJS_AstList*)ast;
+        RJS_AstList *o     = (RJS_AstList*)ast;
+        RJS_Ast     *proto = NULL;
         RJS_Ast     *p;
 
         rjs_list_foreach_c(&o->list, p, RJS_Ast, ln) {
+            if (p->type == RJS_AST_SetProto) {
+                /*Only 1 "__proto__" can be used.*/
+                if (proto) {
+                    parse_error(rt, &p->location, _("\"__proto__\" is already defined"));
+                    parse_prev_define_note(rt, &proto->location);
+                    r = RJS_FALSE;
+                } else {
+                    proto = p;
+                }
+            }
+
             if ((p->type == RJS_AST_Prop) || (p->type == RJS_AST_SetProto)) {
                 RJS_AstProp *prop = (RJS_AstProp*)p;
 
@@ -2429,7 +2455,8 @@ check_lh_expr (RJS_Runtime *rt, RJS_Value *v)
             case RJS_AST_SpreadExpr: {
                 RJS_AstUnaryExpr *ue = (RJS_AstUnaryExpr*)e;
 
-                if (!check_lh_expr(rt, &ue->operand))
+                /*The rest element of an object cannot be a pattern.*/
+                if (!check_simple_assi_target(rt, &ue->operand))
                     r = RJS_FALSE;
 
                 has_rest = RJS_TRUE;
@@ -2464,7 +2491,6 @@ check_lh_expr (RJS_Runtime *rt, RJS_Value *v)
         break;
     case RJS_AST_ObjectBinding:
     case RJS_AST_ArrayBinding:
-    case RJS_AST_ParenthesesExpr:
         break;
     default:
         r = check_simple_assi_target(rt, v);
@@ -2730,6 +2756,11 @@ auto_semicolon (RJS_Runtime *rt)
     if ((tok->type == RJS_TOKEN_END)
             || (tok->type == RJS_TOKEN_rbrace)
             || (tok->location.first_line != parser->last_line)) {
+        /*The next statement may begin with a regular expression.*/
+        if (((tok->type == RJS_TOKEN_slash) || (tok->type == RJS_TOKEN_slash_eq))
+                && !(parser->status & RJS_PARSE_ST_NEXT_TOKEN))
+            rjs_lex_get_regexp(rt, &parser->lex, tok);
+
         unget_token(rt);
         return RJS_OK;
     }
@@ -2922,6 +2953,19 @@ end:
     return r;
 }
 
+/*Check if the assignment target is in parentheses.*/
+static RJS_Bool
+target_has_parentheses (RJS_Runtime *rt, RJS_Ast *ast)
+{
+    if (ast->type == RJS_AST_AssiExpr) {
+        RJS_AstBinaryExpr *assi = (RJS_AstBinaryExpr*)ast;
+
+        ast = ast_get(rt, &assi->operand1);
+    }
+
+    return ast->type == RJS_AST_ParenthesesExpr;
+}
+
 /*Convert the spread expression to rest binding.*/
 static RJS_Result
 spread_to_rest (RJS_Runtime *rt, RJS_AstUnaryExpr *ue, RJS_Value *vr, RJS_Bool is_binding)
@@ -2990,7 +3034,7 @@ array_to_binding (RJS_Runtime *rt, RJS_AstList *a, RJS_Value *b, RJS_Bool is_bin
             id   = id_get(rt, &be->binding);
             init = ast_get(rt, &be->init);
 
-            if (init && id)
+            if (init && id && !target_has_parentheses(rt, ast))
                 func_set_name(rt, init, &id->ast.location, &id->identifier->value);
             break;
         }
@@ -3010,15 +3054,31 @@ object_to_binding (RJS_Runtime *rt, RJS_AstList *o, RJS_Value *b, RJS_Bool is_bi
     RJS_Result   r;
     RJS_Ast     *ast;
     RJS_AstList *ob;
-    size_t       top = rjs_value_stack_save(rt);
-    RJS_Value   *tmp = rjs_value_stack_push(rt);
+    size_t       top      = rjs_value_stack_save(rt);
+    RJS_Value   *tmp      = rjs_value_stack_push(rt);
+    RJS_Bool     has_rest = RJS_FALSE;
 
     ob = ast_new(rt, b, RJS_AST_ObjectBinding, &o->ast.location);
 
     rjs_list_foreach_c(&o->list, ast, RJS_Ast, ln) {
+        if (has_rest) {
+            parse_error(rt, &ast->location, _("rest element may not be followed by any element"));
+            r = RJS_ERR;
+            goto end;
+        }
+
         switch (ast->type) {
         case RJS_AST_SpreadExpr: {
             RJS_AstUnaryExpr *ue = (RJS_AstUnaryExpr*)ast;
+            RJS_Ast          *target = ast_get(rt, &ue->operand);
+
+            has_rest = RJS_TRUE;
+
+            if (is_binding && (target->type != RJS_AST_Id)) {
+                parse_error(rt, &ast->location, _("the rest element of an object must be an identifier"));
+                r = RJS_ERR;
+                goto end;
+            }
 
             if ((r = spread_to_rest(rt, ue, tmp, is_binding)) == RJS_ERR)
                 goto end;
@@ -3039,6 +3099,9 @@ object_to_binding (RJS_Runtime *rt, RJS_AstList *o, RJS_Value *b, RJS_Bool is_bi
             rjs_value_copy(rt, &bp->name, &p->name);
             rjs_value_copy(rt, &bp->init, &p->init);
 
+            if (p->computed)
+                check_expr(rt, &p->name);
+
             expr = ast_get(rt, &p->value);
             if (expr) {
                 if ((r = expr_to_binding_init(rt, expr, &bp->binding, &bp->init, is_binding)) == RJS_ERR)
@@ -3046,12 +3109,17 @@ object_to_binding (RJS_Runtime *rt, RJS_AstList *o, RJS_Value *b, RJS_Bool is_bi
             } else {
                 RJS_AstValueExpr *ve = ast_get(rt, &p->name);
 
+                if (is_binding)
+                    check_binding_identifier(rt, &ast->location, &ve->ve->value);
+
+                check_expr(rt, &bp->init);
+
                 id_new(rt, &bp->binding, &ast->location, &ve->ve->value);
             }
 
             id   = id_get(rt, &bp->binding);
             init = ast_get(rt, &bp->init);
-            if (init && id)
+            if (init && id && !(expr && target_has_parentheses(rt, expr)))
                 func_set_name(rt, init, &id->ast.location, &id->identifier->value);
             break;
         }
@@ -3087,6 +3155,15 @@ expr_to_binding (RJS_Runtime *rt, RJS_Ast *e, RJS_Value *b, RJS_Bool is_binding)
     case RJS_AST_MemberExpr:
     case RJS_AST_SuperMemberExpr:
     case RJS_AST_PrivMemberExpr:
+        if (is_binding) {
+            parse_error(rt, &e->location, _("illegal binding"));
+            r = RJS_ERR;
+            goto end;
+        }
+
+        check_expr_ast(rt, e);
+        rjs_value_set_gc_thing(rt, b, e);
+        break;
     case RJS_AST_ArrayBinding:
     case RJS_AST_ObjectBinding:
         rjs_value_set_gc_thing(rt, b, e);
@@ -3105,6 +3182,16 @@ expr_to_binding (RJS_Runtime *rt, RJS_Ast *e, RJS_Value *b, RJS_Bool is_binding)
             goto end;
         break;
     }
+    case RJS_AST_ParenthesesExpr:
+        if (!is_binding) {
+            /*The parenthesized target is already checked.*/
+            RJS_AstUnaryExpr *ue = (RJS_AstUnaryExpr*)e;
+
+            if ((r = expr_to_binding(rt, ast_get(rt, &ue->operand), b, is_binding)) == RJS_ERR)
+                goto end;
+            break;
+        }
+        /*Fall through.*/
     default:
         parse_error(rt, &e->location, _("illegal binding"));
         r = RJS_ERR;
@@ -3130,6 +3217,9 @@ expr_to_binding_init (RJS_Runtime *rt, RJS_Ast *e, RJS_Value *b, RJS_Value *init
         r = expr_to_binding(rt, e, b, is_binding);
     }
 
+    if (r == RJS_OK)
+        check_expr(rt, init);
+
     return r;
 }
 
@@ -3202,6 +3292,7 @@ parse_parentheses_or_params (RJS_Runtime *rt, RJS_Value *ve, int prio)
     RJS_AstList      *ce       = NULL;
     RJS_Bool          has_rest = RJS_FALSE;
     RJS_Bool          is_arrow = RJS_FALSE;
+    RJS_Bool          last_comma = RJS_FALSE;
     size_t            top      = rjs_value_stack_save(rt);
     RJS_Value        *tmp      = rjs_value_stack_push(rt);
 
@@ -3254,12 +3345,18 @@ parse_parentheses_or_params (RJS_Runtime *rt, RJS_Value *ve, int prio)
         }
 
         tok = get_token(rt);
-        if (tok->type == RJS_TOKEN_rparenthese)
+        if (tok->type == RJS_TOKEN_rparenthese) {
+            last_comma = RJS_FALSE;
             break;
+        }
         if (tok->type != RJS_TOKEN_comma) {
             parse_unexpect_error(rt, &tok->location, _("`,\' or `)\'"));
             recover_params(rt);
-        } else if (has_rest) {
+        } else {
+            last_comma = RJS_TRUE;
+        }
+
+        if ((tok->type == RJS_TOKEN_comma) && has_rest) {
             parse_error(rt, &tok->location, _("`...\' cannot be followed with `,\'"));
         }
     }
@@ -3288,8 +3385,8 @@ parse_parentheses_or_params (RJS_Runtime *rt, RJS_Value *ve, int prio)
         rjs_value_copy(rt, ve, tmp);
     } else
 #endif /*ENABLE_ARROW_FUNC*/
-    if (has_rest || !ce) {
-        /*() or (...) must be an arrow parameter.*/
+    if (has_rest || !ce || last_comma) {
+        /*(), (a,) or (...) must be an arrow parameter.*/
         parse_unexpect_token_error(rt, &ntok->location, RJS_TOKEN_eq_gt, 0);
         r = RJS_ERR;
         goto end;
@@ -3526,7 +3623,7 @@ parse_object_literal (RJS_Runtime *rt, RJS_Value *vo)
                         } else if (tok->type == RJS_TOKEN_colon) {
                             RJS_Ast *ast = ast_get(rt, tmp1);
 
-                            prop = ast_new(rt, tmp2, RJS_AST_Prop, &ast->location);
+                            prop = ast_new(rt, tmp2, RJS_AST_Prop, ast ? &ast->location : &tok->location);
                             prop->computed = computed_pn;
                             rjs_value_copy(rt, &prop->name, tmp1);
 
@@ -3555,6 +3652,21 @@ parse_object_literal (RJS_Runtime *rt, RJS_Value *vo)
         if (tok->type != RJS_TOKEN_comma) {
             parse_unexpect_error(rt, &tok->location, _("`,\' or `}\'"));
             recover_object(rt);
+        } else {
+            RJS_Ast *last = NULL;
+
+            if (!rjs_list_is_empty(&o->list))
+                last = RJS_CONTAINER_OF(o->list.prev, RJS_Ast, ln);
+
+            ntok = next_token(rt);
+
+            /*Record the last comma, it is not allowed after a rest element.*/
+            if (last && (last->type == RJS_AST_SpreadExpr) && (ntok->type == RJS_TOKEN_rbrace)) {
+                RJS_Ast *e;
+
+                e = ast_new(rt, tmp1, RJS_AST_LastElision, &tok->location);
+                rjs_list_append(&o->list, &e->ln);
+            }
         }
     }
 
@@ -3564,8 +3676,6 @@ parse_object_literal (RJS_Runtime *rt, RJS_Value *vo)
     ntok = next_token_div(rt);
     if (ntok->type != RJS_TOKEN_eq) {
         RJS_Ast     *ast;
-        RJS_Location proto_loc;
-        RJS_Bool     has_proto = RJS_FALSE;
 
         rjs_list_foreach_c(&o->list, ast, RJS_Ast, ln) {
             RJS_AstProp      *prop;
@@ -3588,15 +3698,6 @@ parse_object_literal (RJS_Runtime *rt, RJS_Value *vo)
 
             ve = (RJS_AstValueExpr*)nast;
             if (rjs_same_value(rt, &ve->ve->value, rjs_s___proto__(rt))) {
-                /*Only 1 "__proto__" can be used.*/
-                if (has_proto) {
-                    parse_error(rt, &nast->location, _("\"__proto__\" is already defined"));
-                    parse_prev_define_note(rt, &proto_loc);
-                } else {
-                    has_proto = RJS_TRUE;
-                    proto_loc = nast->location;
-                }
-
                 /*Use "__proto__" to set prototype.*/
                 ast->type = RJS_AST_SetProto;
             }
@@ -3861,7 +3962,7 @@ parse_new_expr (RJS_Runtime *rt, RJS_Value *ve)
 
         loc_update_last_ast(rt, &ne->ast.location, &ne->func);
 
-        tok = get_token(rt);
+        tok = get_token_div(rt);
         unget_token(rt);
         if (tok->type == RJS_TOKEN_lparenthese) {
             if ((r = parse_arguments(rt, &ne->arg_list)) == RJS_ERR)
@@ -3941,6 +4042,30 @@ end:
     return r;
 }
 
+/*
+ * Check if the operand can replace the expression it is the value of.
+ * References, functions and strings have another meaning when they are not operands.
+ */
+static RJS_Bool
+is_foldable (RJS_Runtime *rt, RJS_Value *v)
+{
+    RJS_Ast *ast = ast_get(rt, v);
+
+    switch (ast->type) {
+    case RJS_AST_ValueExpr: {
+        RJS_AstValueExpr *ve = (RJS_AstValueExpr*)ast;
+
+        return !rjs_value_is_string(rt, &ve->ve->value);
+    }
+    case RJS_AST_True:
+    case RJS_AST_False:
+    case RJS_AST_Null:
+        return RJS_TRUE;
+    default:
+        return RJS_FALSE;
+    }
+}
+
 /*Parse logic and expression.*/
 static RJS_Result
 parse_logic_and_expr (RJS_Runtime *rt, Priority prio, RJS_Value *ve, RJS_Value *vop1)
@@ -3966,9 +4091,9 @@ parse_logic_and_expr (RJS_Runtime *rt, Priority prio, RJS_Value *ve, RJS_Value *
         b = RJS_FALSE;
     }
 
-    if (b == RJS_TRUE) {
+    if ((b == RJS_TRUE) && is_foldable(rt, re)) {
         rjs_value_copy(rt, ve, re);
-    } else if (b == RJS_FALSE) {
+    } else if ((b == RJS_FALSE) && is_foldable(rt, vop1)) {
         rjs_value_copy(rt, ve, vop1);
     } else {
         RJS_AstBinaryExpr *be;
@@ -4012,9 +4137,9 @@ parse_logic_or_expr (RJS_Runtime *rt, Priority prio, RJS_Value *ve, RJS_Value *v
         b = RJS_FALSE;
     }
 
-    if (b == RJS_TRUE) {
+    if ((b == RJS_TRUE) && is_foldable(rt, vop1)) {
         rjs_value_copy(rt, ve, vop1);
-    } else if (b == RJS_FALSE) {
+    } else if ((b == RJS_FALSE) && is_foldable(rt, re)) {
         rjs_value_copy(rt, ve, re);
     } else {
         RJS_AstBinaryExpr *be;
@@ -4055,15 +4180,11 @@ parse_ques_expr (RJS_Runtime *rt, Priority prio, RJS_Value *ve, RJS_Value *vop1)
                 || rjs_value_is_null(rt, &v->ve->value);
     } else if (ast->type == RJS_AST_Null) {
         b = RJS_TRUE;
-    } else if (ast->type == RJS_AST_Id) {
-        RJS_AstId *id = (RJS_AstId*)ast;
-
-        b = rjs_string_equal(rt, &id->identifier->value, rjs_s_undefined(rt));
     }
 
-    if (b == RJS_TRUE) {
+    if ((b == RJS_TRUE) && is_foldable(rt, re)) {
         rjs_value_copy(rt, ve, re);
-    } else if (r == RJS_FALSE) {
+    } else if ((b == RJS_FALSE) && is_foldable(rt, vop1)) {
         rjs_value_copy(rt, ve, vop1);
     } else {
         RJS_AstBinaryExpr *be;
@@ -4124,6 +4245,7 @@ parse_yield_expr (RJS_Runtime *rt, RJS_Value *ve)
                 || (tok->type == RJS_TOKEN_REGEXP)
                 || (tok->type == RJS_TOKEN_TEMPLATE)
                 || (tok->type == RJS_TOKEN_TEMPLATE_HEAD)
+                || (tok->type == RJS_TOKEN_PRIVATE_IDENTIFIER)
                 || (tok->type == RJS_TOKEN_IDENTIFIER)) {
             ue = ast_new(rt, ve, RJS_AST_YieldExpr, &loc);
 
@@ -4370,9 +4492,9 @@ parse_cond_expr (RJS_Runtime *rt, RJS_Value *ve, RJS_Value *vc)
         b = RJS_FALSE;
     }
 
-    if (b == RJS_TRUE) {
+    if ((b == RJS_TRUE) && is_foldable(rt, le)) {
         rjs_value_copy(rt, ve, le);
-    } else if (b == RJS_FALSE) {
+    } else if ((b == RJS_FALSE) && is_foldable(rt, re)) {
         rjs_value_copy(rt, ve, re);
     } else {
         ce  = ast_new(rt, ve, RJS_AST_CondExpr, &ast->location);
@@ -4658,7 +4780,7 @@ parse_call_expr (RJS_Runtime *rt, RJS_Value *ve, RJS_Value *vf, int prio)
     if (same_line
             && (prio <= PRIO_ASSI)
             && (ntok->type == RJS_TOKEN_eq_gt)
-            && (ntok->location.first_line == parser->last_line)) {
+            && (ntok->location.first_line == curr_token(rt)->location.last_line)) {
         ast = ast_get(rt, &ce->func);
 
         if (ast->type == RJS_AST_Id) {
@@ -4792,7 +4914,7 @@ parse_async_arrow_params (RJS_Runtime *rt, RJS_Value *ve, int prio)
 end:
     parser->flags = old_flags;
     rjs_value_stack_restore(rt, top);
-    return RJS_OK;
+    return r;
 }
 
 #endif /*ENABLE_ASYNC*/
@@ -4876,6 +4998,15 @@ parse_opt_expr (RJS_Runtime *rt, RJS_Value *ve, RJS_Value *vb, int prio)
         switch (tok->type) {
         case RJS_TOKEN_dot:
             tok = get_token(rt);
+            if ((tok->type != RJS_TOKEN_IDENTIFIER)
+#if ENABLE_PRIV_NAME
+                    && (tok->type != RJS_TOKEN_PRIVATE_IDENTIFIER)
+#endif /*ENABLE_PRIV_NAME*/
+                    ) {
+                parse_unexpect_token_error(rt, &tok->location, RJS_TOKEN_IDENTIFIER, 0);
+                r = RJS_ERR;
+                goto end;
+            }
             break;
         case RJS_TOKEN_lparenthese:
         case RJS_TOKEN_lbracket:
@@ -4948,8 +5079,12 @@ parse_expr_prio (RJS_Runtime *rt, Priority prio, RJS_Value *ve)
         if (!(parser->flags & RJS_PARSE_FL_IN)
                     || !token_is_identifier(ntok->type, ntok->flags, RJS_IDENTIFIER_in)) {
             parse_unexpect_error(rt, &tok->location, _("`in\'"));
+            r = RJS_ERR;
+            goto end;
         } else if (prio > PRIO_REL) {
             parse_error(rt, &tok->location, _("unexpected relational expression"));
+            r = RJS_ERR;
+            goto end;
         }
         break;
     }
@@ -5068,14 +5203,20 @@ parse_expr_prio (RJS_Runtime *rt, Priority prio, RJS_Value *ve)
         } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_false)) {
             ast_new(rt, tmp1, RJS_AST_False, &tok->location);
         } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_super)) {
-            last_prio = PRIO_LH;
-
-            if (last_prio < prio)
-                parse_error(rt, &tok->location, _("unexpected left hand expression"));
+            RJS_Ast *ast;
 
             unget_token(rt);
             if ((r = parse_super_expr(rt, tmp1)) == RJS_ERR)
                 goto end;
+
+            ast = ast_get(rt, tmp1);
+
+            if (ast->type == RJS_AST_SuperCallExpr) {
+                last_prio = PRIO_LH;
+
+                if (last_prio < prio)
+                    parse_error(rt, &tok->location, _("unexpected left hand expression"));
+            }
         } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_new)) {
             last_prio = PRIO_NEW;
 
@@ -5240,6 +5381,12 @@ parse_expr_prio (RJS_Runtime *rt, Priority prio, RJS_Value *ve)
 
             last_prio = PRIO_LH;
 
+            if (last_prio < prio) {
+                parse_error(rt, &tok->location, _("unexpected optional chain"));
+                r = RJS_ERR;
+                goto end;
+            }
+
             if ((r = parse_opt_expr(rt, tmp2, tmp1, prio)) == RJS_ERR)
                 goto end;
             break;
@@ -5869,6 +6016,13 @@ parse_object_binding_pattern (RJS_Runtime *rt, RJS_Value *vb)
                 id_new(rt, &rest->binding, &tok->location, tok->value);
 
                 rjs_list_append(&ob->list, &rest->ast.ln);
+
+                /*The rest property must be the last one.*/
+                ntok = next_token_div(rt);
+                if (ntok->type != RJS_TOKEN_rbrace) {
+                    parse_unexpect_token_error(rt, &ntok->location, RJS_TOKEN_rbrace, 0);
+                    r = RJS_ERR;
+                }
             }
         } else {
             RJS_Bool            is_prop = RJS_TRUE;
@@ -6402,6 +6556,7 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
     int             old_in      = parser->flags & RJS_PARSE_FL_IN;
     RJS_Bool        is_decl     = RJS_FALSE;
     RJS_Bool        is_async_of = RJS_FALSE;
+    RJS_Bool        is_let_expr = RJS_FALSE;
     RJS_AstDeclType dtype       = RJS_AST_DECL_LET;
     size_t          top         = rjs_value_stack_save(rt);
     RJS_Value      *tmp         = rjs_value_stack_push(rt);
@@ -6424,6 +6579,8 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
                 func->flags |= RJS_AST_FUNC_FL_ASYNC;
 
             stmt->ast.type = RJS_AST_AwaitForOfStmt;
+
+            contains_list_add(rt, RJS_AST_AwaitExprRef, &tok->location);
         } else {
             unget_token(rt);
         }
@@ -6464,6 +6621,8 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
                 if (is_binding_identifier(rt, ntok->type, ntok->flags)) {
                     is_decl = RJS_TRUE;
                     dtype   = RJS_AST_DECL_LET;
+                } else {
+                    is_let_expr = RJS_TRUE;
                 }
                 break;
             }
@@ -6538,8 +6697,24 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
                 parse_error(rt, &es->ast.location, _("`async\' is disallowed when followed by `of\' in for-of statement"));
             }
 
-            expr_to_lh(rt, &es->expr, tmp);
-            rjs_value_copy(rt, &es->expr, tmp);
+            /*Left hand expression of for-of must look ahead not let.*/
+            if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_of) && is_let_expr)
+                parse_error(rt, &es->ast.location, _("`let\' is disallowed as the start of for-of statement"));
+
+            if (expr_to_lh(rt, &es->expr, tmp) == RJS_OK)
+                rjs_value_copy(rt, &es->expr, tmp);
+        }
+    } else if (dtype == RJS_AST_DECL_STRICT || (is_decl && tok->type == RJS_TOKEN_semicolon)) {
+        /*Check the initializers of the declarations.*/
+        RJS_AstList        *l = ast_get(rt, &stmt->init);
+        RJS_AstBindingElem *be;
+
+        rjs_list_foreach_c(&l->list, be, RJS_AstBindingElem, ast.ln) {
+            RJS_Ast *target = ast_get(rt, &be->binding);
+
+            if (!ast_get(rt, &be->init) && target
+                    && ((dtype == RJS_AST_DECL_STRICT) || (target->type != RJS_AST_Id)))
+                parse_error(rt, &be->ast.location, _("expect an initializer of the declaration"));
         }
     } else if (!is_decl) {
         RJS_AstExprStmt *es = ast_get(rt, &stmt->init);
@@ -6645,6 +6820,7 @@ parse_switch_stmt_list (RJS_Runtime *rt, RJS_AstCase *cc)
     while (loop) {
         tok = get_token(rt);
         if ((tok->type == RJS_TOKEN_rbrace)
+                || (tok->type == RJS_TOKEN_END)
                 || token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_case)
                 || token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_default)) {
             unget_token(rt);
@@ -7155,7 +7331,10 @@ parse_return_stmt (RJS_Runtime *rt, RJS_Value *vs)
     }
 
     tok = get_token(rt);
-    if ((tok->location.first_line == parser->last_line) && (tok->type != RJS_TOKEN_semicolon)) {
+    if ((tok->location.first_line == parser->last_line)
+            && (tok->type != RJS_TOKEN_semicolon)
+            && (tok->type != RJS_TOKEN_rbrace)
+            && (tok->type != RJS_TOKEN_END)) {
         RJS_Ast *ast;
 
         unget_token(rt);
@@ -7462,6 +7641,12 @@ is_directive_prologue (RJS_Runtime *rt, RJS_Value *item)
 
         func->flags   |= RJS_AST_FUNC_FL_STRICT|RJS_AST_FUNC_FL_USE_STRICT;
         parser->flags |= RJS_PARSE_FL_STRICT;
+
+        /*The token after the directive is already read.*/
+        if ((parser->status & RJS_PARSE_ST_CURR_TOKEN)
+                && (parser->curr_token.type == RJS_TOKEN_NUMBER)
+                && (parser->curr_token.flags & RJS_TOKEN_FL_LEGACY_ESCAPE))
+            parse_error(rt, &parser->curr_token.location, _("legacy number cannot be used in strict mode"));
     }
 
     return RJS_TRUE;
@@ -7972,8 +8157,14 @@ parse_method_params_body (RJS_Runtime *rt, RJS_Bool in_obj, RJS_AstClassElem *m,
             parse_error(rt, &m->ast.location, _("getter cannot has any parameter"));
     } else if (m->type == RJS_AST_CLASS_ELEM_SET) {
         if (rjs_list_is_empty(&m->func->param_list)
-                || (m->func->param_list.next != m->func->param_list.prev))
+                || (m->func->param_list.next != m->func->param_list.prev)) {
             parse_error(rt, &m->ast.location, _("setter must has 1 parameter"));
+        } else {
+            RJS_Ast *param = RJS_CONTAINER_OF(m->func->param_list.next, RJS_Ast, ln);
+
+            if (param->type == RJS_AST_Rest)
+                parse_error(rt, &m->ast.location, _("setter cannot has a rest parameter"));
+        }
     }
 
     if ((r = parse_func_body(rt)) == RJS_ERR)
@@ -8150,9 +8341,14 @@ parse_class_element (RJS_Runtime *rt, RJS_Bool is_static, RJS_AstClass *c)
 
             func->flags |= RJS_AST_FUNC_FL_CLASS_FIELD_INIT;
 
+            /*"yield" and "await" cannot be used in the initializer.*/
+            parser->flags &= ~(RJS_PARSE_FL_AWAIT|RJS_PARSE_FL_YIELD);
+
             es = ast_new(rt, vstmt, RJS_AST_ReturnStmt, &func->ast.location);
             r  = parse_expr_in_prio(rt, PRIO_ASSI, &es->expr);
 
+            parser->flags = old_flags;
+
             contains_list_check(rt, CONTAINS_FL_SUPER_CALL|CONTAINS_FL_ARGUMENTS);
 
             func_pop(rt);
@@ -8597,6 +8793,10 @@ parse_name_imports (RJS_Runtime *rt, RJS_List *list, RJS_Hash *hash)
         tok = get_token(rt);
         if (tok->type == RJS_TOKEN_rbrace)
             break;
+        if (tok->type == RJS_TOKEN_END) {
+            parse_unexpect_token_error(rt, &tok->location, RJS_TOKEN_rbrace, 0);
+            return RJS_ERR;
+        }
 
         ie = import_new(rt, &tok->location, list);
 
@@ -8806,6 +9006,7 @@ export_new (RJS_Runtime *rt, RJS_Location *loc, RJS_List *list)
     ee->import_name = NULL;
     ee->export_name = NULL;
     ee->has_str     = RJS_FALSE;
+    ee->is_reserved = RJS_FALSE;
 
     ast_list_append(rt, list, tmp);
 
@@ -8825,15 +9026,17 @@ parse_name_exports (RJS_Runtime *rt, RJS_List *list)
         tok = get_token(rt);
         if (tok->type == RJS_TOKEN_rbrace)
             break;
+        if (tok->type == RJS_TOKEN_END) {
+            parse_unexpect_token_error(rt, &tok->location, RJS_TOKEN_rbrace, 0);
+            return RJS_ERR;
+        }
 
         ee = export_new(rt, &tok->location, list);
 
         if ((tok->type == RJS_TOKEN_STRING)
                 || (tok->type == RJS_TOKEN_IDENTIFIER)) {
-            if (tok->flags & RJS_TOKEN_FL_STRICT_RESERVED) {
-                parse_error(rt, &tok->location, _("\"%s\" cannot be used in export entry"),
-                        rjs_string_to_enc_chars(rt, tok->value, NULL, NULL));
-            }
+            if ((tok->type == RJS_TOKEN_IDENTIFIER) && !is_identifier(rt, tok->type, tok->flags))
+                ee->is_reserved = RJS_TRUE;
 
             if (tok->type == RJS_TOKEN_STRING) {
                 ee->has_str = RJS_TRUE;
@@ -8847,6 +9050,7 @@ parse_name_exports (RJS_Runtime *rt, RJS_List *list)
             ee->local_name = value_entry_add(rt, &tok->location, tok->value);
         } else {
             parse_unexpect_token_error(rt, &tok->location, RJS_TOKEN_IDENTIFIER, 0);
+            rjs_list_remove(&ee->ast.ln);
             recover_object(rt);
             continue;
         }
@@ -9013,13 +9217,15 @@ export_bindings_in_stmt (RJS_Runtime *rt, RJS_Value *vstmt, RJS_List *list)
     case RJS_AST_FuncDecl: {
         RJS_AstFuncRef *fr = (RJS_AstFuncRef*)ast;
 
-        export_local(rt, &fr->ast.location, &fr->func->name->value, list);
+        if (fr->func->name)
+            export_local(rt, &fr->ast.location, &fr->func->name->value, list);
         break;
     }
     case RJS_AST_ClassDecl: {
         RJS_AstClassRef *cr = (RJS_AstClassRef*)ast;
 
-        export_local(rt, &cr->ast.location, &cr->clazz->name->value, list);
+        if (cr->clazz->name)
+            export_local(rt, &cr->ast.location, &cr->clazz->name->value, list);
         break;
     }
     default:
@@ -9112,6 +9318,9 @@ parse_export_decl (RJS_Runtime *rt, RJS_Value *vs)
             rjs_list_foreach_c(&elist->list, ee, RJS_AstExport, ast.ln) {
                 if (ee->has_str)
                     parse_error(rt, &ee->local_name->ast.location, _("cannot use string literal as local name"));
+                else if (ee->is_reserved)
+                    parse_error(rt, &ee->local_name->ast.location, _("\"%s\" cannot be used in export entry"),
+                            rjs_string_to_enc_chars(rt, &ee->local_name->value, NULL, NULL));
             }
         }
 
@@ -9595,6 +9804,8 @@ parse_module (RJS_Runtime *rt, const char *id, RJS_Realm *realm, RJS_Value *rv)
     RJS_AstFunc   *func;
     RJS_Result     r;
     RJS_AstExport *ee;
+    RJS_AstImport *ie;
+    RJS_Hash       import_hash;
     RJS_Parser    *parser    = rt->parser;
     int            old_flags = parser->flags;
     size_t         top       = rjs_value_stack_save(rt);
@@ -9645,6 +9856,21 @@ parse_module (RJS_Runtime *rt, const char *id, RJS_Realm *realm, RJS_Value *rv)
 
     parser->flags = old_flags;
 
+    /*Check if the imported names are declared in the module.*/
+    hash_init(&import_hash);
+    rjs_list_foreach_c(&parser->import_list, ie, RJS_AstImport, ast.ln) {
+        if (!ie->local_name)
+            continue;
+
+        hash_add_import(rt, &import_hash, ie);
+
+        if (hash_lookup(rt, &func->lex_decl->item_hash, &ie->local_name->value, NULL)) {
+            parse_error(rt, &ie->ast.location, _("\"%s\" is already defined"),
+                    rjs_string_to_enc_chars(rt, &ie->local_name->value, NULL, NULL));
+        }
+    }
+    hash_deinit(rt, &import_hash);
+
     /*Check if the local export names is defined.*/
     rjs_list_foreach_c(&parser->local_export_list, ee, RJS_AstExport, ast.ln) {
         RJS_HashEntry *he;
diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index a3bdcc3..427cb78 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -922,6 +922,10 @@ parse_class_atom (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpChar *mc)
             mc->type = RJS_REGEXP_CHAR_NORMAL;
             mc->c.c  = '\b';
             break;
+        case '-':
+            mc->type = RJS_REGEXP_CHAR_NORMAL;
+            mc->c.c  = '-';
+            break;
         default:
             if ((r = parse_escape(rt, p, c, mc)) == RJS_ERR)
                 return r;
@@ -971,14 +975,6 @@ parse_class (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpTerm *term)
 
         c = get_uc(rt, p);
         if (c == '-') {
-            if (mc.type != RJS_REGEXP_CHAR_NORMAL) {
-                regexp_parse_error(rt, p, _("only normal character can be used in range"));
-                return RJS_ERR;
-            }
-
-            min = mc.c.c;
-            max = mc.c.c;
-
             c = get_uc(rt, p);
             unget_uc(rt, p, c);
 
@@ -988,6 +984,13 @@ parse_class (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpTerm *term)
                 ca.type  = mc.type;
                 ca.a.c.c = mc.c.c;
             } else {
+                if (mc.type != RJS_REGEXP_CHAR_NORMAL) {
+                    regexp_parse_error(rt, p, _("only normal character can be used in range"));
+                    return RJS_ERR;
+                }
+
+                min = mc.c.c;
+
                 if ((r = parse_class_atom(rt, p, &mc)) == RJS_ERR)
                     return r;
 
-- 
2.43.0


From 4511f8cb49de6e25fb6887c2f0e05d7dede5ea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 22/94] fix: property names in arrow function parameters belong
 to the arrow function

---
 src/lib/rjs_bc_gen.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index de61e09..877f34b 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -51,6 +51,23 @@ typedef struct {
     int                old_opt_label;/**< Old optional end label.*/
 } RJS_BcRef;
 
+/*Get the property reference belonging to the current function.
+The parameters of an arrow function are parsed in its outer function.*/
+static RJS_AstPropRef*
+bc_prop_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstPropRef *pr)
+{
+    if (pr && (pr->func != bg->func_ast)) {
+        size_t     top = rjs_value_stack_save(rt);
+        RJS_Value *tmp = rjs_value_stack_push(rt);
+
+        pr = rjs_code_gen_prop_ref(rt, tmp, &pr->ast.location, bg->func_ast, &pr->prop->value);
+
+        rjs_value_stack_restore(rt, top);
+    }
+
+    return pr;
+}
+
 /*Generate a statement.*/
 static RJS_Result
 bc_gen_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *stmt);
@@ -483,7 +500,7 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
         if (ast->type == RJS_AST_PropRef) {
             RJS_AstPropRef *pr = (RJS_AstPropRef*)ast;
 
-            ref->ref_name_prop = pr;
+            ref->ref_name_prop = bc_prop_ref(rt, bg, pr);
         } else {
             int tmp_rid = bc_reg_add(rt, bg);
 
@@ -523,7 +540,7 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
         if (ast->type == RJS_AST_PropRef) {
             RJS_AstPropRef *pr = (RJS_AstPropRef*)ast;
 
-            ref->ref_name_prop = pr;
+            ref->ref_name_prop = bc_prop_ref(rt, bg, pr);
         } else {
             int tmp_rid = bc_reg_add(rt, bg);
 
@@ -555,7 +572,7 @@ bc_gen_ref (RJS_Runtime *rt, RJS_BcGen *bg, RJS_Ast *expr, int rid, RJS_BcRef *r
         bc_gen_expr(rt, bg, ast, ref->base_rid);
 
         pir = bc_ast_get(rt, &be->operand2);
-        ref->ref_name_prop = bc_ast_get(rt, &pir->prop_ref);
+        ref->ref_name_prop = bc_prop_ref(rt, bg, bc_ast_get(rt, &pir->prop_ref));
         break;
     }
 #endif /*ENABLE_PRIV_NAME*/
-- 
2.43.0


From ac0e006f1d4a3d1b9dadff2ebbac890dc99a7d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 23/94] fix: an error that became a rejection is no longer
 pending

---
 src/lib/rjs_promise.c            |  8 ++++++--
 src/lib/rjs_promise_object_inc.c | 35 ++++++++++++++++----------------
 src/lib/rjs_script.c             | 10 ++++++---
 3 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/lib/rjs_promise.c b/src/lib/rjs_promise.c
index 3db2730..877dc56 100644
--- a/src/lib/rjs_promise.c
+++ b/src/lib/rjs_promise.c
@@ -253,10 +253,14 @@ promise_reaction_job (RJS_Runtime *rt, void *data)
 
     if (!rjs_value_is_undefined(rt, prp->reaction.capability.promise)) {
         if (r == RJS_OK) {
-            rjs_call(rt, prp->reaction.capability.resolve, rjs_v_undefined(rt), result, 1, NULL);
+            r = rjs_call(rt, prp->reaction.capability.resolve, rjs_v_undefined(rt), result, 1, NULL);
         } else {
-            rjs_call(rt, prp->reaction.capability.reject, rjs_v_undefined(rt), result, 1, NULL);
+            r = rjs_call(rt, prp->reaction.capability.reject, rjs_v_undefined(rt), result, 1, NULL);
         }
+
+        /*Nobody can catch an error of the job.*/
+        if (r == RJS_ERR)
+            rjs_catch(rt, NULL);
     }
 
     rjs_value_stack_restore(rt, top);
diff --git a/src/lib/rjs_promise_object_inc.c b/src/lib/rjs_promise_object_inc.c
index 5f6849a..8117ba4 100644
--- a/src/lib/rjs_promise_object_inc.c
+++ b/src/lib/rjs_promise_object_inc.c
@@ -67,8 +67,13 @@ RJS_Result
 if_abrupt_reject_promise (RJS_Runtime *rt, RJS_Result r, RJS_PromiseCapability *pc, RJS_Value *rv)
 {
     if (r == RJS_ERR) {
-        rjs_call(rt, pc->reject, rjs_v_undefined(rt), &rt->error, 1, NULL);
+        size_t     top = rjs_value_stack_save(rt);
+        RJS_Value *err = rjs_value_stack_push(rt);
+
+        rjs_catch(rt, err);
+        rjs_call(rt, pc->reject, rjs_v_undefined(rt), err, 1, NULL);
         rjs_value_copy(rt, rv, pc->promise);
+        rjs_value_stack_restore(rt, top);
     }
 
     return r;
@@ -313,13 +318,13 @@ static RJS_NF(Promise_all)
 
     r = get_promise_resolve(rt, thiz, resolve);
     if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+        r = rt->error_flag ? RJS_ERR : RJS_OK;
         goto end;
     }
 
     r = rjs_get_iterator(rt, iterable, RJS_ITERATOR_SYNC, NULL, &iterator_rec);
     if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+        r = rt->error_flag ? RJS_ERR : RJS_OK;
         goto end;
     }
 
@@ -329,7 +334,7 @@ static RJS_NF(Promise_all)
             rjs_iterator_close(rt, &iterator_rec);
 
         if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-            r = RJS_OK;
+            r = rt->error_flag ? RJS_ERR : RJS_OK;
             goto end;
         }
     }
@@ -374,8 +379,6 @@ static RJS_NF(promise_all_settled_resolve)
         rjs_value_set_undefined(rt, rv);
         r = RJS_OK;
     }
-
-    r = RJS_OK;
 end:
     rjs_value_stack_restore(rt, top);
     return r;
@@ -413,8 +416,6 @@ static RJS_NF(promise_all_settled_reject)
         rjs_value_set_undefined(rt, rv);
         r = RJS_OK;
     }
-
-    r = RJS_OK;
 end:
     rjs_value_stack_restore(rt, top);
     return r;
@@ -510,13 +511,13 @@ static RJS_NF(Promise_allSettled)
 
     r = get_promise_resolve(rt, thiz, resolve);
     if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+        r = rt->error_flag ? RJS_ERR : RJS_OK;
         goto end;
     }
 
     r = rjs_get_iterator(rt, iterable, RJS_ITERATOR_SYNC, NULL, &iterator_rec);
     if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+        r = rt->error_flag ? RJS_ERR : RJS_OK;
         goto end;
     }
 
@@ -526,7 +527,7 @@ static RJS_NF(Promise_allSettled)
             rjs_iterator_close(rt, &iterator_rec);
 
         if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-            r = RJS_OK;
+            r = rt->error_flag ? RJS_ERR : RJS_OK;
             goto end;
         }
     }
@@ -672,13 +673,13 @@ static RJS_NF(Promise_any)
 
     r = get_promise_resolve(rt, thiz, resolve);
     if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+        r = rt->error_flag ? RJS_ERR : RJS_OK;
         goto end;
     }
 
     r = rjs_get_iterator(rt, iterable, RJS_ITERATOR_SYNC, NULL, &iterator_rec);
     if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+        r = rt->error_flag ? RJS_ERR : RJS_OK;
         goto end;
     }
 
@@ -688,7 +689,7 @@ static RJS_NF(Promise_any)
             rjs_iterator_close(rt, &iterator_rec);
 
         if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-            r = RJS_OK;
+            r = rt->error_flag ? RJS_ERR : RJS_OK;
             goto end;
         }
     }
@@ -767,13 +768,13 @@ static RJS_NF(Promise_race)
 
     r = get_promise_resolve(rt, thiz, resolve);
     if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+        r = rt->error_flag ? RJS_ERR : RJS_OK;
         goto end;
     }
 
     r = rjs_get_iterator(rt, iterable, RJS_ITERATOR_SYNC, NULL, &iterator_rec);
     if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-        r = RJS_OK;
+        r = rt->error_flag ? RJS_ERR : RJS_OK;
         goto end;
     }
 
@@ -783,7 +784,7 @@ static RJS_NF(Promise_race)
             rjs_iterator_close(rt, &iterator_rec);
 
         if (if_abrupt_reject_promise(rt, r, &pc, rv) == RJS_ERR) {
-            r = RJS_OK;
+            r = rt->error_flag ? RJS_ERR : RJS_OK;
             goto end;
         }
     }
diff --git a/src/lib/rjs_script.c b/src/lib/rjs_script.c
index fb02540..836d35e 100644
--- a/src/lib/rjs_script.c
+++ b/src/lib/rjs_script.c
@@ -937,7 +937,7 @@ rjs_script_func_call (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value *v, RJ
                     req_type = RJS_GENERATOR_REQUEST_NEXT;
                 } else {
                     req_type = RJS_GENERATOR_REQUEST_THROW;
-                    rjs_value_copy(rt, rv, &rt->error);
+                    rjs_catch(rt, rv);
                 }
 
                 rjs_async_generator_complete_step(rt, &ctxt->function, req_type, rv, RJS_TRUE, NULL);
@@ -965,8 +965,12 @@ rjs_script_func_call (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value *v, RJ
             if (!rjs_value_is_undefined(rt, ac->capability.promise)) {
                 if (r == RJS_OK)
                     rjs_call(rt, ac->capability.resolve, rjs_v_undefined(rt), rv, 1, NULL);
-                else
-                    rjs_call(rt, ac->capability.reject, rjs_v_undefined(rt), &rt->error, 1, NULL);
+                else {
+                    RJS_Value *err = rjs_value_stack_push(rt);
+
+                    rjs_catch(rt, err);
+                    rjs_call(rt, ac->capability.reject, rjs_v_undefined(rt), err, 1, NULL);
+                }
             }
         }
 #endif /*ENABLE_ASYNC*/
-- 
2.43.0


From 2577b13f15b8c2ece720e9ad149369d37f912f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 24/94] fix: do not close an iterator that itself failed

---
 src/lib/rjs_array_object_inc.c | 5 +++++
 src/lib/rjs_hash_object_inc.c  | 8 ++++----
 src/lib/rjs_native_stack.c     | 4 +++-
 src/lib/rjs_operation.c        | 6 +++++-
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index e32663a..c99e213 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -144,6 +144,9 @@ static RJS_NF(Array_from)
                 goto end;
             }
 
+            /*A failed iterator and a finished iterator are not closed.*/
+            use_iter = RJS_FALSE;
+
             if ((r = rjs_iterator_step(rt, &iter_rec, next)) == RJS_ERR)
                 goto end;
 
@@ -158,6 +161,8 @@ static RJS_NF(Array_from)
             if ((r = rjs_iterator_value(rt, next, kv)) == RJS_ERR)
                 goto end;
 
+            use_iter = RJS_TRUE;
+
             if (mapping) {
                 rjs_value_set_number(rt, iv, k);
 
diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index ede08b0..b6c3238 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -200,13 +200,13 @@ set_new (RJS_Runtime *rt, RJS_Value *rv, RJS_Value *nt, int proto_idx, const RJS
 
     while (1) {
         if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if (!r)
             break;
 
         if ((r = rjs_iterator_value(rt, ir, iv)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if ((r = rjs_call(rt, adder, rv, iv, 1, res)) == RJS_ERR)
             goto iter_end;
@@ -270,13 +270,13 @@ map_new (RJS_Runtime *rt, RJS_Value *rv, RJS_Value *nt, int proto_idx, const RJS
 
     while (1) {
         if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if (!r)
             break;
 
         if ((r = rjs_iterator_value(rt, ir, iv)) == RJS_ERR)
-            goto iter_end;
+            goto end;
 
         if (!rjs_value_is_object(rt, iv)) {
             r = rjs_throw_type_error(rt, _("the result is not an object"));
diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index dce3573..02e6e28 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -463,8 +463,10 @@ rjs_iter_state_rest (RJS_Runtime *rt, RJS_Value *rv)
             break;
         }
 
-        if ((r = rjs_iterator_value(rt, result, item)) == RJS_ERR)
+        if ((r = rjs_iterator_value(rt, result, item)) == RJS_ERR) {
+            iter->done = RJS_TRUE;
             goto end;
+        }
 
         if ((r = rjs_create_data_property_or_throw_index(rt, rv, i, item)) == RJS_ERR)
             goto end;
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index ade2653..0768314 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -2244,9 +2244,11 @@ rjs_add_entries_from_iterable (RJS_Runtime *rt, RJS_Value *target, RJS_Value *it
 
     if ((r = rjs_get_iterator(rt, iterable, RJS_ITERATOR_SYNC, NULL, &iter)) == RJS_ERR)
         goto end;
-    need_close = RJS_TRUE;
 
     while (1) {
+        /*A failed iterator is not closed.*/
+        need_close = RJS_FALSE;
+
         if ((r = rjs_iterator_step(rt, &iter, ir)) == RJS_ERR)
             goto end;
 
@@ -2256,6 +2258,8 @@ rjs_add_entries_from_iterable (RJS_Runtime *rt, RJS_Value *target, RJS_Value *it
         if ((r = rjs_iterator_value(rt, ir, item)) == RJS_ERR)
             goto end;
 
+        need_close = RJS_TRUE;
+
         if (!rjs_value_is_object(rt, item)) {
             r = rjs_throw_type_error(rt, _("\"value\" of iterator result is not an object"));
             goto end;
-- 
2.43.0


From d9ec272516b456505d596a48bc590b55b84ce961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 25/94] fix: a return overridden by break or continue in
 finally leaves no value

---
 src/lib/rjs_bc_call.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index d5d57bb..8881826 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -1341,6 +1341,7 @@ restart:
     }
 
     rjs_value_set_undefined(rt, rv);
+    rjs_value_set_undefined(rt, &sc->retv);
 
     r = RJS_OK;
 ret:
-- 
2.43.0


From 2a3250194968013d435f0644ba0f12443439c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 26/94] fix: break to the label of a try statement from its
 catch and finally blocks

---
 src/lib/rjs_bc_gen.c | 7 +++++--
 src/lib/rjs_parser.c | 7 ++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 877f34b..9169072 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -3672,6 +3672,9 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
 
         line = ast->location.first_line;
 
+        /*Break in the finally block leaves the try statement.*/
+        ts->break_js.label = le;
+
         cid = bc_cmd_add(rt, bg, RJS_BC_finally, line);
 
         if (old_rv_reg != -1) {
@@ -3691,12 +3694,12 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
 
     cid = bc_cmd_add(rt, bg, RJS_BC_try_end, line);
 
+    cid = bc_cmd_add(rt, bg, RJS_BC_pop_state, line);
+
     cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
     cmd = bc_cmd_get(bg, cid);
     cmd->stub.label = le;
 
-    cid = bc_cmd_add(rt, bg, RJS_BC_pop_state, line);
-
     return RJS_OK;
 }
 
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 28133d3..a031d8e 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -7086,7 +7086,9 @@ parse_try_stmt (RJS_Runtime *rt, RJS_Value *vs)
             unget_token(rt);
         }
 
+        break_push(rt, &stmt->break_js, &stmt->ast);
         r = parse_block(rt, &stmt->catch_block);
+        break_pop(rt);
 
         if (stmt->catch_decl)
             decl_pop(rt);
@@ -7130,7 +7132,10 @@ parse_try_stmt (RJS_Runtime *rt, RJS_Value *vs)
 
     /*Finally block.*/
     if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_finally)) {
-        if ((r = parse_block(rt, &stmt->final_block)) == RJS_ERR)
+        break_push(rt, &stmt->break_js, &stmt->ast);
+        r = parse_block(rt, &stmt->final_block);
+        break_pop(rt);
+        if (r == RJS_ERR)
             goto end;
 
         loc_update_last_ast(rt, &stmt->ast.location, &stmt->final_block);
-- 
2.43.0


From 2ce4de213efbb834004e5c01aeebf17633806aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 27/94] fix: only free memory when the native stack of an
 unreachable generator is cleared

---
 src/lib/rjs_native_stack.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 02e6e28..a5b3b03 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1721,16 +1721,29 @@ rjs_native_stack_clear (RJS_Runtime *rt, RJS_NativeStack *ns)
 
     rt->rb.curr_native_stack = ns;
 
+    /*Only free the memory: "close" or "set" must not be invoked here.*/
     rjs_vector_foreach(&ns->state, i, s) {
-        /*Set the iterator done flag to avoid "close" be called*/
-        if ((s->type == RJS_STATE_FOR_IN)
-                || (s->type == RJS_STATE_FOR_OF)
-                || (s->type == RJS_STATE_ARRAY_ASSI)) {
+        switch (s->type) {
+        case RJS_STATE_FOR_IN:
+        case RJS_STATE_FOR_OF:
+        case RJS_STATE_ARRAY_ASSI:
             if (s->s.s_iter.iterator)
                 s->s.s_iter.iterator->done = RJS_TRUE;
+            rjs_state_deinit(rt, s, NULL, 0, NULL);
+            break;
+        case RJS_STATE_CLASS:
+#if ENABLE_PRIV_NAME
+            /*The running context's private environment is not changed.*/
+            s->s.s_class.priv_env = NULL;
+#endif /*ENABLE_PRIV_NAME*/
+            rjs_state_deinit(rt, s, NULL, 0, NULL);
+            break;
+        case RJS_STATE_OBJECT_ASSI:
+            rjs_state_deinit(rt, s, NULL, 0, NULL);
+            break;
+        default:
+            break;
         }
-
-        rjs_state_deinit(rt, s, NULL, 0, NULL);
     }
 
     rt->rb.curr_native_stack = curr_ns;
-- 
2.43.0


From 0927aedc8ce23cf061e24c0f67230bce482ba874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 28/94] fix: tail call that suspends a generator is a completed
 call

---
 src/lib/rjs_native_stack.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index a5b3b03..6b3dacd 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1205,12 +1205,18 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
     } else if ((flags & RJS_CALL_FL_EVAL)
             && rjs_same_value(rt, s->s.s_call.func, rjs_o_eval(realm))) {
         r = direct_eval(rt, s->s.s_call.args, s->s.s_call.argc, rv);
-        
+        if (r != RJS_ERR)
+            r = RJS_OK;
+
         rjs_state_pop(rt);
 #endif /*ENABLE_EVAL*/
     } else {
         r = rjs_call(rt, s->s.s_call.func, s->s.s_call.thiz, s->s.s_call.args, s->s.s_call.argc, rv);
-        
+
+        /*RJS_FALSE means the function is replaced, do not mix it with a suspended generator.*/
+        if (r != RJS_ERR)
+            r = RJS_OK;
+
         rjs_state_pop(rt);
     }
 
-- 
2.43.0


From 01e894fbf237338e7006a68d607d78c54765f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 29/94] fix: the object enumerated by for-in was collected
 while its iterator was created

---
 src/lib/rjs_for_in_iterator.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_for_in_iterator.c b/src/lib/rjs_for_in_iterator.c
index 7994454..930130f 100644
--- a/src/lib/rjs_for_in_iterator.c
+++ b/src/lib/rjs_for_in_iterator.c
@@ -122,20 +122,20 @@ rjs_for_in_iterator_new (RJS_Runtime *rt, RJS_Value *iterv, RJS_Value *v)
 
     RJS_NEW(rt, fii);
 
-    if (rjs_value_is_null(rt, v) || rjs_value_is_undefined(rt, v)) {
-        fii->visited = RJS_TRUE;
-        rjs_value_set_null(rt, &fii->v);
-    } else {
-        fii->visited = RJS_FALSE;
-
-        rjs_to_object(rt, v, &fii->v);
-    }
-
+    fii->visited = RJS_TRUE;
+    rjs_value_set_null(rt, &fii->v);
     rjs_value_set_undefined(rt, &fii->keys);
     rjs_hash_init(&fii->key_hash);
 
     r = rjs_object_init(rt, iterv, &fii->object, rjs_o_ForInIteratorPrototype(realm), &for_in_iterator_ops);
 
+    /*Store the object after the iterator is known by the collector.*/
+    if (!rjs_value_is_null(rt, v) && !rjs_value_is_undefined(rt, v)) {
+        fii->visited = RJS_FALSE;
+
+        rjs_to_object(rt, v, &fii->v);
+    }
+
     return r;
 }
 
-- 
2.43.0


From da8df7010a19fda4910f625d290b51ebf62ce784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:58 +0000
Subject: [PATCH 30/94] fix: the two element functions of Promise.allSettled
 share one already called flag

---
 src/lib/rjs_promise_object_inc.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_promise_object_inc.c b/src/lib/rjs_promise_object_inc.c
index 8117ba4..998252e 100644
--- a/src/lib/rjs_promise_object_inc.c
+++ b/src/lib/rjs_promise_object_inc.c
@@ -92,6 +92,7 @@ typedef struct {
 
 /**Promise single task data.*/
 typedef struct {
+    int             ref;    /**< Reference counter.*/
     RJS_PromiseAll *all;    /**< All reference*/
     size_t          index;  /**< The current promise index.*/
     RJS_Bool        called; /**< The function is already called.*/
@@ -160,6 +161,10 @@ promise_single_free (RJS_Runtime *rt, void *ptr)
 {
     RJS_PromiseSingle *s = ptr;
 
+    s->ref --;
+    if (s->ref > 0)
+        return;
+
     if (s->all)
         promise_all_free(rt, s->all);
 
@@ -174,6 +179,7 @@ promise_single_new (RJS_Runtime *rt, RJS_PromiseAll *all, size_t index)
 
     RJS_NEW(rt, s);
 
+    s->ref    = 1;
     s->called = RJS_FALSE;
     s->index  = index;
 
@@ -229,6 +235,25 @@ promise_all_func_new (RJS_Runtime *rt, RJS_Value *v, RJS_NativeFunc nf, size_t i
     return RJS_OK;
 }
 
+/*Create a new built-in function shares the single task data with the other function.*/
+static RJS_Result
+promise_all_func_share (RJS_Runtime *rt, RJS_Value *v, RJS_NativeFunc nf, RJS_Value *other)
+{
+    RJS_Realm         *realm = rjs_realm_current(rt);
+    RJS_PromiseSingle *single;
+    RJS_Result         r;
+
+    r = rjs_create_native_function(rt, NULL, nf, 1, rjs_s_empty(rt), realm, NULL, NULL, v);
+    if (r == RJS_ERR)
+        return r;
+
+    single = rjs_native_object_get_data(rt, other);
+    single->ref ++;
+    rjs_native_object_set_data(rt, v, NULL, single, promise_single_scan, promise_single_free);
+
+    return RJS_OK;
+}
+
 /*Perform promise all operation.*/
 static RJS_Result
 perform_promise_all (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *constr,
@@ -474,7 +499,7 @@ perform_promise_all_settled (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *con
         if ((r = promise_all_func_new(rt, fulfill, promise_all_settled_resolve, index, all)) == RJS_ERR)
             goto end;
 
-        if ((r = promise_all_func_new(rt, reject, promise_all_settled_reject, index, all)) == RJS_ERR)
+        if ((r = promise_all_func_share(rt, reject, promise_all_settled_reject, fulfill)) == RJS_ERR)
             goto end;
 
         all->left ++;
-- 
2.43.0


From ff568a29295440e4c1fa5c89d95be86c3d711cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 31/94] fix: build the elements of fresh arrays as own data
 properties

---
 src/lib/rjs_extension_opt.c      |  2 +-
 src/lib/rjs_hash_object_inc.c    |  8 ++++----
 src/lib/rjs_json_opt.c           |  2 +-
 src/lib/rjs_operation.c          |  2 +-
 src/lib/rjs_promise_object_inc.c | 14 +++++++-------
 src/lib/rjs_proxy_object_opt.c   |  4 ++--
 src/lib/rjs_string_object_inc.c  |  6 +++---
 7 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 1570318..c7b9132 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -592,7 +592,7 @@ static RJS_NF(ext_modules)
 
     rjs_hash_foreach_c(&rt->mod_hash, i, mod, RJS_Module, he) {
         rjs_string_from_enc_chars(rt, name, mod->script.path, -1, NULL);
-        if ((r = rjs_set_index(rt, rv, idx, name, RJS_TRUE)) == RJS_ERR)
+        if ((r = rjs_create_data_property_or_throw_index(rt, rv, idx, name)) == RJS_ERR)
             goto end;
 
         idx ++;
diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index b6c3238..9afb2f1 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -531,8 +531,8 @@ static RJS_NF(hash_iter_next)
 #if ENABLE_SET
             {
                 se = RJS_CONTAINER_OF(hi->curr, RJS_SetEntry, ln);
-                rjs_set_index(rt, v, 0, &se->key, RJS_TRUE);
-                rjs_set_index(rt, v, 1, &se->key, RJS_TRUE);
+                rjs_create_data_property_or_throw_index(rt, v, 0, &se->key);
+                rjs_create_data_property_or_throw_index(rt, v, 1, &se->key);
             }
 #endif /*ENABLE_SET*/
 #if ENABLE_MAP && ENABLE_SET
@@ -541,8 +541,8 @@ static RJS_NF(hash_iter_next)
 #if ENABLE_MAP
             {
                 me = RJS_CONTAINER_OF(hi->curr, RJS_MapEntry, se.ln);
-                rjs_set_index(rt, v, 0, &me->se.key, RJS_TRUE);
-                rjs_set_index(rt, v, 1, &me->value, RJS_TRUE);
+                rjs_create_data_property_or_throw_index(rt, v, 0, &me->se.key);
+                rjs_create_data_property_or_throw_index(rt, v, 1, &me->value);
             }
 #endif /*ENABLE_MAP*/
             break;
diff --git a/src/lib/rjs_json_opt.c b/src/lib/rjs_json_opt.c
index 32031fa..1f09507 100644
--- a/src/lib/rjs_json_opt.c
+++ b/src/lib/rjs_json_opt.c
@@ -165,7 +165,7 @@ parse_array (RJS_Runtime *rt, RJS_JsonParser *jp, RJS_Value *v)
         if ((r = parse_value(rt, jp, item)) == RJS_ERR)
             goto end;
 
-        rjs_set_index(rt, v, idx, item, RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, v, idx, item);
 
         idx ++;
 
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 0768314..c2d0757 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -761,7 +761,7 @@ rjs_create_array_from_list (RJS_Runtime *rt, RJS_ValueList *vl, RJS_Value *a)
 
     rjs_list_foreach_c(&vl->seg_list, vls, RJS_ValueListSegment, ln) {
         for (i = 0; i < vls->num; i ++) {
-            if ((r = rjs_set_index(rt, a, k, &vls->v[i], RJS_TRUE)) == RJS_ERR)
+            if ((r = rjs_create_data_property_or_throw_index(rt, a, k, &vls->v[i])) == RJS_ERR)
                 return r;
 
             k ++;
diff --git a/src/lib/rjs_promise_object_inc.c b/src/lib/rjs_promise_object_inc.c
index 998252e..4ef86fd 100644
--- a/src/lib/rjs_promise_object_inc.c
+++ b/src/lib/rjs_promise_object_inc.c
@@ -205,7 +205,7 @@ static RJS_NF(promise_all_resolve)
     single->called = RJS_TRUE;
     all->left --;
 
-    rjs_set_index(rt, &all->values, single->index, x, RJS_TRUE);
+    rjs_create_data_property_or_throw_index(rt, &all->values, single->index, x);
 
     if (all->left == 0) {
         r = rjs_call(rt, all->pc.resolve, rjs_v_undefined(rt), &all->values, 1, rv);
@@ -301,7 +301,7 @@ perform_promise_all (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *constr,
             goto end;
         }
 
-        rjs_set_index(rt, values, index, rjs_v_undefined(rt), RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, values, index, rjs_v_undefined(rt));
 
         if ((r = rjs_call(rt, resolve, constr, nextv, 1, nextp)) == RJS_ERR)
             goto end;
@@ -394,7 +394,7 @@ static RJS_NF(promise_all_settled_resolve)
     rjs_create_data_property_or_throw(rt, obj, rjs_pn_status(rt), rjs_s_fulfilled(rt));
     rjs_create_data_property_or_throw(rt, obj, rjs_pn_value(rt), x);
 
-    rjs_set_index(rt, &all->values, single->index, obj, RJS_TRUE);
+    rjs_create_data_property_or_throw_index(rt, &all->values, single->index, obj);
 
     all->left --;
 
@@ -431,7 +431,7 @@ static RJS_NF(promise_all_settled_reject)
     rjs_create_data_property_or_throw(rt, obj, rjs_pn_status(rt), rjs_s_rejected(rt));
     rjs_create_data_property_or_throw(rt, obj, rjs_pn_reason(rt), x);
 
-    rjs_set_index(rt, &all->values, single->index, obj, RJS_TRUE);
+    rjs_create_data_property_or_throw_index(rt, &all->values, single->index, obj);
 
     all->left --;
     
@@ -491,7 +491,7 @@ perform_promise_all_settled (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *con
             goto end;
         }
 
-        rjs_set_index(rt, values, index, rjs_v_undefined(rt), RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, values, index, rjs_v_undefined(rt));
 
         if ((r = rjs_call(rt, resolve, constr, nextv, 1, nextp)) == RJS_ERR)
             goto end;
@@ -584,7 +584,7 @@ static RJS_NF(promise_any_reject)
 
     single->called = RJS_TRUE;
 
-    rjs_set_index(rt, &all->values, single->index, x, RJS_TRUE);
+    rjs_create_data_property_or_throw_index(rt, &all->values, single->index, x);
 
     all->left --;
 
@@ -656,7 +656,7 @@ perform_promise_any (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *constr,
             goto end;
         }
 
-        rjs_set_index(rt, errors, index, rjs_v_undefined(rt), RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, errors, index, rjs_v_undefined(rt));
 
         if ((r = rjs_call(rt, resolve, constr, nextv, 1, nextp)) == RJS_ERR)
             goto end;
diff --git a/src/lib/rjs_proxy_object_opt.c b/src/lib/rjs_proxy_object_opt.c
index f08b8c3..68b8bb9 100644
--- a/src/lib/rjs_proxy_object_opt.c
+++ b/src/lib/rjs_proxy_object_opt.c
@@ -992,7 +992,7 @@ proxy_object_op_call (RJS_Runtime *rt, RJS_Value *o, RJS_Value *thiz, RJS_Value
     rjs_array_new(rt, targs, argc, NULL);
     for (i = 0; i < argc; i ++) {
         arg = rjs_value_buffer_item(rt, args, i);
-        rjs_set_index(rt, targs, i, arg, RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, targs, i, arg);
     }
 
     r = rjs_call(rt, trap, handler, target, 3, rv);
@@ -1038,7 +1038,7 @@ proxy_object_op_construct (RJS_Runtime *rt, RJS_Value *o, RJS_Value *args, size_
     rjs_array_new(rt, targs, argc, NULL);
     for (i = 0; i < argc; i ++) {
         arg = rjs_value_buffer_item(rt, args, i);
-        rjs_set_index(rt, targs, i, arg, RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, targs, i, arg);
     }
 
     if ((r = rjs_call(rt, trap, handler, target, 3, rv)) == RJS_ERR)
diff --git a/src/lib/rjs_string_object_inc.c b/src/lib/rjs_string_object_inc.c
index 1f689c1..2c326b3 100644
--- a/src/lib/rjs_string_object_inc.c
+++ b/src/lib/rjs_string_object_inc.c
@@ -1279,7 +1279,7 @@ static RJS_NF(String_prototype_split)
             if ((r = rjs_string_substr(rt, s, i, i + 1, sub)) == RJS_ERR)
                 goto end;
 
-            if ((r = rjs_set_index(rt, rv, i, sub, RJS_TRUE)) == RJS_ERR)
+            if ((r = rjs_create_data_property_or_throw_index(rt, rv, i, sub)) == RJS_ERR)
                 goto end;
         }
 
@@ -1302,7 +1302,7 @@ static RJS_NF(String_prototype_split)
         if ((r = rjs_string_substr(rt, s, start, idx, sub)) == RJS_ERR)
             goto end;
 
-        if ((r = rjs_set_index(rt, rv, n, sub, RJS_TRUE)) == RJS_ERR)
+        if ((r = rjs_create_data_property_or_throw_index(rt, rv, n, sub)) == RJS_ERR)
             goto end;
 
         n ++;
@@ -1319,7 +1319,7 @@ static RJS_NF(String_prototype_split)
     if ((r = rjs_string_substr(rt, s, start, len, sub)) == RJS_ERR)
         goto end;
 
-    if ((r = rjs_set_index(rt, rv, n, sub, RJS_TRUE)) == RJS_ERR)
+    if ((r = rjs_create_data_property_or_throw_index(rt, rv, n, sub)) == RJS_ERR)
         goto end;
 
     r = RJS_OK;
-- 
2.43.0


From c0f114eadfd89130e4449f4aedc5a482ad9cc263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 32/94] fix: next requests queued when an async generator
 completes give undefined

---
 src/lib/rjs_generator_opt.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_generator_opt.c b/src/lib/rjs_generator_opt.c
index 17d9a48..7ab1c86 100644
--- a/src/lib/rjs_generator_opt.c
+++ b/src/lib/rjs_generator_opt.c
@@ -432,7 +432,12 @@ rjs_async_generator_drain_queue (RJS_Runtime *rt, RJS_Value *gv)
             async_generator_await_return(rt, gv);
             break;
         } else {
-            rjs_async_generator_complete_step(rt, gv, agr->type, &agr->value, RJS_TRUE, NULL);
+            /*The result of "next" on a completed generator is undefined.*/
+            RJS_Value *v = (agr->type == RJS_GENERATOR_REQUEST_NEXT)
+                    ? rjs_v_undefined(rt)
+                    : &agr->value;
+
+            rjs_async_generator_complete_step(rt, gv, agr->type, v, RJS_TRUE, NULL);
         }
     }
 
-- 
2.43.0


From 7404165477c0333d47d250ae62345bf33a6a7782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:20 +0000
Subject: [PATCH 33/94] fix: a returned call in an async function or a
 generator is not a tail call

---
 src/lib/rjs_bc_gen.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 9169072..b9dbbe9 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -2660,11 +2660,22 @@ bc_gen_return_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstExprStmt *ts)
     int            rid;
     RJS_Ast       *ast;
     RJS_BcCommand *cmd;
+    RJS_Bool       tco = bg->tco;
 
     rid = bc_reg_add(rt, bg);
 
     line = ts->ast.location.first_line;
 
+    /*The call in an async function or a generator is not a tail call.*/
+#if ENABLE_ASYNC
+    if (bg->func_ast->flags & RJS_AST_FUNC_FL_ASYNC)
+        tco = RJS_FALSE;
+#endif /*ENABLE_ASYNC*/
+#if ENABLE_GENERATOR
+    if (bg->func_ast->flags & RJS_AST_FUNC_FL_GENERATOR)
+        tco = RJS_FALSE;
+#endif /*ENABLE_GENERATOR*/
+
     ast = bc_ast_get(rt, &ts->expr);
     if (ast) {
         if (ast->type == RJS_AST_CommaExpr) {
@@ -2684,9 +2695,9 @@ bc_gen_return_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstExprStmt *ts)
             ast = RJS_CONTAINER_OF(list->list.prev, RJS_Ast, ln);
         }
 
-        if ((ast->type == RJS_AST_CallExpr) && bg->tco) {
+        if ((ast->type == RJS_AST_CallExpr) && tco) {
             bc_gen_call_expr(rt, bg, (RJS_AstCall*)ast, rid, RJS_TRUE);
-        } else if ((ast->type == RJS_AST_Template) && bg->tco) {
+        } else if ((ast->type == RJS_AST_Template) && tco) {
             bc_gen_templ_expr(rt, bg, (RJS_AstTemplate*)ast, rid, RJS_TRUE);
         } else {
 #if ENABLE_ASYNC && ENABLE_GENERATOR
-- 
2.43.0


From cd6e0dd116020e4639f8a9895863246ecc089340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 34/94] fix: generator objects have no own length property

---
 src/lib/rjs_generator_opt.c      |  4 +++-
 src/lib/rjs_script_func_object.c | 12 +++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_generator_opt.c b/src/lib/rjs_generator_opt.c
index 7ab1c86..f7bb4eb 100644
--- a/src/lib/rjs_generator_opt.c
+++ b/src/lib/rjs_generator_opt.c
@@ -1136,7 +1136,9 @@ rjs_generator_function_new (RJS_Runtime *rt, RJS_Value *f, RJS_Value *def_proto,
     rjs_script_func_object_init(rt, f, sfo, def_proto, script, sf, env, priv_env,
             &generator_function_ops);
 
-    /*Set the function's name.*/
+    /*Set the function's length and name.*/
+    rjs_set_function_length(rt, f, sf->param_len);
+
     if (sf->name_idx != RJS_INVALID_VALUE_INDEX) {
         RJS_Value *name = &script->value_table[sf->name_idx];
 
diff --git a/src/lib/rjs_script_func_object.c b/src/lib/rjs_script_func_object.c
index 27ea4e9..4416fdb 100644
--- a/src/lib/rjs_script_func_object.c
+++ b/src/lib/rjs_script_func_object.c
@@ -382,13 +382,15 @@ rjs_script_func_object_init (RJS_Runtime *rt, RJS_Value *v, RJS_ScriptFuncObject
 
     rjs_base_func_object_init(rt, v, &sfo->bfo, proto, ops, script);
 
-    rjs_set_function_length(rt, v, sf->param_len);
-
-    if ((sf->name_idx != RJS_INVALID_VALUE_INDEX)
 #if ENABLE_GENERATOR
-            && !(sf->flags & RJS_FUNC_FL_GENERATOR)
+    /*Generator objects are initialized here too, they have not own properties.*/
+    if (sf->flags & RJS_FUNC_FL_GENERATOR)
+        return;
 #endif /*ENABLE_GENERATOR*/
-            ) {
+
+    rjs_set_function_length(rt, v, sf->param_len);
+
+    if (sf->name_idx != RJS_INVALID_VALUE_INDEX) {
         RJS_Value *n = &script->value_table[sf->name_idx];
 
         rjs_set_function_name(rt, v, n, NULL);
-- 
2.43.0


From 24fe5128eeca308eee25be8bd580e91d6375ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 35/94] fix: private environments are stored under the index
 their class uses

---
 src/lib/rjs_code_gen_inc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_code_gen_inc.c b/src/lib/rjs_code_gen_inc.c
index ad889be..bc33b2d 100644
--- a/src/lib/rjs_code_gen_inc.c
+++ b/src/lib/rjs_code_gen_inc.c
@@ -457,12 +457,13 @@ gen_script_internal (RJS_Runtime *rt, RJS_Script *script)
         RJS_NEW_N(rt, script->priv_id_table, script->priv_id_num);
         RJS_NEW_N(rt, script->priv_env_table, script->priv_env_num);
 
-        env = script->priv_env_table;
         pid = script->priv_id_table;
         idx = 0;
 
         rjs_list_foreach_c(&parser->priv_env_list, ast_env, RJS_AstPrivEnv, ast.ln) {
             if (ast_env->id != -1) {
+                env = script->priv_env_table + ast_env->id;
+
                 env->priv_id_start = idx;
                 env->priv_id_num   = ast_env->priv_id_hash.entry_num;
 
@@ -472,7 +473,6 @@ gen_script_internal (RJS_Runtime *rt, RJS_Script *script)
                 }
 
                 idx += env->priv_id_num;
-                env ++;
             }
         }
     }
-- 
2.43.0


From ba4d83dbf94caa4d8c33d38ff78c9ce0095805b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 36/94] fix: instance elements exist before static fields and
 blocks run

---
 src/lib/rjs_native_stack.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 6b3dacd..0d26eec 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -680,6 +680,19 @@ rjs_class_state_init (RJS_Runtime *rt)
             sf->is_af = se->is_af;
             sf ++;
             break;
+        default:
+            break;
+        }
+
+        s = rjs_state_top(rt);
+    }
+
+    /*The constructor may be used by the static fields and the static blocks.*/
+    bfo->clazz = clazz;
+    clazz      = NULL;
+
+    rjs_list_foreach_c(s->s.s_class.elem_list, se, RJS_StateClassElement, ln) {
+        switch (se->type) {
         case RJS_CLASS_ELEMENT_STATIC_INIT:
             if ((r = rjs_call(rt, &se->value, s->s.s_class.constr, NULL, 0, NULL)) == RJS_ERR)
                 goto end;
@@ -689,17 +702,15 @@ rjs_class_state_init (RJS_Runtime *rt)
                 goto end;
             break;
         default:
-            assert(0);
             break;
         }
 
         s = rjs_state_top(rt);
     }
 
-    bfo->clazz = clazz;
     r = RJS_OK;
 end:
-    if (r == RJS_ERR) {
+    if (clazz) {
 #if ENABLE_PRIV_NAME
         if (clazz->priv_methods)
             RJS_DEL_N(rt, clazz->priv_methods, clazz->priv_method_num);
-- 
2.43.0


From 2fb63032be9dfba3c8f36282b9ee964c2c6f12c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 37/94] fix: nested new expressions take an argument list each

---
 src/lib/rjs_parser.c | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index a031d8e..e390e40 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -3941,16 +3941,6 @@ parse_new_expr (RJS_Runtime *rt, RJS_Value *ve)
 
         /*Add new.target to contains list.*/
         contains_list_add(rt, RJS_AST_NewTargetRef, &ast->location);
-    } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_new)) {
-        RJS_AstCall *ne;
-
-        ne = ast_new(rt, ve, RJS_AST_NewExpr, &loc);
-
-        unget_token(rt);
-        if ((r = parse_expr_prio(rt, PRIO_NEW, &ne->func)) == RJS_ERR)
-            goto end;
-
-        loc_update_last_ast(rt, &ne->ast.location, &ne->func);
     } else {
         RJS_AstCall *ne;
 
@@ -5218,10 +5208,7 @@ parse_expr_prio (RJS_Runtime *rt, Priority prio, RJS_Value *ve)
                     parse_error(rt, &tok->location, _("unexpected left hand expression"));
             }
         } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_new)) {
-            last_prio = PRIO_NEW;
-
-            if (last_prio < prio)
-                parse_error(rt, &tok->location, _("unexpected new expression"));
+            last_prio = (prio == PRIO_MEMBER) ? PRIO_MEMBER : PRIO_NEW;
 
             unget_token(rt);
             if ((r = parse_new_expr(rt, tmp1)) == RJS_ERR)
-- 
2.43.0


From e6d0163db7a9ab11122bceb05954e4f8f8605d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 38/94] fix: the Function constructor rejects parameters or
 bodies that are only valid together

---
 src/lib/rjs_parser.c             |  2 +
 src/lib/rjs_script_func_object.c | 69 ++++++++++++++++++++++++--------
 2 files changed, 55 insertions(+), 16 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index e390e40..7ee2dca 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -9632,6 +9632,8 @@ parse_function (RJS_Runtime *rt, RJS_Realm *realm, RJS_Value *rv)
 
     parse_hoistable_decl(rt, RJS_FALSE, tmp);
 
+    get_token_expect(rt, RJS_TOKEN_END);
+
 #if ENABLE_PRIV_NAME
     check_priv_ids(rt);
 #endif /*ENABLE_PRIV_NAME*/
diff --git a/src/lib/rjs_script_func_object.c b/src/lib/rjs_script_func_object.c
index 4416fdb..34b581e 100644
--- a/src/lib/rjs_script_func_object.c
+++ b/src/lib/rjs_script_func_object.c
@@ -426,6 +426,26 @@ rjs_script_func_object_make_constructor (RJS_Runtime *rt, RJS_Value *f)
     return RJS_OK;
 }
 
+/*Parse the source of a dynamic function.*/
+static RJS_Result
+parse_dynamic_function (RJS_Runtime *rt, RJS_Value *src, RJS_Value *scriptv)
+{
+    RJS_Input  si;
+    RJS_Result r;
+
+    if ((r = rjs_string_input_init(rt, &si, src)) == RJS_ERR)
+        return r;
+
+    si.flags |= RJS_INPUT_FL_CRLF_TO_LF;
+
+    if ((r = rjs_parse_function(rt, &si, rjs_realm_current(rt), scriptv)) == RJS_ERR)
+        r = rjs_throw_syntax_error(rt, _("function syntax error"));
+
+    rjs_input_deinit(rt, &si);
+
+    return r;
+}
+
 /**
  * Create a dynamic function.
  * \param rt The current runtime.
@@ -447,15 +467,14 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
     RJS_Value       *src        = rjs_value_stack_push(rt);
     RJS_Value       *scriptv    = rjs_value_stack_push(rt);
     RJS_Value       *proto      = rjs_value_stack_push(rt);
-    RJS_Bool         need_close = RJS_FALSE;
     size_t           i          = 0;
     int              fallback_proto;
     RJS_Environment *global_env;
     RJS_Value       *arg;
     RJS_UCharBuffer  ucb;
-    RJS_Input        si;
     RJS_Script      *script;
     RJS_ScriptFunc  *sf;
+    size_t           param_begin, param_end, body_begin;
     RJS_Result       r;
 
     /*Create the input string.*/
@@ -474,6 +493,7 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
 #endif /*ENABLE_GENERATOR*/
 
     rjs_uchar_buffer_append_chars(rt, &ucb, " anonymous(", -1);
+    param_begin = ucb.item_num;
 
     if (argc > 1) {
         for (i = 0; i < argc - 1; i ++) {
@@ -489,7 +509,9 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
         }
     }
 
+    param_end = ucb.item_num;
     rjs_uchar_buffer_append_chars(rt, &ucb, "\n) {\n", -1);
+    body_begin = ucb.item_num;
 
     if (i < argc) {
         arg = rjs_argument_get(rt, args, argc, i);
@@ -501,22 +523,38 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
     }
 
     rjs_uchar_buffer_append_chars(rt, &ucb, "\n}", -1);
-    rjs_string_from_uchars(rt, src, ucb.items, ucb.item_num);
 
-    rjs_uchar_buffer_deinit(rt, &ucb);
+    /*The parameters and the body must be valid without each other.*/
+    if (param_begin != param_end) {
+        RJS_UCharBuffer part;
 
-    /*Create the input source.*/
-    if ((r = rjs_string_input_init(rt, &si, src)) == RJS_ERR)
-        goto end;
+        rjs_uchar_buffer_init(rt, &part);
 
-    si.flags |= RJS_INPUT_FL_CRLF_TO_LF;
-    need_close = RJS_TRUE;
+        rjs_uchar_buffer_append_uchars(rt, &part, ucb.items, body_begin);
+        rjs_uchar_buffer_append_chars(rt, &part, "\n}", -1);
+        rjs_string_from_uchars(rt, src, part.items, part.item_num);
+
+        if ((r = parse_dynamic_function(rt, src, scriptv)) == RJS_OK) {
+            rjs_uchar_buffer_clear(rt, &part);
+
+            rjs_uchar_buffer_append_uchars(rt, &part, ucb.items, param_begin);
+            rjs_uchar_buffer_append_uchars(rt, &part, ucb.items + param_end, ucb.item_num - param_end);
+            rjs_string_from_uchars(rt, src, part.items, part.item_num);
+
+            r = parse_dynamic_function(rt, src, scriptv);
+        }
+
+        rjs_uchar_buffer_deinit(rt, &part);
+
+        if (r == RJS_ERR)
+            goto end;
+    }
 
     /*Parse the function.*/
-    if ((r = rjs_parse_function(rt, &si, rjs_realm_current(rt), scriptv)) == RJS_ERR) {
-        r = rjs_throw_syntax_error(rt, _("function syntax error"));
+    rjs_string_from_uchars(rt, src, ucb.items, ucb.item_num);
+
+    if ((r = parse_dynamic_function(rt, src, scriptv)) == RJS_ERR)
         goto end;
-    }
 
     script     = rjs_value_get_gc_thing(rt, scriptv);
     sf         = script->func_table;
@@ -545,7 +583,8 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
         fallback_proto = RJS_O_Function_prototype;
     }
 
-    rjs_get_prototype_from_constructor(rt, nt, fallback_proto, proto);
+    if ((r = rjs_get_prototype_from_constructor(rt, nt, fallback_proto, proto)) == RJS_ERR)
+        goto end;
 
     /*Create the function.*/
 #if ENABLE_GENERATOR
@@ -564,9 +603,7 @@ rjs_create_dynamic_function (RJS_Runtime *rt, RJS_Value *constr, RJS_Value *nt,
             rjs_make_constructor(rt, func, RJS_TRUE, NULL);
     }
 end:
-    if (need_close)
-        rjs_input_deinit(rt, &si);
-
+    rjs_uchar_buffer_deinit(rt, &ucb);
     rjs_value_stack_restore(rt, top);
     return r;
 }
-- 
2.43.0


From 6e94254b0e29047f27ee1bd6ac45bde72e4723fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 39/94] fix: calling a generator function from native code
 reports success

---
 src/lib/rjs_generator_opt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_generator_opt.c b/src/lib/rjs_generator_opt.c
index f7bb4eb..3a9ca79 100644
--- a/src/lib/rjs_generator_opt.c
+++ b/src/lib/rjs_generator_opt.c
@@ -43,7 +43,8 @@ generator_function_op_call (RJS_Runtime *rt, RJS_Value *o, RJS_Value *thiz, RJS_
 
     rjs_context_pop(rt);
 
-    return r;
+    /*The generator is suspended at its start.*/
+    return (r == RJS_ERR) ? r : RJS_OK;
 }
 
 /*Generator function's operation functions.*/
-- 
2.43.0


From e33b8750e44c45db575d0ae9acacb3793a3cc68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 40/94] fix: anonymous functions and classes take the name of
 their property or field

---
 src/lib/include/rjs_operation.h | 12 +++++++++
 src/lib/rjs_native_stack.c      |  8 +++---
 src/lib/rjs_operation.c         | 43 +++++++++++++++++++++++++++++--
 src/lib/rjs_parser.c            | 45 +++++++++++++++++++++++++++++++--
 4 files changed, 101 insertions(+), 7 deletions(-)

diff --git a/src/lib/include/rjs_operation.h b/src/lib/include/rjs_operation.h
index 97c9111..0ff70d0 100644
--- a/src/lib/include/rjs_operation.h
+++ b/src/lib/include/rjs_operation.h
@@ -169,6 +169,18 @@ RJS_INTERNAL RJS_Result
 rjs_create_function (RJS_Runtime *rt, RJS_Script *script, RJS_ScriptFunc *sf,
         RJS_Environment *env, RJS_PrivateEnv *priv_env, RJS_Bool is_constr, RJS_Value *f);
 
+/**
+ * Set the name property of an anonymous function after its definition.
+ * A class's own static element "name" is kept.
+ * \param rt The current runtime.
+ * \param f The function.
+ * \param name The name value.
+ * \retval RJS_OK On success.
+ * \retval RJS_ERR On error.
+ */
+RJS_INTERNAL RJS_Result
+rjs_set_anonymous_function_name (RJS_Runtime *rt, RJS_Value *f, RJS_Value *name);
+
 /**
  * Define a field to the object.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 0d26eec..0816b9c 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1440,12 +1440,14 @@ rjs_object_state_add (RJS_Runtime *rt, RJS_Value *name, RJS_Value *value, RJS_Bo
 
     assert(s->type == RJS_STATE_OBJECT);
 
-    if (is_af)
-        rjs_set_function_name(rt, value, name, NULL);
-
     if ((r = rjs_to_property_key(rt, name, key)) == RJS_ERR)
         goto end;
 
+    if (is_af) {
+        if ((r = rjs_set_anonymous_function_name(rt, value, key)) == RJS_ERR)
+            goto end;
+    }
+
     rjs_property_name_init(rt, &pn, key);
     rjs_create_data_property_or_throw(rt, s->s.s_object.object, &pn, value);
     rjs_property_name_deinit(rt, &pn);
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index c2d0757..b4ec3ad 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -1138,6 +1138,43 @@ rjs_set_function_name (RJS_Runtime *rt, RJS_Value *f, RJS_Value *name, RJS_Value
     return r;
 }
 
+/**
+ * Set the name property of an anonymous function after its definition.
+ * A class's own static element "name" is kept.
+ * \param rt The current runtime.
+ * \param f The function.
+ * \param name The name value.
+ * \retval RJS_OK On success.
+ * \retval RJS_ERR On error.
+ */
+RJS_Result
+rjs_set_anonymous_function_name (RJS_Runtime *rt, RJS_Value *f, RJS_Value *name)
+{
+    size_t           top = rjs_value_stack_save(rt);
+    RJS_PropertyDesc pd;
+    RJS_Result       r;
+
+    rjs_property_desc_init(rt, &pd);
+
+    if ((r = rjs_object_get_own_property(rt, f, rjs_pn_name(rt), &pd)) == RJS_OK) {
+        /*The default name is an unwritable and not enumerable empty string.*/
+        if (!rjs_is_data_descriptor(&pd)
+                || (pd.flags & (RJS_PROP_FL_WRITABLE|RJS_PROP_FL_ENUMERABLE))
+                || !rjs_value_is_string(rt, pd.value)
+                || rjs_value_get_string(rt, pd.value)->length)
+            goto end;
+    } else if (r == RJS_ERR) {
+        goto end;
+    }
+
+    r = rjs_set_function_name(rt, f, name, NULL);
+end:
+    rjs_property_desc_deinit(rt, &pd);
+    rjs_value_stack_restore(rt, top);
+
+    return r;
+}
+
 /**
  * Set the length property of the function.
  * \param rt The current runtime.
@@ -1833,8 +1870,10 @@ rjs_define_field (RJS_Runtime *rt, RJS_Value *o, RJS_Value *name, RJS_Value *ini
         if ((r = rjs_call(rt, init, o, NULL, 0, tmp)) == RJS_ERR)
             goto end;
 
-        if (is_af)
-            rjs_set_function_name(rt, tmp, name, NULL);
+        if (is_af) {
+            if ((r = rjs_set_anonymous_function_name(rt, tmp, name)) == RJS_ERR)
+                goto end;
+        }
     } else {
         rjs_value_set_undefined(rt, tmp);
     }
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 7ee2dca..07cec18 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -1106,14 +1106,44 @@ func_set_name (RJS_Runtime *rt, RJS_Ast *ast, RJS_Location *loc, RJS_Value *name
         if (cr->clazz->constructor) {
             RJS_AstFunc *constr = cr->clazz->constructor->func;
 
-            if (constr && !constr->name)
-                constr->name = value_entry_add(rt, loc, name);
+            if (constr && !constr->name) {
+                constr->name    = value_entry_add(rt, loc, name);
+                cr->clazz->name = constr->name;
+            }
         } else if (!cr->clazz->name) {
             cr->clazz->name = value_entry_add(rt, loc, name);
         }
     }
 }
 
+/*Set the function's name from the property's name.*/
+static void
+func_set_prop_name (RJS_Runtime *rt, RJS_Value *init, RJS_Value *pn, RJS_Bool computed)
+{
+    size_t     top  = rjs_value_stack_save(rt);
+    RJS_Value *name = rjs_value_stack_push(rt);
+    RJS_Ast   *fast = ast_get(rt, init);
+    RJS_Ast   *nast = ast_get(rt, pn);
+
+    if (fast && nast && !computed) {
+        if (nast->type == RJS_AST_ValueExpr) {
+            RJS_AstValueExpr *ve = (RJS_AstValueExpr*)nast;
+
+            if (rjs_to_string(rt, &ve->ve->value, name) == RJS_OK)
+                func_set_name(rt, fast, &nast->location, name);
+        }
+#if ENABLE_PRIV_NAME
+        else if (nast->type == RJS_AST_PrivId) {
+            RJS_AstPrivId *pid = (RJS_AstPrivId*)nast;
+
+            func_set_name(rt, fast, &nast->location, &pid->ve->value);
+        }
+#endif /*ENABLE_PRIV_NAME*/
+    }
+
+    rjs_value_stack_restore(rt, top);
+}
+
 /*Check the binding in parameter.*/
 static void
 binding_param (RJS_Runtime *rt, RJS_Value *v, ParamAttr *pa)
@@ -3700,6 +3730,8 @@ parse_object_literal (RJS_Runtime *rt, RJS_Value *vo)
             if (rjs_same_value(rt, &ve->ve->value, rjs_s___proto__(rt))) {
                 /*Use "__proto__" to set prototype.*/
                 ast->type = RJS_AST_SetProto;
+            } else {
+                func_set_prop_name(rt, &prop->value, &prop->name, RJS_FALSE);
             }
         }
     }
@@ -8351,7 +8383,16 @@ parse_class_element (RJS_Runtime *rt, RJS_Bool is_static, RJS_AstClass *c)
 
             check_expr(rt, &es->expr);
 
+            func_set_prop_name(rt, &es->expr, &field->name, computed_pn);
+
             init = ast_get(rt, &es->expr);
+
+            while (init && (init->type == RJS_AST_ParenthesesExpr)) {
+                RJS_AstUnaryExpr *ue = (RJS_AstUnaryExpr*)init;
+
+                init = ast_get(rt, &ue->operand);
+            }
+
             if (init) {
                 if (init->type == RJS_AST_FuncExpr) {
                     RJS_AstFuncRef *fr = (RJS_AstFuncRef*)init;
-- 
2.43.0


From b3543556d7346a167851859e053767ab31487d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:41 +0000
Subject: [PATCH 41/94] fix: Array.prototype.splice moves exactly the elements
 after the deleted ones

---
 src/lib/rjs_array_object_inc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index c99e213..28feb6d 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -2495,7 +2495,7 @@ static RJS_NF(Array_prototype_splice)
         goto end;
 
     if (insert_cnt < act_del_cnt) {
-        for (k = act_start; k < len; k ++) {
+        for (k = act_start; k < len - act_del_cnt; k ++) {
             rjs_value_set_number(rt, idx, k + act_del_cnt);
             rjs_to_string(rt, idx, pk);
 
@@ -2522,7 +2522,7 @@ static RJS_NF(Array_prototype_splice)
                 goto end;
         }
     } else if (insert_cnt > act_del_cnt) {
-        for (k = len - act_del_cnt; k >= act_start; k --) {
+        for (k = len - act_del_cnt; k > act_start; k --) {
             rjs_value_set_number(rt, idx, k + act_del_cnt - 1);
             rjs_to_string(rt, idx, pk);
 
-- 
2.43.0


From b60af85ffb230a07f7478eaaa58d1c9f193da20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 42/94] fix: an optional call of an optional chain is skipped
 when the chain ends early

---
 src/lib/rjs_bc_gen.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index b9dbbe9..e989d77 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -722,6 +722,15 @@ bc_ref_get_value (RJS_Runtime *rt, RJS_BcGen *bg, int line, int rid, RJS_BcRef *
         break;
     }
 
+    if (ref->opt_expr) {
+        cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
+        cmd = bc_cmd_get(bg, cid);
+        cmd->stub.label = bg->opt_end_label;
+
+        bg->opt_end_label = ref->old_opt_label;
+        bg->opt_res_reg   = ref->old_opt_reg;
+    }
+
     if (ref->opt_base) {
         int cr  = bc_reg_add(rt, bg);
         int lop = bc_label_add(rt, bg);
@@ -749,15 +758,6 @@ bc_ref_get_value (RJS_Runtime *rt, RJS_BcGen *bg, int line, int rid, RJS_BcRef *
         cmd->stub.label = lop;
     }
 
-    if (ref->opt_expr) {
-        cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
-        cmd = bc_cmd_get(bg, cid);
-        cmd->stub.label = bg->opt_end_label;
-
-        bg->opt_end_label = ref->old_opt_label;
-        bg->opt_res_reg   = ref->old_opt_reg;
-    }
-
     return RJS_OK;
 }
 
-- 
2.43.0


From 4c48f00f5a74e6e40227cff2bf520c8c6379bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 43/94] fix: an emptied sparse array part is converted to an
 allocated vector

---
 src/lib/rjs_object.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_object.c b/src/lib/rjs_object.c
index 0e11f04..ac18cac 100644
--- a/src/lib/rjs_object.c
+++ b/src/lib/rjs_object.c
@@ -127,18 +127,15 @@ prop_rbt_to_vec (RJS_Runtime *rt, RJS_Rbt *rbt, size_t len)
     RJS_Property *vec;
     size_t        i;
 
-    if (!rbt)
-        return NULL;
-
     RJS_NEW_N(rt, vec, len);
 
     for (i = 0; i < len; i ++)
         vec[i].attrs = RJS_PROP_ATTR_DELETED;
 
-    if (rbt)
+    if (rbt) {
         prop_rbt_set_vec(rt, rbt, vec, len);
-
-    prop_rbt_free_all(rt, rbt);
+        prop_rbt_free_all(rt, rbt);
+    }
 
     return vec;
 }
-- 
2.43.0


From 7ebb335e754af1aa529026b254429e9e4d33ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:37 +0000
Subject: [PATCH 44/94] fix: integrity levels of proxies report errors and
 absent properties correctly

---
 src/lib/rjs_operation.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index b4ec3ad..5174625 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -992,6 +992,8 @@ rjs_set_integrity_level (RJS_Runtime *rt, RJS_Value *o, RJS_IntegrityLevel level
                 goto end;
         }
     }
+
+    r = RJS_OK;
 end:
     rjs_property_desc_deinit(rt, &pd);
     rjs_value_stack_restore(rt, top);
@@ -1019,8 +1021,9 @@ rjs_test_integrity_level (RJS_Runtime *rt, RJS_Value *o, RJS_IntegrityLevel leve
 
     rjs_property_desc_init(rt, &pd);
 
-    if (rjs_object_is_extensible(rt, o)) {
-        r = RJS_FALSE;
+    if ((r = rjs_object_is_extensible(rt, o)) != RJS_FALSE) {
+        if (r != RJS_ERR)
+            r = RJS_FALSE;
         goto end;
     }
 
-- 
2.43.0


From d0a2bd4b9ce63868e97ca02f592a6626fcbf6218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:24 +0000
Subject: [PATCH 45/94] fix: JSON.stringify reads each property once

---
 src/lib/rjs_json_opt.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/lib/rjs_json_opt.c b/src/lib/rjs_json_opt.c
index 1f09507..291ba87 100644
--- a/src/lib/rjs_json_opt.c
+++ b/src/lib/rjs_json_opt.c
@@ -694,7 +694,6 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
     RJS_Value         *stepback = rjs_value_stack_push(rt);
     RJS_Value         *indent   = rjs_value_stack_push(rt);
     RJS_Value         *keys     = rjs_value_stack_push(rt);
-    RJS_Value         *kv       = rjs_value_stack_push(rt);
     RJS_Value         *str      = rjs_value_stack_push(rt);
     RJS_Bool           empty    = RJS_TRUE;
     RJS_UCharBuffer    ucb;
@@ -739,10 +738,9 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
 
             rjs_property_name_init(rt, &pn, key);
             r = rjs_object_get_own_property(rt, value, &pn, &pd);
-            if (r == RJS_OK) {
-                if (r && !(pd.flags & RJS_PROP_FL_ENUMERABLE))
-                    rjs_value_set_undefined(rt, key);
-            }
+            if ((r == RJS_FALSE)
+                    || ((r == RJS_OK) && !(pd.flags & RJS_PROP_FL_ENUMERABLE)))
+                rjs_value_set_undefined(rt, key);
             rjs_property_name_deinit(rt, &pn);
 
             if (r == RJS_ERR)
@@ -759,23 +757,20 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
 
             rjs_property_name_init(rt, &pn, key);
 
-            r = rjs_get(rt, value, &pn, kv);
+            r = serialize_json_property(rt, js, &pn, value, str);
             if (r == RJS_OK) {
-                r = serialize_json_property(rt, js, &pn, value, str);
-                if (r == RJS_OK) {
-                    if (rjs_value_is_string(rt, str)) {
-                        if (!empty)
-                            rjs_uchar_buffer_append_uchar(rt, &ucb, ',');
+                if (rjs_value_is_string(rt, str)) {
+                    if (!empty)
+                        rjs_uchar_buffer_append_uchar(rt, &ucb, ',');
 
-                        if (js->gap) {
-                            rjs_uchar_buffer_append_uchar(rt, &ucb, '\n');
-                            rjs_uchar_buffer_append_string(rt, &ucb, js->indent);
-                        }
+                    if (js->gap) {
+                        rjs_uchar_buffer_append_uchar(rt, &ucb, '\n');
+                        rjs_uchar_buffer_append_string(rt, &ucb, js->indent);
+                    }
 
-                        serialize_key_value(rt, js, &ucb, key, str);
+                    serialize_key_value(rt, js, &ucb, key, str);
 
-                        empty = RJS_FALSE;
-                    }
+                    empty = RJS_FALSE;
                 }
             }
 
-- 
2.43.0


From 8ebd7de35fc3236d0efce87e75bb85853d58f659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:52 +0000
Subject: [PATCH 46/94] fix: Array.prototype.unshift moves only existing
 indices

---
 src/lib/rjs_array_object_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index 28feb6d..7fb936d 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -2910,7 +2910,7 @@ static RJS_NF(Array_prototype_unshift)
             goto end;
         }
 
-        for (k = len; k >= 0; k --) {
+        for (k = len; k > 0; k --) {
             rjs_value_set_number(rt, idx, k - 1);
             rjs_to_string(rt, idx, pk);
 
-- 
2.43.0


From f8ff14be37b6576dc78d023ff58075182c90a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:04 +0000
Subject: [PATCH 47/94] fix: Array.prototype.toSorted reads holes through the
 prototype and defines its result

---
 src/lib/rjs_array_object_inc.c | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index 7fb936d..bd5f074 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -2668,12 +2668,10 @@ static RJS_NF(Array_prototype_toSorted)
     RJS_Value *o     = rjs_value_stack_push(rt);
     RJS_Value *a     = rjs_value_stack_push(rt);
     RJS_Value *items = rjs_value_stack_push(rt);
-    RJS_Value *idx   = rjs_value_stack_push(rt);
-    RJS_Value *pk    = rjs_value_stack_push(rt);
     size_t     size;
     RJS_ValueBuffer       *vb;
     RJS_ArrayCompareParams params;
-    int64_t    len, k, nitem;
+    int64_t    len, k;
     RJS_Result r;
 
     if (!rjs_value_is_undefined(rt, cmp_fn) && !rjs_is_callable(rt, cmp_fn)) {
@@ -2698,26 +2696,9 @@ static RJS_NF(Array_prototype_toSorted)
     rjs_value_set_gc_thing(rt, items, vb);
     rjs_gc_add(rt, vb, &value_buffer_ops);
 
-    nitem = 0;
-
     for (k = 0; k < len; k ++) {
-        rjs_value_set_number(rt, idx, k);
-        rjs_to_string(rt, idx, pk);
-
-        if ((r = rjs_has_property(rt, o, pk)) == RJS_ERR)
+        if ((r = rjs_get_index(rt, o, k, &vb->value[k])) == RJS_ERR)
             goto end;
-
-        if (r) {
-            RJS_PropertyName pn;
-
-            rjs_property_name_init(rt, &pn, pk);
-            r = rjs_get(rt, o, &pn, &vb->value[nitem]);
-            rjs_property_name_deinit(rt, &pn);
-            if (r == RJS_ERR)
-                goto end;
-
-            nitem ++;
-        }
     }
 
     params.rt     = rt;
@@ -2726,13 +2707,8 @@ static RJS_NF(Array_prototype_toSorted)
     if ((r = rjs_sort(vb->value, vb->len, sizeof(RJS_Value), array_item_compare_fn, &params)) == RJS_ERR)
         goto end;
 
-    for (k = 0; k < nitem; k ++) {
-        if ((r = rjs_set_index(rt, a, k, &vb->value[k], RJS_TRUE)) == RJS_ERR)
-            goto end;
-    }
-
-    for (; k < len; k ++) {
-        if ((r = rjs_set_index(rt, a, k, rjs_v_undefined(rt), RJS_TRUE)) == RJS_ERR)
+    for (k = 0; k < len; k ++) {
+        if ((r = rjs_create_data_property_or_throw_index(rt, a, k, &vb->value[k])) == RJS_ERR)
             goto end;
     }
 
-- 
2.43.0


From 90248299b2cbf0e5c49850d906974b6979d66465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:01 +0000
Subject: [PATCH 48/94] fix: Function.prototype.toString does not read the
 length property

---
 src/lib/rjs_function_object_inc.c | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/src/lib/rjs_function_object_inc.c b/src/lib/rjs_function_object_inc.c
index 168ce0f..2bf0835 100644
--- a/src/lib/rjs_function_object_inc.c
+++ b/src/lib/rjs_function_object_inc.c
@@ -188,8 +188,6 @@ static RJS_NF(Function_prototype_toString)
     RJS_Value      *name  = NULL;
     int             flags = 0;
     RJS_GcThingType gtt;
-    int64_t         len;
-    int             i;
     RJS_UCharBuffer ucb;
     RJS_Result      r;
 
@@ -241,20 +239,6 @@ static RJS_NF(Function_prototype_toString)
 
     rjs_uchar_buffer_append_uchar(rt, &ucb, '(');
 
-    if ((r = rjs_length_of_array_like(rt, thiz, &len)) == RJS_ERR)
-        goto end;
-
-    for (i = 0; i < (int)len; i ++) {
-        char buf[32];
-
-        if (i)
-            rjs_uchar_buffer_append_uchar(rt, &ucb, ',');
-
-        snprintf(buf, sizeof(buf), "p%d", i);
-
-        rjs_uchar_buffer_append_chars(rt, &ucb, buf, -1);
-    }
-
     rjs_uchar_buffer_append_chars(rt, &ucb, "){[native code]}", -1);
 
     rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
-- 
2.43.0


From 9811624e8bed6ac0bedfdd35bc39eb8d2a9012c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 49/94] fix: typed array [[Set]] honours the receiver

---
 src/lib/rjs_int_indexed_object_opt.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_int_indexed_object_opt.c b/src/lib/rjs_int_indexed_object_opt.c
index 5366144..2605690 100644
--- a/src/lib/rjs_int_indexed_object_opt.c
+++ b/src/lib/rjs_int_indexed_object_opt.c
@@ -260,14 +260,19 @@ int_indexed_object_op_set (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn,
 {
     RJS_Number n;
     RJS_Result r;
+    size_t     idx;
 
     if (rjs_value_is_string(rt, pn->name)
             && rjs_canonical_numeric_index_string(rt, pn->name, &n)) {
-        r = rjs_int_indexed_element_set(rt, o, n, pv);
-    } else {
-        r = rjs_ordinary_object_op_set(rt, o, pn, pv, receiver);
+        if (rjs_same_value(rt, o, receiver))
+            return rjs_int_indexed_element_set(rt, o, n, pv);
+
+        if (!rjs_is_valid_int_index(rt, o, n, &idx))
+            return RJS_TRUE;
     }
 
+    r = rjs_ordinary_object_op_set(rt, o, pn, pv, receiver);
+
     return r;
 }
 
-- 
2.43.0


From 5e41634b2a9ee13754c5c55fb2e8bd002045fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 50/94] fix: Map and Set store the key -0 as +0

---
 src/lib/rjs_hash_object_inc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index 9afb2f1..7b553ff 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -323,7 +323,11 @@ hash_add (RJS_Runtime *rt, RJS_Value *hashv, RJS_Value *k, size_t esize)
 
         se = rjs_alloc_assert_0(rt, esize);
 
-        rjs_value_copy(rt, &se->key, k);
+        /*-0 is stored as +0.*/
+        if (rjs_value_is_number(rt, k) && (rjs_value_get_number(rt, k) == 0))
+            rjs_value_set_number(rt, &se->key, 0);
+        else
+            rjs_value_copy(rt, &se->key, k);
 
         rjs_hash_insert(&ho->hash, &se->key, &se->he, phe, &rjs_hash_value_ops_0, rt);
         rjs_list_append(&ho->list, &se->ln);
-- 
2.43.0


From d50fcebf8d9e19367fbbb7f34bb28792420cfd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:49 +0000
Subject: [PATCH 51/94] fix: map iterators and set iterators are told apart

---
 src/lib/rjs_hash_object_inc.c | 11 +++++++++--
 src/lib/rjs_map_object_inc.c  |  8 +++++++-
 src/lib/rjs_set_object_inc.c  |  8 +++++++-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index 7b553ff..d543e95 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -473,8 +473,9 @@ hash_iter_new (RJS_Runtime *rt, RJS_Value *iterv, RJS_Value *hashv,
     return RJS_OK;
 }
 
-/*Hash iterator next method.*/
-static RJS_NF(hash_iter_next)
+/*Get the next item of the iterator of a map or a set.*/
+static RJS_Result
+hash_iter_next (RJS_Runtime *rt, RJS_Value *thiz, RJS_GcThingType htype, RJS_Value *rv)
 {
     size_t          top = rjs_value_stack_save(rt);
     RJS_Value      *v   = rjs_value_stack_push(rt);
@@ -489,6 +490,12 @@ static RJS_NF(hash_iter_next)
     }
 
     hi = (RJS_HashIter*)rjs_value_get_object(rt, thiz);
+
+    if (rjs_value_get_gc_thing_type(rt, &hi->hash) != htype) {
+        r = rjs_throw_type_error(rt, _("the value is not a set/map iterator"));
+        goto end;
+    }
+
     ho = (RJS_HashObject*)rjs_value_get_object(rt, &hi->hash);
 
     if (hi->curr == &ho->list) {
diff --git a/src/lib/rjs_map_object_inc.c b/src/lib/rjs_map_object_inc.c
index ab807a6..37e2139 100644
--- a/src/lib/rjs_map_object_inc.c
+++ b/src/lib/rjs_map_object_inc.c
@@ -405,12 +405,18 @@ map_iterator_prototype_field_descs[] = {
     {NULL}
 };
 
+/*%MapIteratorPrototype%.next*/
+static RJS_NF(map_iter_next)
+{
+    return hash_iter_next(rt, thiz, RJS_GC_THING_MAP, rv);
+}
+
 static const RJS_BuiltinFuncDesc
 map_iterator_prototype_function_descs[] = {
     {
         "next",
         0,
-        hash_iter_next
+        map_iter_next
     },
     {NULL}
 };
diff --git a/src/lib/rjs_set_object_inc.c b/src/lib/rjs_set_object_inc.c
index 4465d61..cd95044 100644
--- a/src/lib/rjs_set_object_inc.c
+++ b/src/lib/rjs_set_object_inc.c
@@ -359,12 +359,18 @@ set_iterator_prototype_field_descs[] = {
     {NULL}
 };
 
+/*%SetIteratorPrototype%.next*/
+static RJS_NF(set_iter_next)
+{
+    return hash_iter_next(rt, thiz, RJS_GC_THING_SET, rv);
+}
+
 static const RJS_BuiltinFuncDesc
 set_iterator_prototype_function_descs[] = {
     {
         "next",
         0,
-        hash_iter_next
+        set_iter_next
     },
     {NULL}
 };
-- 
2.43.0


From 03e97106030407c1125efda4e09cf91cd54cd44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:51 +0000
Subject: [PATCH 52/94] fix: the byteLength of a detached ArrayBuffer is 0

---
 src/lib/rjs_array_buffer_object_inc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_array_buffer_object_inc.c b/src/lib/rjs_array_buffer_object_inc.c
index 6909880..c6854f7 100644
--- a/src/lib/rjs_array_buffer_object_inc.c
+++ b/src/lib/rjs_array_buffer_object_inc.c
@@ -243,7 +243,8 @@ static RJS_NF(ArrayBuffer_prototype_byteLength_get)
     }
 
     if (rjs_is_detached_buffer(rt, thiz)) {
-        r = rjs_throw_type_error(rt, _("the array buffer is detached"));
+        rjs_value_set_number(rt, rv, 0);
+        r = RJS_OK;
         goto end;
     }
 
-- 
2.43.0


From 005c2ac5e508db844dcb105b86ee18041953df2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:51 +0000
Subject: [PATCH 53/94] fix: a typed array on a detached buffer has no element
 keys

---
 src/lib/rjs_int_indexed_object_opt.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_int_indexed_object_opt.c b/src/lib/rjs_int_indexed_object_opt.c
index 2605690..feea0ef 100644
--- a/src/lib/rjs_int_indexed_object_opt.c
+++ b/src/lib/rjs_int_indexed_object_opt.c
@@ -303,14 +303,17 @@ int_indexed_object_op_own_property_keys (RJS_Runtime *rt, RJS_Value *o, RJS_Valu
     size_t                top = rjs_value_stack_save(rt);
     RJS_Value            *tmp = rjs_value_stack_push(rt);
     RJS_PropertyKeyList  *pkl;
-    size_t                i, cap;
+    size_t                i, cap, len;
     RJS_Result            r;
 
-    cap = iio->array_length + iio->object.array_item_num + iio->object.prop_hash.entry_num;
+    /*The object on a detached buffer has no elements.*/
+    len = rjs_is_detached_buffer(rt, &iio->buffer) ? 0 : iio->array_length;
+
+    cap = len + iio->object.array_item_num + iio->object.prop_hash.entry_num;
 
     pkl = rjs_property_key_list_new(rt, keys, cap);
 
-    for (i = 0; i < iio->array_length; i ++) {
+    for (i = 0; i < len; i ++) {
         RJS_Value *kv = pkl->keys.items + pkl->keys.item_num ++;
 
         rjs_value_set_number(rt, tmp, i);
-- 
2.43.0


From 1289a841a0beb972f9ef93ef925cdd6ed9952582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:51 +0000
Subject: [PATCH 54/94] fix: TypedArray.prototype.filter reports a failed store

---
 src/lib/rjs_typed_array_object_inc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_typed_array_object_inc.c b/src/lib/rjs_typed_array_object_inc.c
index 3f9a229..8633d45 100644
--- a/src/lib/rjs_typed_array_object_inc.c
+++ b/src/lib/rjs_typed_array_object_inc.c
@@ -649,7 +649,8 @@ static RJS_NF(TypedArray_prototype_filter)
     k = 0;
     rjs_list_foreach_c(&vl->seg_list, vls, RJS_ValueListSegment, ln) {
         for (i = 0; i < vls->num; i ++) {
-            rjs_set_index(rt, rv, k, &vls->v[i], RJS_TRUE);
+            if ((r = rjs_set_index(rt, rv, k, &vls->v[i], RJS_TRUE)) == RJS_ERR)
+                goto end;
             k ++;
         }
     }
-- 
2.43.0


From 8982aac13164716bd7c1edb7c29229d662b6c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:53 +0000
Subject: [PATCH 55/94] fix: reject non-StringNumericLiteral text in string to
 number conversion

---
 src/lib/rjs_string.c | 47 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index dd608ad..275e93d 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -570,6 +570,42 @@ end:
     return r;
 }
 
+/*
+ * Check if the string may be a numeric string.
+ * Spaces can only be at the beginning and the end.
+ */
+static RJS_Bool
+is_numeric_string (RJS_Runtime *rt, RJS_Value *str)
+{
+    size_t len = rjs_string_get_length(rt, str);
+    size_t b   = 0;
+    size_t e   = len;
+    int    c;
+
+    for (; b < e; b ++) {
+        c = rjs_string_get_uchar(rt, str, b);
+        if (!rjs_uchar_is_white_space(c) && !rjs_uchar_is_line_terminator(c))
+            break;
+    }
+
+    for (; e > b; e --) {
+        c = rjs_string_get_uchar(rt, str, e - 1);
+        if (!rjs_uchar_is_white_space(c) && !rjs_uchar_is_line_terminator(c))
+            break;
+    }
+
+    for (; b < e; b ++) {
+        c = rjs_string_get_uchar(rt, str, b);
+        if (!((c >= '0') && (c <= '9'))
+                && !((c >= 'a') && (c <= 'z'))
+                && !((c >= 'A') && (c <= 'Z'))
+                && (c != '.') && (c != '+') && (c != '-'))
+            return RJS_FALSE;
+    }
+
+    return RJS_TRUE;
+}
+
 /*Parse the string to a value.*/
 static RJS_Result
 parse_string (RJS_Runtime *rt, RJS_Value *str, RJS_Bool is_big_int, RJS_Value *v)
@@ -580,6 +616,17 @@ parse_string (RJS_Runtime *rt, RJS_Value *str, RJS_Bool is_big_int, RJS_Value *v
     RJS_Result  r;
     int         sign = 0;
 
+    if (!is_numeric_string(rt, str)) {
+#if ENABLE_BIG_INT
+        if (is_big_int)
+            rjs_value_set_undefined(rt, v);
+        else
+#endif /*ENABLE_BIG_INT*/
+            rjs_value_set_number(rt, v, NAN);
+
+        return RJS_OK;
+    }
+
     if ((r = rjs_string_input_init(rt, &si, str)) == RJS_ERR)
         return r;
 
-- 
2.43.0


From 4330f1c9357401067cfa185bc80687ac7a2cac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:53 +0000
Subject: [PATCH 56/94] fix: scale in Math.hypot and free its vector when a
 conversion throws

---
 src/lib/rjs_math_object_inc.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_math_object_inc.c b/src/lib/rjs_math_object_inc.c
index a3c1549..566349d 100644
--- a/src/lib/rjs_math_object_inc.c
+++ b/src/lib/rjs_math_object_inc.c
@@ -370,6 +370,7 @@ static RJS_NF(Math_hypot)
 {
     RJS_Bool         only_0 = RJS_TRUE;
     RJS_Number       rn     = 0;
+    RJS_Number       max    = 0;
     RJS_NumberVector nv;
     size_t           i;
     RJS_Result       r;
@@ -381,7 +382,7 @@ static RJS_NF(Math_hypot)
         RJS_Number n;
 
         if ((r = rjs_to_number(rt, arg, &n)) == RJS_ERR)
-            return r;
+            goto end;
 
         rjs_vector_append(&nv, n, rt);
     }
@@ -398,11 +399,25 @@ static RJS_NF(Math_hypot)
         if (n != 0)
             only_0 = RJS_FALSE;
 
+        if (fabs(n) > max)
+            max = fabs(n);
+
         rn += n * n;
     }
 
     if (only_0) {
         rn = 0;
+    } else if (isinf(rn) || (rn < 1e-290)) {
+        /*Scale the values to avoid overflow and underflow.*/
+        rn = 0;
+
+        for (i = 0; i < nv.item_num; i ++) {
+            RJS_Number n = nv.items[i] / max;
+
+            rn += n * n;
+        }
+
+        rn = sqrt(rn) * max;
     } else {
         rn = sqrt(rn);
     }
-- 
2.43.0


From a7e72273a33a1af7b585a3d747c78732732cb846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:53 +0000
Subject: [PATCH 57/94] fix: number to text conversions: ties round up, -0
 prints 0, radix fractions

---
 src/lib/rjs_dtoa.c              | 10 ++---
 src/lib/rjs_number_object_inc.c | 79 +++++++++++++++++++++++++++++++--
 2 files changed, 81 insertions(+), 8 deletions(-)

diff --git a/src/lib/rjs_dtoa.c b/src/lib/rjs_dtoa.c
index f12c0e7..62745e9 100644
--- a/src/lib/rjs_dtoa.c
+++ b/src/lib/rjs_dtoa.c
@@ -5375,7 +5375,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 		j += k;
 		if (ilim == 0) {
 			S = mhi = 0;
-			if (res > (5ull << j))
+			if (res >= (5ull << j))
 				goto one_digit;
 			goto no_digits;
 			}
@@ -5422,7 +5422,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 				  }
 				ures = 2*res;
 				if (ures > den
-				|| (ures == den && dig & 1)
+				|| ures == den	/* ties go up */
 				|| (spec_case && res <= ulp && 2*res >= ulp))
 					goto Roundup;
 				goto retc;
@@ -5470,7 +5470,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 				  }
 #endif
 				hb = 1ull << j;
-				if (res & hb && (dig & 1 || res & (hb-1)))
+				if (res & hb)	/* ties go up */
 					goto Roundup;
 				if (spec_case && res <= ulp && 2*res >= ulp) {
  Roundup:
@@ -6038,7 +6038,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 		}
 #endif
 	if (ilim <= 0 && (mode == 3 || mode == 5)) {
-		if (ilim < 0 || cmp(b,S = multadd(S,5,0 MTb)) <= 0) {
+		if (ilim < 0 || cmp(b,S = multadd(S,5,0 MTb)) < 0) {
 			/* no digits, fcvt style */
  no_digits:
 			k = -1 - ndigits;
@@ -6181,7 +6181,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 #ifdef ROUND_BIASED
 	if (j >= 0)
 #else
-	if (j > 0 || (j == 0 && dig & 1))
+	if (j >= 0)	/* ties go up */
 #endif
 		{
  roundoff:
diff --git a/src/lib/rjs_number_object_inc.c b/src/lib/rjs_number_object_inc.c
index 21df5dc..45ac076 100644
--- a/src/lib/rjs_number_object_inc.c
+++ b/src/lib/rjs_number_object_inc.c
@@ -390,7 +390,7 @@ static RJS_NF(Number_prototype_toFixed)
     kv = se - sb;
     nv = decpt;
 
-    if (sign)
+    if (sign && (n != 0))
         *dc ++ = '-';
 
     if (kv <= nv) {
@@ -575,6 +575,75 @@ end:
     return r;
 }
 
+/*Convert a finite number to a string in the radix other than 10.*/
+static RJS_Result
+number_to_radix_string (RJS_Runtime *rt, RJS_Number n, int radix, RJS_Value *rv)
+{
+    static const char digits[] = "0123456789abcdefghijklmnopqrstuvwxyz";
+    char   buf[2304];
+    int    point = 1100;
+    int    ic    = point;
+    int    fc    = point;
+    double ip, fp, delta, rem;
+
+    ip    = floor(fabs(n));
+    fp    = fabs(n) - ip;
+    delta = 0.5 * (nextafter(fabs(n), INFINITY) - fabs(n));
+    delta = fmax(delta, nextafter(0, 1));
+
+    /*The shortest fraction which identifies the number.*/
+    if (fp >= delta) {
+        buf[fc ++] = '.';
+
+        do {
+            int d;
+
+            fp    *= radix;
+            delta *= radix;
+            d      = fp;
+            fp    -= d;
+
+            buf[fc ++] = digits[d];
+
+            if (((fp > 0.5) || ((fp == 0.5) && (d & 1))) && (fp + delta > 1)) {
+                /*Round up.*/
+                while (1) {
+                    fc --;
+
+                    if (fc == point) {
+                        ip ++;
+                        break;
+                    }
+
+                    d = (buf[fc] > '9') ? buf[fc] - 'a' + 10 : buf[fc] - '0';
+                    if (d + 1 < radix) {
+                        buf[fc ++] = digits[d + 1];
+                        break;
+                    }
+                }
+                break;
+            }
+        } while (fp >= delta);
+    }
+
+    /*The digits under the precision of the number are zeros.*/
+    while (ip >= 9007199254740992.0) {
+        ip /= radix;
+        buf[-- ic] = '0';
+    }
+
+    do {
+        rem = fmod(ip, radix);
+        ip  = (ip - rem) / radix;
+        buf[-- ic] = digits[(int)rem];
+    } while (ip > 0);
+
+    if (n < 0)
+        buf[-- ic] = '-';
+
+    return rjs_string_from_chars(rt, rv, buf + ic, fc - ic);
+}
+
 /*Number.prototype.toString*/
 static RJS_NF(Number_prototype_toString)
 {
@@ -606,7 +675,8 @@ static RJS_NF(Number_prototype_toString)
         goto end;
     }
 
-    i = n;
+    /*Convert the integer exactly.*/
+    i = (fabs(n) < 9223372036854775808.0) ? n : 0;
     if (n == (RJS_Number)i) {
         char    buf[256];
         char   *c;
@@ -656,7 +726,10 @@ static RJS_NF(Number_prototype_toString)
             goto end;
     }
 
-    r = rjs_number_to_string(rt, n, rv);
+    if (isinf(n) || isnan(n))
+        r = rjs_number_to_string(rt, n, rv);
+    else
+        r = number_to_radix_string(rt, n, radix, rv);
 end:
     return r;
 }
-- 
2.43.0


From 704d8bf2731f00712fd511a9232d82e176f7053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:14 +0000
Subject: [PATCH 58/94] fix: BigInt subtraction borrow, shifts of negative
 numbers and asIntN/asUintN wrapping

---
 src/lib/rjs_big_int_internal_opt.c | 172 ++++++++++++-----------------
 1 file changed, 73 insertions(+), 99 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 62708c8..2fbb104 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1168,7 +1168,8 @@ bi_self_sub_greater (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2)
             v    = res + 0x100000000ull;
             left = 1;
         } else {
-            v = res;
+            v    = res;
+            left = 0;
         }
 
         if ((r = bi_set_item(rt, src1, i, v)) == RJS_ERR)
@@ -1220,7 +1221,8 @@ bi_sub_greater (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst)
             v    = res + 0x100000000ull;
             left = 1;
         } else {
-            v = res;
+            v    = res;
+            left = 0;
         }
 
         if ((r = bi_set_item(rt, dst, i, v)) == RJS_ERR)
@@ -1825,18 +1827,11 @@ bi_shift (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst, RJS_Bool rev
     int         pos1  = bi_positive(src1);
     int         pos2  = bi_positive(src2);
     int         size, i, j, off, bits;
-    RJS_BI      inp, res;
-    RJS_BI     *s, *d;
     uint32_t    y;
     RJS_Result  r;
 
-    bi_init(&inp);
-    bi_init(&res);
-
-    if ((pos1 == 0) || (pos2 == 0)) {
-        r = bi_dup(rt, dst, src1);
-        goto end;
-    }
+    if ((pos1 == 0) || (pos2 == 0))
+        return bi_dup(rt, dst, src1);
 
     if (rev)
         pos2 = - pos2;
@@ -1845,97 +1840,87 @@ bi_shift (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst, RJS_Bool rev
         if (pos2 < 0) {
             if (pos1 < 0) {
                 if ((r = bi_set_item(rt, dst, 0, 1)) == RJS_ERR)
-                    goto end;
+                    return r;
 
                 dst->size = - dst->size;
             }
-            r = RJS_OK;
-            goto end;
+
+            return RJS_OK;
         } else {
-            r = rjs_throw_range_error(rt, _("shift value is too big"));
-            goto end;
+            return rjs_throw_range_error(rt, _("shift value is too big"));
         }
     }
 
-    if (pos1 < 0) {
-        if ((r = bi_complement(rt, src1, &inp)) == RJS_ERR)
-            goto end;
-
-        s = &inp;
-        d = &res;
-    } else {
-        s = src1;
-        d = dst;
-    }
-
     y    = src2->n[0];
     off  = y / 32;
     bits = y % 32;
 
     if (pos2 < 0) {
+        RJS_Bool lost = RJS_FALSE;
+
         size = size1 - off;
 
         for (i = 0; i < size; i ++) {
             uint64_t v;
 
             j = i + off;
-            v = s->n[j];
+            v = src1->n[j];
+
+            if (j + 1 < size1)
+                v |= ((uint64_t)src1->n[j + 1]) << 32;
 
-            if (j + 1 < size1) {
-                v |= ((uint64_t)s->n[j + 1]) << 32;
-            } else if (pos1 < 0) {
-                v |= 0xffffffff00000000ull;
+            if ((r = bi_set_item(rt, dst, i, (v >> bits) & 0xffffffff)) == RJS_ERR)
+                return r;
+        }
+
+        bi_end(dst);
+
+        /*A negative number is rounded to the negative infinity.*/
+        if (pos1 < 0) {
+            for (i = 0; i < RJS_MIN(off, size1); i ++) {
+                if (src1->n[i])
+                    lost = RJS_TRUE;
             }
 
-            v >>= bits;
+            if ((off < size1) && (src1->n[off] & ~(0xffffffffu << bits)))
+                lost = RJS_TRUE;
 
-            if ((r = bi_set_item(rt, d, i, v & 0xffffffff)) == RJS_ERR)
-                goto end;
+            if (lost) {
+                if ((r = bi_self_add_int(rt, dst, 1)) == RJS_ERR)
+                    return r;
+            }
         }
     } else {
         uint32_t left = 0;
 
         for (i = 0; i < off; i ++) {
-            if ((r = bi_set_item(rt, d, i, 0)) == RJS_ERR)
-                goto end;
+            if ((r = bi_set_item(rt, dst, i, 0)) == RJS_ERR)
+                return r;
         }
 
         for (j = 0; j < size1; j ++, i ++) {
             uint64_t v;
 
-            v = s->n[j];
+            v = src1->n[j];
             v <<= bits;
             v |= left;
 
-            if ((r = bi_set_item(rt, d, i, v & 0xffffffff)) == RJS_ERR)
-                goto end;
+            if ((r = bi_set_item(rt, dst, i, v & 0xffffffff)) == RJS_ERR)
+                return r;
 
             left = v >> 32;
         }
 
         if (left) {
-            if (pos1 < 0)
-                left |= 0xffffffff << bits;
-
-            if ((r = bi_set_item(rt, d, i, left)) == RJS_ERR)
-                goto end;
+            if ((r = bi_set_item(rt, dst, i, left)) == RJS_ERR)
+                return r;
         }
     }
 
-    bi_end(d);
-
-    if (pos1 < 0) {
-        if ((r = bi_complement(rt, d, dst)) == RJS_ERR)
-            goto end;
-
+    if (pos1 < 0)
         dst->size = - dst->size;
-    }
 
-    r = RJS_OK;
-end:
-    bi_deinit(rt, &inp);
-    bi_deinit(rt, &res);
-    return r;
+    return RJS_OK;
 }
 
 /**
@@ -2226,57 +2211,40 @@ rjs_big_int_compare_number (RJS_Runtime *rt, RJS_Value *v, RJS_Number n)
 static RJS_Result
 bi_bits (RJS_Runtime *rt, RJS_BI *src, RJS_BI *dst, int64_t bits)
 {
-    RJS_BI     tmp;
-    RJS_BI    *inp;
-    int        size;
-    int64_t    off, b, i;
-    uint32_t   n;
+    int        size = bi_size(src);
+    RJS_Bool   neg  = bi_positive(src) < 0;
+    int64_t    num  = (bits + 31) / 32;
+    int64_t    i;
+    int        b    = bits % 32;
+    uint64_t   left = 1;
     RJS_Result r;
 
-    bi_init(&tmp);
-
-    if (bi_positive(src) < 0) {
-        inp = &tmp;
-
-        if ((r = bi_complement(rt, src, inp)) == RJS_ERR)
-            goto end;
-    } else {
-        inp = src;
+    if (num > size) {
+        if (!neg)
+            num = size;
+        else if (num > 0x1000000)
+            return rjs_throw_range_error(rt, _("the big integer is too big"));
     }
 
-    size = bi_size(inp);
-
-    off = bits / 32;
-    b   = bits % 32;
-
-    for (i = 0; i < off; i ++) {
-        if (i < size)
-            n = inp->n[i];
-        else
-            n = 0;
+    for (i = 0; i < num; i ++) {
+        uint32_t n = (i < size) ? src->n[i] : 0;
 
-        if ((r = bi_set_item(rt, dst, i, n)) == RJS_ERR)
-            goto end;
-    }
-
-    if (b) {
-        if (i < size)
-            n = inp->n[i];
-        else
-            n = 0;
+        /*Get the 2's complement of the negative number.*/
+        if (neg) {
+            left += (uint32_t)~n;
+            n     = left & 0xffffffff;
+            left >>= 32;
+        }
 
-        n &= ~(0xffffffff << b);
+        if (b && (i == bits / 32))
+            n &= ~(0xffffffffu << b);
 
         if ((r = bi_set_item(rt, dst, i, n)) == RJS_ERR)
-            goto end;
+            return r;
     }
 
     bi_end(dst);
-
-    r = RJS_OK;
-end:
-    bi_deinit(rt, &tmp);
-    return r;
+    return RJS_OK;
 }
 
 /**
@@ -2302,6 +2270,12 @@ rjs_big_int_as_int_n (RJS_Runtime *rt, int64_t bits, RJS_Value *v, RJS_Value *rv
 
     bi_init(&res);
 
+    /*The number is in the range already.*/
+    if (bits / 32 > bi_size(src)) {
+        r = bi_dup(rt, dst, src);
+        goto end;
+    }
+
     if ((r = bi_bits(rt, src, &res, bits)) == RJS_ERR)
         goto end;
 
@@ -2311,8 +2285,8 @@ rjs_big_int_as_int_n (RJS_Runtime *rt, int64_t bits, RJS_Value *v, RJS_Value *rv
 
     if (size > off) {
         n = res.n[off];
-        if (n & (1 << b)) {
-            n |= (0xffffffff << b);
+        if (n & (1u << b)) {
+            n |= (0xffffffffu << b);
             bi_set_item(rt, &res, off, n);
             pos = -1;
         }
-- 
2.43.0


From c1368168812b76106cfcaa20f1779cf9e62d48e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:05 +0000
Subject: [PATCH 59/94] fix: white space set, parseFloat Infinity spelling,
 exact power of two radix text

---
 src/lib/rjs_global_object.c     | 9 +++++++++
 src/lib/rjs_number_object_inc.c | 4 ++--
 src/lib/rjs_uchar_icu_opt.c     | 2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_global_object.c b/src/lib/rjs_global_object.c
index f75e0c3..6c5786b 100644
--- a/src/lib/rjs_global_object.c
+++ b/src/lib/rjs_global_object.c
@@ -159,6 +159,15 @@ static RJS_NF(global_parseFloat)
         d = rjs_strtod(cstr, &end);
         if (end == cstr) {
             d = NAN;
+        } else if (isinf(d)) {
+            const char *p = cstr;
+
+            /*Only the exact text "Infinity" is accepted.*/
+            if ((*p == '+') || (*p == '-'))
+                p ++;
+
+            if (((*p == 'i') || (*p == 'I')) && strncmp(p, "Infinity", 8))
+                d = NAN;
         }
     }
 
diff --git a/src/lib/rjs_number_object_inc.c b/src/lib/rjs_number_object_inc.c
index 45ac076..45298f3 100644
--- a/src/lib/rjs_number_object_inc.c
+++ b/src/lib/rjs_number_object_inc.c
@@ -626,8 +626,8 @@ number_to_radix_string (RJS_Runtime *rt, RJS_Number n, int radix, RJS_Value *rv)
         } while (fp >= delta);
     }
 
-    /*The digits under the precision of the number are zeros.*/
-    while (ip >= 9007199254740992.0) {
+    /*The digits under the precision of the number are zeros. The division is exact if radix is 2^n.*/
+    while ((radix & (radix - 1)) && ip >= 9007199254740992.0) {
         ip /= radix;
         buf[-- ic] = '0';
     }
diff --git a/src/lib/rjs_uchar_icu_opt.c b/src/lib/rjs_uchar_icu_opt.c
index 8cd659e..02bceaf 100644
--- a/src/lib/rjs_uchar_icu_opt.c
+++ b/src/lib/rjs_uchar_icu_opt.c
@@ -34,7 +34,7 @@
 RJS_Bool
 rjs_uchar_is_white_space (int c)
 {
-    return u_isUWhiteSpace(c) || (c == 0xfeff);
+    return (u_isUWhiteSpace(c) && (c != 0x85)) || (c == 0xfeff);
 }
 
 /**
-- 
2.43.0


From 4bf4d2c8cbd839267d390b7e41e46cb43b4d965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:28 +0000
Subject: [PATCH 60/94] fix: an empty unicode escape is a syntax error

---
 src/lib/rjs_lex.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_lex.c b/src/lib/rjs_lex.c
index 2520ec8..8172e4f 100644
--- a/src/lib/rjs_lex.c
+++ b/src/lib/rjs_lex.c
@@ -243,6 +243,7 @@ lex_unicode_escape (RJS_Runtime *rt, RJS_Lex *lex, RJS_Bool is_templ)
 {
     int c;
     int i, n, v = 0;
+    RJS_Bool is_empty = RJS_TRUE;
     RJS_Location loc;
 
     c = lex_get_uc(rt, lex);
@@ -260,11 +261,14 @@ lex_unicode_escape (RJS_Runtime *rt, RJS_Lex *lex, RJS_Bool is_templ)
                 break;
             }
 
-            if (c == '}') {
+            /*At least one digit is needed.*/
+            if ((c == '}') && !is_empty) {
                 lex_append_uc(rt, lex, c);
                 break;
             }
 
+            is_empty = RJS_FALSE;
+
             if ((n = lex_hex_char(rt, lex, c, is_templ)) < 0)
                 return -1;
             lex_append_uc(rt, lex, c);
-- 
2.43.0


From acdefa0e0f8c757ef8f49c652d20d0e8cdffc1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:28 +0000
Subject: [PATCH 61/94] fix: RegExp replace collects matches first and keeps
 undefined captures; matchAll and pad conversions

---
 src/lib/include/rjs_string.h    |   8 +-
 src/lib/rjs_regexp_object_inc.c | 178 +++++++++++++++++---------------
 src/lib/rjs_string.c            |  68 +++---------
 src/lib/rjs_string_object_inc.c |  18 +---
 4 files changed, 120 insertions(+), 152 deletions(-)

diff --git a/src/lib/include/rjs_string.h b/src/lib/include/rjs_string.h
index d5c0939..7efa4c2 100644
--- a/src/lib/include/rjs_string.h
+++ b/src/lib/include/rjs_string.h
@@ -143,15 +143,17 @@ rjs_string_hash_key (RJS_Runtime *rt, RJS_Value *v);
  * \param rt The current runtime.
  * \param str The origin string.
  * \param pos The position of the matched string.
- * \param captures The captured substrings.
+ * \param captures The matched string followed by the captured substrings.
+ * \param capn Number of the captured substrings.
+ * \param groups The named captures, or undefined.
  * \param rep_templ The replace template string.
- * \retval rv The result string.
+ * \param[out] rv The result string.
  * \retval RJS_OK On success.
  * \retval RJS_ERR On error.
  */
 RJS_INTERNAL RJS_Result
 rjs_get_substitution (RJS_Runtime *rt, RJS_Value *str, size_t pos,
-        RJS_Value *captures, RJS_Value *rep_templ, RJS_Value *rv);
+        RJS_Value *captures, size_t capn, RJS_Value *groups, RJS_Value *rep_templ, RJS_Value *rv);
 
 /**
  * Load a string from a file.
diff --git a/src/lib/rjs_regexp_object_inc.c b/src/lib/rjs_regexp_object_inc.c
index 6b75315..a05b4d7 100644
--- a/src/lib/rjs_regexp_object_inc.c
+++ b/src/lib/rjs_regexp_object_inc.c
@@ -372,81 +372,103 @@ static RJS_NF(RegExp_prototype_matchAll)
     else
         unicode = RJS_FALSE;
 
-    r = regexp_str_iter_new(rt, rv, matcher, str, global, unicode);
+    r = regexp_str_iter_new(rt, rv, matcher, s, global, unicode);
 end:
     rjs_value_stack_restore(rt, top);
     return r;
 }
 
-/*Invoke the replace function.*/
+/*Get the replacement text of a match result.*/
 static RJS_Result
-replace_func (RJS_Runtime *rt, RJS_Value *s, RJS_Value *fn, RJS_Value *mstr, size_t pos, RJS_Value *match, RJS_Value *rstr)
+match_replacement (RJS_Runtime *rt, RJS_Value *s, RJS_Value *match, RJS_Value *repv,
+        RJS_Bool func_rep, size_t *ppos, size_t *pmlen, RJS_Value *rstr)
 {
     size_t     top    = rjs_value_stack_save(rt);
-    RJS_Value *lenv   = rjs_value_stack_push(rt);
+    RJS_Value *idxv   = rjs_value_stack_push(rt);
+    RJS_Value *mstr   = rjs_value_stack_push(rt);
     RJS_Value *groups = rjs_value_stack_push(rt);
     RJS_Value *cap    = rjs_value_stack_push(rt);
     RJS_Value *res    = rjs_value_stack_push(rt);
     RJS_Value *args, *arg;
-    size_t     argc;
-    int64_t    i, len, aid;
+    size_t     capn;
+    int64_t    i, len;
+    RJS_Number posn;
+    size_t     pos;
     RJS_Result r;
 
-    argc = 3;
+    if ((r = rjs_length_of_array_like(rt, match, &len)) == RJS_ERR)
+        goto end;
+
+    capn = (len > 1) ? len - 1 : 0;
 
-    if ((r = rjs_get(rt, match, rjs_pn_length(rt), lenv)) == RJS_ERR)
+    if ((r = rjs_get_index(rt, match, 0, cap)) == RJS_ERR)
         goto end;
 
-    if ((r = rjs_to_length(rt, lenv, &len)) == RJS_ERR)
+    if ((r = rjs_to_string(rt, cap, mstr)) == RJS_ERR)
         goto end;
 
-    if (len > 1)
-        argc += len - 1;
+    if ((r = rjs_get(rt, match, rjs_pn_index(rt), idxv)) == RJS_ERR)
+        goto end;
 
-    if ((r = rjs_get(rt, match, rjs_pn_groups(rt), groups)) == RJS_ERR)
+    if ((r = rjs_to_integer_or_infinity(rt, idxv, &posn)) == RJS_ERR)
         goto end;
 
-    if (!rjs_value_is_undefined(rt, groups))
-        argc ++;
+    pos = RJS_CLAMP(posn, 0, rjs_string_get_length(rt, s));
 
-    args = rjs_value_stack_push_n(rt, argc);
-    arg  = args;
-    aid  = 0;
+    /*Arguments: the matched text, captures, position, the string and the named captures.*/
+    args = rjs_value_stack_push_n(rt, capn + 4);
 
-    rjs_value_copy(rt, arg, mstr);
-    aid ++;
+    rjs_value_copy(rt, args, mstr);
 
-    for (i = 1; i < len; i ++) {
+    for (i = 1; i <= capn; i ++) {
         if ((r = rjs_get_index(rt, match, i, cap)) == RJS_ERR)
             goto end;
 
-        arg = rjs_value_buffer_item(rt, args, aid);
-        aid ++;
+        arg = rjs_value_buffer_item(rt, args, i);
 
-        if ((r = rjs_to_string(rt, cap, arg)) == RJS_ERR)
+        if (rjs_value_is_undefined(rt, cap))
+            rjs_value_set_undefined(rt, arg);
+        else if ((r = rjs_to_string(rt, cap, arg)) == RJS_ERR)
             goto end;
     }
 
-    arg = rjs_value_buffer_item(rt, args, aid);
-    rjs_value_set_number(rt, arg, pos);
-    aid ++;
+    if ((r = rjs_get(rt, match, rjs_pn_groups(rt), groups)) == RJS_ERR)
+        goto end;
 
-    arg = rjs_value_buffer_item(rt, args, aid);
-    rjs_value_copy(rt, arg, s);
-    aid ++;
+    if (func_rep) {
+        size_t argc = capn + 3;
 
-    if (!rjs_value_is_undefined(rt, groups)) {
-        arg = rjs_value_buffer_item(rt, args, aid);
-        aid ++;
+        arg = rjs_value_buffer_item(rt, args, capn + 1);
+        rjs_value_set_number(rt, arg, pos);
 
-        rjs_value_copy(rt, arg, groups);
-    }
+        arg = rjs_value_buffer_item(rt, args, capn + 2);
+        rjs_value_copy(rt, arg, s);
 
-    if ((r = rjs_call(rt, fn, rjs_v_undefined(rt), args, argc, res)) == RJS_ERR)
-        goto end;
+        if (!rjs_value_is_undefined(rt, groups)) {
+            arg = rjs_value_buffer_item(rt, args, capn + 3);
+            rjs_value_copy(rt, arg, groups);
+            argc ++;
+        }
 
-    if ((r = rjs_to_string(rt, res, rstr)) == RJS_ERR)
-        goto end;
+        if ((r = rjs_call(rt, repv, rjs_v_undefined(rt), args, argc, res)) == RJS_ERR)
+            goto end;
+
+        if ((r = rjs_to_string(rt, res, rstr)) == RJS_ERR)
+            goto end;
+    } else {
+        if (!rjs_value_is_undefined(rt, groups)) {
+            if ((r = rjs_to_object(rt, groups, res)) == RJS_ERR)
+                goto end;
+
+            rjs_value_copy(rt, groups, res);
+        }
+
+        if ((r = rjs_get_substitution(rt, s, pos, args, capn, groups, repv, rstr)) == RJS_ERR)
+            goto end;
+    }
+
+    *ppos  = pos;
+    *pmlen = rjs_string_get_length(rt, mstr);
 
     r = RJS_OK;
 end:
@@ -469,7 +491,8 @@ static RJS_NF(RegExp_prototype_replace)
     RJS_Value *mstrv   = rjs_value_stack_push(rt);
     RJS_Value *mstr    = rjs_value_stack_push(rt);
     RJS_Value *rstr    = rjs_value_stack_push(rt);
-    size_t     len, start;
+    RJS_Value *first   = NULL;
+    size_t     len, start, i, num = 0;
     RJS_Bool   func_rep, global, unicode = RJS_FALSE;
     RJS_UCharBuffer  ucb;
     const RJS_UChar *chars;
@@ -491,6 +514,7 @@ static RJS_NF(RegExp_prototype_replace)
     if (!func_rep) {
         if ((r = rjs_to_string(rt, repv, rep_str)) == RJS_ERR)
             goto end;
+        repv = rep_str;
     }
 
     if ((r = rjs_get(rt, thiz, rjs_pn_flags(rt), flagsv)) == RJS_ERR)
@@ -508,12 +532,9 @@ static RJS_NF(RegExp_prototype_replace)
             goto end;
     }
 
-    chars = rjs_string_get_uchars(rt, s);
-    start = 0;
-
+    /*Collect all the match results before any replacement.*/
     while (1) {
-        RJS_Number posn;
-        size_t     pos;
+        RJS_Value *res;
         int64_t    idx;
 
         if ((r = rjs_regexp_exec(rt, thiz, s, match)) == RJS_ERR)
@@ -522,65 +543,60 @@ static RJS_NF(RegExp_prototype_replace)
         if (rjs_value_is_null(rt, match))
             break;
 
-        if ((r = rjs_get(rt, match, rjs_pn_index(rt), idxv)) == RJS_ERR)
-            goto end;
-
-        if ((r = rjs_to_integer_or_infinity(rt, idxv, &posn)) == RJS_ERR)
-            goto end;
+        res = rjs_value_stack_push(rt);
+        rjs_value_copy(rt, res, match);
+        if (!first)
+            first = res;
+        num ++;
 
-        pos = RJS_CLAMP(posn, 0, len);
+        if (!global)
+            break;
 
-        if (pos >= start) {
-            if (pos > start) {
-                rjs_uchar_buffer_append_uchars(rt, &ucb, chars + start, pos - start);
-            }
+        if ((r = rjs_get_index(rt, match, 0, mstrv)) == RJS_ERR)
+            goto end;
 
-            if ((r = rjs_get_index(rt, match, 0, mstrv)) == RJS_ERR)
-                goto end;
+        if ((r = rjs_to_string(rt, mstrv, mstr)) == RJS_ERR)
+            goto end;
 
-            if ((r = rjs_to_string(rt, mstrv, mstr)) == RJS_ERR)
+        if (rjs_string_get_length(rt, mstr) == 0) {
+            if ((r = rjs_get(rt, thiz, rjs_pn_lastIndex(rt), idxv)) == RJS_ERR)
                 goto end;
 
-            if (func_rep) {
-                r = replace_func(rt, s, repv, mstr, pos, match, rstr);
-            } else {
-                r = rjs_get_substitution(rt, s, pos, match, rep_str, rstr);
-            }
-
-            if (r == RJS_ERR)
+            if ((r = rjs_to_length(rt, idxv, &idx)) == RJS_ERR)
                 goto end;
 
-            rjs_uchar_buffer_append_string(rt, &ucb, rstr);
+            idx = adv_str_index(rt, s, idx, unicode);
 
-            if ((r = rjs_get(rt, match, rjs_pn_index(rt), idxv)) == RJS_ERR)
-                goto end;
+            rjs_value_set_number(rt, idxv, idx);
 
-            if ((r = rjs_to_length(rt, idxv, &idx)) == RJS_ERR)
+            if ((r = rjs_set(rt, thiz, rjs_pn_lastIndex(rt), idxv, RJS_TRUE)) == RJS_ERR)
                 goto end;
+        }
+    }
 
-            start = idx + rjs_string_get_length(rt, mstr);
+    start = 0;
 
-            if (!global)
-                break;
+    for (i = 0; i < num; i ++) {
+        size_t pos, mlen;
 
-            if (rjs_string_get_length(rt, mstr) == 0) {
-                if ((r = rjs_get(rt, thiz, rjs_pn_lastIndex(rt), idxv)) == RJS_ERR)
-                    goto end;
+        rjs_value_copy(rt, match, rjs_value_buffer_item(rt, first, i));
 
-                if ((r = rjs_to_length(rt, idxv, &idx)) == RJS_ERR)
-                    goto end;
+        if ((r = match_replacement(rt, s, match, repv, func_rep, &pos, &mlen, rstr)) == RJS_ERR)
+            goto end;
 
-                idx = adv_str_index(rt, s, idx, unicode);
+        if (pos >= start) {
+            chars = rjs_string_get_uchars(rt, s);
 
-                rjs_value_set_number(rt, idxv, idx);
+            rjs_uchar_buffer_append_uchars(rt, &ucb, chars + start, pos - start);
+            rjs_uchar_buffer_append_string(rt, &ucb, rstr);
 
-                if ((r = rjs_set(rt, thiz, rjs_pn_lastIndex(rt), idxv, RJS_TRUE)) == RJS_ERR)
-                    goto end;
-            }
+            start = pos + mlen;
         }
     }
 
     if (start < len) {
+        chars = rjs_string_get_uchars(rt, s);
+
         rjs_uchar_buffer_append_uchars(rt, &ucb, chars + start, len - start);
     }
 
diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index 275e93d..172fc9e 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -1203,7 +1203,7 @@ rjs_string_pad (RJS_Runtime *rt, RJS_Value *o, RJS_Value *max_len, RJS_Value *fi
 
     slen = rjs_string_get_length(rt, str);
 
-    if (ilen < slen) {
+    if (ilen <= (int64_t)slen) {
         rjs_value_copy(rt, rs, str);
         r = RJS_OK;
         goto end;
@@ -1427,71 +1427,35 @@ rjs_index_string_normalize (RJS_Runtime *rt, RJS_Value *v)
  * \param rt The current runtime.
  * \param str The origin string.
  * \param pos The position of the matched string.
- * \param captures The captured substrings.
+ * \param captures The matched string followed by the captured substrings.
+ * \param capn Number of the captured substrings.
+ * \param groups The named captures, or undefined.
  * \param rep_templ The replace template string.
- * \retval rv The result string.
+ * \param[out] rv The result string.
  * \retval RJS_OK On success.
  * \retval RJS_ERR On error.
  */
 RJS_Result
 rjs_get_substitution (RJS_Runtime *rt, RJS_Value *str, size_t pos,
-        RJS_Value *captures, RJS_Value *rep_templ, RJS_Value *rv)
+        RJS_Value *captures, size_t capn, RJS_Value *groups, RJS_Value *rep_templ, RJS_Value *rv)
 {
     RJS_UCharBuffer  ucb;
     const RJS_UChar *c, *b, *e, *nb, *ne;
-    size_t           len, slen, mlen;
-    int64_t          cn, n;
+    size_t           len, slen, mlen, tail;
+    int64_t          cn   = capn + 1;
     RJS_Result       r;
     RJS_Value       *cap;
-    RJS_Value       *caps   = NULL;
-    size_t           top    = rjs_value_stack_save(rt);
-    RJS_Value       *m      = rjs_value_stack_push(rt);
-    RJS_Value       *mstr   = rjs_value_stack_push(rt);
-    RJS_Value       *sub    = rjs_value_stack_push(rt);
-    RJS_Value       *sstr   = rjs_value_stack_push(rt);
-    RJS_Value       *groups = rjs_value_stack_push(rt);
-    RJS_Value       *gobj   = rjs_value_stack_push(rt);
-    RJS_Value       *name   = rjs_value_stack_push(rt);
+    RJS_Value       *mstr = rjs_value_buffer_item(rt, captures, 0);
+    size_t           top  = rjs_value_stack_save(rt);
+    RJS_Value       *sub  = rjs_value_stack_push(rt);
+    RJS_Value       *sstr = rjs_value_stack_push(rt);
+    RJS_Value       *name = rjs_value_stack_push(rt);
 
     rjs_uchar_buffer_init(rt, &ucb);
 
-    if ((r = rjs_length_of_array_like(rt, captures, &cn)) == RJS_ERR)
-        goto end;
-
-    if ((r = rjs_get_index_v(rt, captures, 0, m)) == RJS_ERR)
-        goto end;
-
-    if ((r = rjs_to_string(rt, m, mstr)) == RJS_ERR)
-        goto end;
-
-    if (cn > 1) {
-        caps = rjs_value_stack_push_n(rt, cn - 1);
-
-        for (n = 1; n < cn; n ++) {
-            if ((r = rjs_get_index_v(rt, captures, n, m)) == RJS_ERR)
-                goto end;
-
-            cap = rjs_value_buffer_item(rt, caps, n - 1);
-
-            if (!rjs_value_is_undefined(rt, m)) {
-                if ((r = rjs_to_string(rt, m, cap)) == RJS_ERR)
-                    goto end;
-            }
-        }
-    }
-
-    if ((r = rjs_get_v(rt, captures, rjs_pn_groups(rt), groups)) == RJS_ERR)
-        goto end;
-
-    if (!rjs_value_is_undefined(rt, groups)) {
-        if ((r = rjs_to_object(rt, groups, gobj)) == RJS_ERR)
-            goto end;
-
-        rjs_value_copy(rt, groups, gobj);
-    }
-
     slen = rjs_string_get_length(rt, str);
     mlen = rjs_string_get_length(rt, mstr);
+    tail = RJS_MIN(pos + mlen, slen);
 
     b   = rjs_string_get_uchars(rt, rep_templ);
     len = rjs_string_get_length(rt, rep_templ);
@@ -1518,7 +1482,7 @@ rjs_get_substitution (RJS_Runtime *rt, RJS_Value *str, size_t pos,
                     c ++;
                     break;
                 case '\'':
-                    rjs_string_substr(rt, str, pos + mlen, slen, sub);
+                    rjs_string_substr(rt, str, tail, slen, sub);
                     rjs_uchar_buffer_append_string(rt, &ucb, sub);
                     c ++;
                     break;
@@ -1576,7 +1540,7 @@ rjs_get_substitution (RJS_Runtime *rt, RJS_Value *str, size_t pos,
                         if ((n == 0) || (n >= cn)) {
                             rjs_uchar_buffer_append_uchars(rt, &ucb, t, c - t);
                         } else {
-                            cap = rjs_value_buffer_item(rt, caps, n - 1);
+                            cap = rjs_value_buffer_item(rt, captures, n);
 
                             if (!rjs_value_is_undefined(rt, cap))
                                 rjs_uchar_buffer_append_string(rt, &ucb, cap);
diff --git a/src/lib/rjs_string_object_inc.c b/src/lib/rjs_string_object_inc.c
index 2c326b3..383f148 100644
--- a/src/lib/rjs_string_object_inc.c
+++ b/src/lib/rjs_string_object_inc.c
@@ -905,7 +905,6 @@ static RJS_NF(String_prototype_replace)
     RJS_Value *posv     = rjs_value_stack_push(rt);
     RJS_Value *str      = rjs_value_stack_push(rt);
     RJS_Value *rstr     = rjs_value_stack_push(rt);
-    RJS_Value *captures = rjs_value_stack_push(rt);
     RJS_Value *fres     = rjs_value_stack_push(rt);
     RJS_Value *rres     = rjs_value_stack_push(rt);
     RJS_Bool   func_replace;
@@ -964,13 +963,7 @@ static RJS_NF(String_prototype_replace)
         if ((r = rjs_to_string(rt, fres, rres)) == RJS_ERR)
             goto end;
     } else {
-        if ((r = rjs_array_new(rt, captures, 1, NULL)) == RJS_ERR)
-            goto end;
-
-        if ((r = rjs_create_data_property_or_throw_index(rt, captures, 0, sstr)) == RJS_ERR)
-            goto end;
-
-        if ((r = rjs_get_substitution(rt, str, pos, captures, rstr, rres)) == RJS_ERR)
+        if ((r = rjs_get_substitution(rt, str, pos, sstr, 0, rjs_v_undefined(rt), rstr, rres)) == RJS_ERR)
             goto end;
     }
 
@@ -1013,7 +1006,6 @@ static RJS_NF(String_prototype_replaceAll)
     RJS_Value *posv     = rjs_value_stack_push(rt);
     RJS_Value *str      = rjs_value_stack_push(rt);
     RJS_Value *rstr     = rjs_value_stack_push(rt);
-    RJS_Value *captures = rjs_value_stack_push(rt);
     RJS_Value *fres     = rjs_value_stack_push(rt);
     RJS_Value *rres     = rjs_value_stack_push(rt);
     RJS_Value *flags    = rjs_value_stack_push(rt);
@@ -1096,13 +1088,7 @@ static RJS_NF(String_prototype_replaceAll)
             if ((r = rjs_to_string(rt, fres, rres)) == RJS_ERR)
                 goto end;
         } else {
-            if ((r = rjs_array_new(rt, captures, 1, NULL)) == RJS_ERR)
-                goto end;
-
-            if ((r = rjs_create_data_property_or_throw_index(rt, captures, 0, sstr)) == RJS_ERR)
-                goto end;
-
-            if ((r = rjs_get_substitution(rt, str, pos, captures, rstr, rres)) == RJS_ERR)
+            if ((r = rjs_get_substitution(rt, str, pos, sstr, 0, rjs_v_undefined(rt), rstr, rres)) == RJS_ERR)
                 goto end;
         }
 
-- 
2.43.0


From 7bbc0be5f1b01ebb876eeeb7d56db1a6bdd25252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:48 +0000
Subject: [PATCH 62/94] fix: make JSON.parse accept exactly the JSON grammar

---
 src/lib/rjs_json_opt.c |  64 +----------
 src/lib/rjs_lex.c      | 255 +++++++++++++++++++++++++++++++----------
 2 files changed, 200 insertions(+), 119 deletions(-)

diff --git a/src/lib/rjs_json_opt.c b/src/lib/rjs_json_opt.c
index 291ba87..9adf275 100644
--- a/src/lib/rjs_json_opt.c
+++ b/src/lib/rjs_json_opt.c
@@ -156,10 +156,9 @@ parse_array (RJS_Runtime *rt, RJS_JsonParser *jp, RJS_Value *v)
             goto end;
         }
 
-        if (tok->type == RJS_TOKEN_rbracket)
+        if ((tok->type == RJS_TOKEN_rbracket) && (idx == 0))
             break;
 
-
         unget_json_token(rt, jp);
 
         if ((r = parse_value(rt, jp, item)) == RJS_ERR)
@@ -197,6 +196,7 @@ parse_object (RJS_Runtime *rt, RJS_JsonParser *jp, RJS_Value *v)
     size_t           top = rjs_value_stack_save(rt);
     RJS_Value       *key = rjs_value_stack_push(rt);
     RJS_Value       *kv  = rjs_value_stack_push(rt);
+    RJS_Bool         first = RJS_TRUE;
     RJS_PropertyName pn;
     RJS_Token       *tok;
     RJS_Result       r;
@@ -209,11 +209,12 @@ parse_object (RJS_Runtime *rt, RJS_JsonParser *jp, RJS_Value *v)
             goto end;
         }
 
-        if (tok->type == RJS_TOKEN_rbrace)
+        if ((tok->type == RJS_TOKEN_rbrace) && first)
             break;
 
-        if ((tok->type == RJS_TOKEN_STRING)
-                || (tok->type == RJS_TOKEN_IDENTIFIER)) {
+        first = RJS_FALSE;
+
+        if (tok->type == RJS_TOKEN_STRING) {
             rjs_value_copy(rt, key, tok->value);
         } else {
             json_parse_error(rt, jp, &tok->location, _("expect a string here"));
@@ -260,42 +261,6 @@ end:
     return r;
 }
 
-/*Parse the number.*/
-static RJS_Result
-parse_json_number (RJS_Runtime *rt, RJS_JsonParser *jp, RJS_Value *v)
-{
-    RJS_Result r;
-    RJS_Token *tok;
-
-    if (!(tok = get_json_token(rt, jp)))
-        return RJS_ERR;
-
-    switch (tok->type) {
-    case RJS_TOKEN_NUMBER:
-        rjs_value_copy(rt, v, tok->value);
-        r = RJS_OK;
-        break;
-    case RJS_TOKEN_IDENTIFIER:
-        if (rjs_string_equal(rt, tok->value, rjs_s_Infinity(rt))) {
-            rjs_value_set_number(rt, v, INFINITY);
-            r = RJS_OK;
-        } else if (rjs_string_equal(rt, tok->value, rjs_s_NaN(rt))) {
-            rjs_value_set_number(rt, v, NAN);
-            r = RJS_OK;
-        } else {
-            json_parse_error(rt, jp, &tok->location, _("illegal token"));
-            r = RJS_ERR;
-        }
-        break;
-    default:
-        json_parse_error(rt, jp, &tok->location, _("illegal token"));
-        r = RJS_ERR;
-        break;
-    }
-
-    return r;
-}
-
 /*Parse the value.*/
 static RJS_Result
 parse_value (RJS_Runtime *rt, RJS_JsonParser *jp, RJS_Value *v)
@@ -318,17 +283,6 @@ parse_value (RJS_Runtime *rt, RJS_JsonParser *jp, RJS_Value *v)
         rjs_value_copy(rt, v, tok->value);
         r = RJS_OK;
         break;
-    case RJS_TOKEN_plus:
-        r = parse_json_number(rt, jp, v);
-        break;
-    case RJS_TOKEN_minus:
-        if ((r = parse_json_number(rt, jp, v)) == RJS_OK) {
-            RJS_Number n;
-
-            n = rjs_value_get_number(rt, v);
-            rjs_value_set_number(rt, v, -n);
-        }
-        break;
     case RJS_TOKEN_IDENTIFIER:
         if (rjs_string_equal(rt, tok->value, rjs_s_null(rt))) {
             rjs_value_set_null(rt, v);
@@ -339,12 +293,6 @@ parse_value (RJS_Runtime *rt, RJS_JsonParser *jp, RJS_Value *v)
         } else if (rjs_string_equal(rt, tok->value, rjs_s_false(rt))) {
             rjs_value_set_boolean(rt, v, RJS_FALSE);
             r = RJS_OK;
-        } else if (rjs_string_equal(rt, tok->value, rjs_s_Infinity(rt))) {
-            rjs_value_set_number(rt, v, INFINITY);
-            r = RJS_OK;
-        } else if (rjs_string_equal(rt, tok->value, rjs_s_NaN(rt))) {
-            rjs_value_set_number(rt, v, NAN);
-            r = RJS_OK;
         } else {
             json_parse_error(rt, jp, &tok->location, _("illegal token"));
             r = RJS_ERR;
diff --git a/src/lib/rjs_lex.c b/src/lib/rjs_lex.c
index 8172e4f..dbbc7f2 100644
--- a/src/lib/rjs_lex.c
+++ b/src/lib/rjs_lex.c
@@ -1472,6 +1472,183 @@ end:
     return RJS_OK;
 }
 
+/*JSON string.*/
+static void
+lex_json_string (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
+{
+    RJS_Location loc;
+    int          c, i, uc;
+
+    rjs_uchar_buffer_clear(rt, &lex->uc_text);
+
+    while (1) {
+        c = lex_get_uc(rt, lex);
+
+        if (c == '\"')
+            break;
+
+        if ((c == RJS_INPUT_END) || (c < 0x20))
+            goto error;
+
+        if (c == '\\') {
+            c = lex_get_uc(rt, lex);
+
+            switch (c) {
+            case '\"':
+            case '\\':
+            case '/':
+                break;
+            case 'b':
+                c = '\b';
+                break;
+            case 'f':
+                c = '\f';
+                break;
+            case 'n':
+                c = '\n';
+                break;
+            case 'r':
+                c = '\r';
+                break;
+            case 't':
+                c = '\t';
+                break;
+            case 'u':
+                uc = 0;
+
+                for (i = 0; i < 4; i ++) {
+                    c = lex_get_uc(rt, lex);
+
+                    if (!rjs_uchar_is_xdigit(c))
+                        goto error;
+
+                    uc = (uc << 4) | rjs_hex_char_to_number(c);
+                }
+
+                c = uc;
+                break;
+            default:
+                goto error;
+            }
+        }
+
+        rjs_uchar_buffer_append_uc(rt, &lex->uc_text, c);
+    }
+
+    token->type = RJS_TOKEN_STRING;
+
+    rjs_string_from_uchars(rt, token->value,
+            lex->uc_text.items, lex->uc_text.item_num);
+    return;
+error:
+    rjs_input_get_location(lex->input, &loc);
+    lex_error(rt, lex, &loc, _("illegal character in JSON string"));
+}
+
+/*JSON number.*/
+static void
+lex_json_number (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
+{
+    RJS_Location loc;
+    int          c;
+
+    rjs_char_buffer_clear(rt, &lex->c_text);
+
+    c = lex_get_uc(rt, lex);
+
+    if (c == '-') {
+        rjs_char_buffer_append_char(rt, &lex->c_text, c);
+        c = lex_get_uc(rt, lex);
+    }
+
+    if (!rjs_uchar_is_digit(c))
+        goto error;
+
+    if (c == '0') {
+        rjs_char_buffer_append_char(rt, &lex->c_text, c);
+        c = lex_get_uc(rt, lex);
+    } else {
+        while (rjs_uchar_is_digit(c)) {
+            rjs_char_buffer_append_char(rt, &lex->c_text, c);
+            c = lex_get_uc(rt, lex);
+        }
+    }
+
+    if (c == '.') {
+        rjs_char_buffer_append_char(rt, &lex->c_text, c);
+        c = lex_get_uc(rt, lex);
+
+        if (!rjs_uchar_is_digit(c))
+            goto error;
+
+        while (rjs_uchar_is_digit(c)) {
+            rjs_char_buffer_append_char(rt, &lex->c_text, c);
+            c = lex_get_uc(rt, lex);
+        }
+    }
+
+    if ((c == 'e') || (c == 'E')) {
+        rjs_char_buffer_append_char(rt, &lex->c_text, c);
+        c = lex_get_uc(rt, lex);
+
+        if ((c == '+') || (c == '-')) {
+            rjs_char_buffer_append_char(rt, &lex->c_text, c);
+            c = lex_get_uc(rt, lex);
+        }
+
+        if (!rjs_uchar_is_digit(c))
+            goto error;
+
+        while (rjs_uchar_is_digit(c)) {
+            rjs_char_buffer_append_char(rt, &lex->c_text, c);
+            c = lex_get_uc(rt, lex);
+        }
+    }
+
+    lex_unget_uc(rt, lex, c);
+
+    token->type = RJS_TOKEN_NUMBER;
+
+    rjs_value_set_number(rt, token->value,
+            rjs_strtod(rjs_char_buffer_to_c_string(rt, &lex->c_text), NULL));
+    return;
+error:
+    rjs_input_get_location(lex->input, &loc);
+    lex_error(rt, lex, &loc, _("illegal JSON number"));
+}
+
+/*JSON literal.*/
+static void
+lex_json_literal (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
+{
+    RJS_Location loc;
+    int          c;
+
+    rjs_uchar_buffer_clear(rt, &lex->uc_text);
+
+    while (1) {
+        c = lex_get_uc(rt, lex);
+
+        if (!rjs_uchar_is_alpha(c))
+            break;
+
+        rjs_uchar_buffer_append_uc(rt, &lex->uc_text, c);
+    }
+
+    if (!lex->uc_text.item_num) {
+        rjs_input_get_location(lex->input, &loc);
+        lex_error(rt, lex, &loc, _("illegal character in JSON"));
+        return;
+    }
+
+    lex_unget_uc(rt, lex, c);
+
+    token->type = RJS_TOKEN_IDENTIFIER;
+
+    rjs_string_from_uchars(rt, token->value,
+            lex->uc_text.items, lex->uc_text.item_num);
+}
+
 /**
  * Get the next JSON token from the input.
  * \param rt The current runtime.
@@ -1483,38 +1660,22 @@ end:
 RJS_Result
 rjs_lex_get_json_token (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
 {
-    int c, c1;
+    int c;
 
     token->type  = -1;
     token->flags = 0;
 
-    /*Eatup space and comment.*/
-    while (1) {
+    /*Eatup white space.*/
+    do {
         c = lex_get_uc(rt, lex);
-        if (c == RJS_INPUT_END) {
-            rjs_input_get_location(lex->input, &token->location);
-            token->location.first_column ++;
-            token->location.last_column ++;
-            token->type = RJS_TOKEN_END;
-            goto end;
-        }
-
-        if (c == '/') {
-            c1 = lex_get_uc(rt, lex);
-            if (c1 == '/') {
-                lex_single_line_comment(rt, lex);
-                continue;
-            } else if (c1 == '*') {
-                lex_multi_line_comment(rt, lex);
-                continue;
-            } else {
-                lex_unget_uc(rt, lex, c1);
-                break;
-            }
-        }
-
-        if (!rjs_uchar_is_white_space(c))
-            break;
+    } while ((c == ' ') || (c == '\t') || (c == '\n') || (c == '\r'));
+
+    if (c == RJS_INPUT_END) {
+        rjs_input_get_location(lex->input, &token->location);
+        token->location.first_column ++;
+        token->location.last_column ++;
+        token->type = RJS_TOKEN_END;
+        return RJS_OK;
     }
 
     /*Store the first character's position.*/
@@ -1526,15 +1687,7 @@ rjs_lex_get_json_token (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
 
     switch (c) {
     case '\"':
-    case '\'':
-        lex_string(rt, lex, token, c);
-        break;
-    case '`':
-        lex_template(rt, lex, RJS_TRUE, token);
-        break;
-    case '.':
-        lex_unget_uc(rt, lex, c);
-        lex_number(rt, lex, token);
+        lex_json_string(rt, lex, token);
         break;
     case '{':
         token->type = RJS_TOKEN_lbrace;
@@ -1554,42 +1707,22 @@ rjs_lex_get_json_token (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
     case ':':
         token->type = RJS_TOKEN_colon;
         break;
-    case '+':
-        token->type = RJS_TOKEN_plus;
-        break;
-    case '-':
-        token->type = RJS_TOKEN_minus;
-        break;
-    case '\\':
-        lex_unget_uc(rt, lex, c);
-        lex_identifier(rt, lex, token);
-        break;
     default:
         lex_unget_uc(rt, lex, c);
 
-        if (rjs_uchar_is_digit(c)) {
-            lex_number(rt, lex, token);
-        } else if (rjs_uchar_is_id_start(c)) {
-            lex_identifier(rt, lex, token);
-        } else {
-            RJS_Location loc;
-
-            rjs_input_get_location(lex->input, &loc);
-            lex_error(rt, lex, &loc, _("illegal character"));
-        }
+        if ((c == '-') || rjs_uchar_is_digit(c))
+            lex_json_number(rt, lex, token);
+        else
+            lex_json_literal(rt, lex, token);
         break;
     }
 
-    /*Store the last character's position.*/
     rjs_input_get_position(lex->input,
             &token->location.last_line,
             &token->location.last_column,
             &token->location.last_pos);
-end:
-    if (rjs_lex_error(lex))
-        return RJS_ERR;
 
-    return RJS_OK;
+    return (token->type == -1) ? RJS_ERR : RJS_OK;
 }
 
 /**
-- 
2.43.0


From 588f71d2e6348e9bed311ad72d81e25fa1d10274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:50 +0000
Subject: [PATCH 63/94] fix: make RegExp matching follow the specification for
 empty iterations, case folding, surrogates, source text and toString

---
 src/lib/rjs_regexp.c            | 245 ++++++++++++++++++++++++--------
 src/lib/rjs_regexp_object_inc.c |  40 +++++-
 2 files changed, 224 insertions(+), 61 deletions(-)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 427cb78..7d2d564 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -176,6 +176,7 @@ typedef struct {
     RJS_RegExpPattern *pattern;    /**< The pattern.*/
     int                sp;         /**< The match state stack pointer.*/
     int                group_num;  /**< Group number.*/
+    RJS_Bool           in_name;    /**< Parsing a group name.*/
     RJS_Hash           name_hash;  /**< Group names hash table.*/
     RJS_List           name_list;  /**< Group name list.*/
     RJS_List           group_list; /**< Group list.*/
@@ -387,6 +388,7 @@ regexp_parser_init (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_Value *src, int fl
     p->flags     = flags;
     p->sp        = 0;
     p->group_num = 1;
+    p->in_name   = RJS_FALSE;
 
     rjs_hash_init(&p->name_hash);
 
@@ -432,14 +434,29 @@ regexp_parser_deinit (RJS_Runtime *rt, RJS_RegExpParser *p)
 static int
 get_uc (RJS_Runtime *rt, RJS_RegExpParser *p)
 {
-    return rjs_input_get_uc(rt, &p->si);
+    int c = rjs_input_get_uc(rt, &p->si);
+
+    /*Without "u" flag, the pattern is a list of code units.*/
+    if ((c > 0xffff) && !(p->flags & RJS_REGEXP_FL_U) && !p->in_name) {
+        RJS_UChar l, t;
+
+        rjs_uc_to_surrogate_pair(c, &l, &t);
+
+        p->si.pos --;
+        c = l;
+    }
+
+    return c;
 }
 
 /*Push back a unicode character.*/
 static void
 unget_uc (RJS_Runtime *rt, RJS_RegExpParser *p, int uc)
 {
-    rjs_input_unget_uc(rt, &p->si, uc);
+    if (rjs_uchar_is_trailing_surrogate(uc) && !(p->flags & RJS_REGEXP_FL_U) && !p->in_name)
+        p->si.pos --;
+    else
+        rjs_input_unget_uc(rt, &p->si, uc);
 }
 
 /*Output parse error message.*/
@@ -850,6 +867,8 @@ parse_group_name (RJS_Runtime *rt, RJS_RegExpParser *p)
 
     rjs_uchar_buffer_init(rt, &text);
 
+    p->in_name = RJS_TRUE;
+
     if ((c = parse_uc(rt, p, RJS_REGEXP_FL_U)) == RJS_ERR)
         goto end;
 
@@ -903,6 +922,7 @@ parse_group_name (RJS_Runtime *rt, RJS_RegExpParser *p)
         rjs_list_append(&p->name_list, &ne->ln);
     }
 end:
+    p->in_name = RJS_FALSE;
     rjs_uchar_buffer_deinit(rt, &text);
     return ne;
 }
@@ -981,8 +1001,8 @@ parse_class (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpTerm *term)
             if (c == ']') {
                 unget_uc(rt, p, '-');
 
-                ca.type  = mc.type;
-                ca.a.c.c = mc.c.c;
+                ca.type = mc.type;
+                ca.a.c  = mc.c;
             } else {
                 if (mc.type != RJS_REGEXP_CHAR_NORMAL) {
                     regexp_parse_error(rt, p, _("only normal character can be used in range"));
@@ -1018,8 +1038,8 @@ parse_class (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpTerm *term)
         } else {
             unget_uc(rt, p, c);
 
-            ca.type  = mc.type;
-            ca.a.c.c = mc.c.c;
+            ca.type = mc.type;
+            ca.a.c  = mc.c;
         }
 
         rjs_vector_append(&term->t.clazz.atoms, ca, rt);
@@ -1495,6 +1515,8 @@ gen_source (RJS_Runtime *rt, RJS_Value *src, RJS_Value *str)
     RJS_UCharBuffer  ucb;
     const RJS_UChar *c, *e;
     size_t           len;
+    RJS_Bool         escape = RJS_FALSE;
+    RJS_Bool         clazz  = RJS_FALSE;
 
     len = rjs_string_get_length(rt, src);
     if (len == 0) {
@@ -1510,21 +1532,45 @@ gen_source (RJS_Runtime *rt, RJS_Value *src, RJS_Value *str)
     while (c < e) {
         switch (*c) {
         case '\n':
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
+            if (!escape)
+                rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
             rjs_uchar_buffer_append_uchar(rt, &ucb, 'n');
             break;
         case '\r':
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
+            if (!escape)
+                rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
             rjs_uchar_buffer_append_uchar(rt, &ucb, 'r');
             break;
+        case 0x2028:
+        case 0x2029:
+            if (!escape)
+                rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
+            rjs_uchar_buffer_append_uchar(rt, &ucb, 'u');
+            rjs_uchar_buffer_append_uchar(rt, &ucb, '2');
+            rjs_uchar_buffer_append_uchar(rt, &ucb, '0');
+            rjs_uchar_buffer_append_uchar(rt, &ucb, '2');
+            rjs_uchar_buffer_append_uchar(rt, &ucb, (*c == 0x2028) ? '8' : '9');
+            break;
         case '/':
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
+            if (!escape && !clazz)
+                rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
             rjs_uchar_buffer_append_uchar(rt, &ucb, '/');
             break;
         default:
             rjs_uchar_buffer_append_uchar(rt, &ucb, *c);
             break;
         }
+
+        if (escape) {
+            escape = RJS_FALSE;
+        } else if (*c == '\\') {
+            escape = RJS_TRUE;
+        } else if (*c == '[') {
+            clazz = RJS_TRUE;
+        } else if (*c == ']') {
+            clazz = RJS_FALSE;
+        }
+
         c ++;
     }
 
@@ -1841,6 +1887,8 @@ canonicalize (int c, int flags)
 
         if (rjs_uchars_to_upper(&cin, 1, &cout, 1, "") > 1)
             r = c;
+        else if ((c >= 128) && (cout < 128))
+            r = c;
         else
             r = cout;
     } else {
@@ -1850,6 +1898,88 @@ canonicalize (int c, int flags)
     return r;
 }
 
+/*The maximum number of the characters has same canonicalized value.*/
+#define CASE_VARIANT_MAX 8
+
+/*Convert the case of one character.*/
+static int
+convert_case (int c, RJS_Bool upper)
+{
+    RJS_UChar src[2], dst[2];
+    int       slen, dlen;
+
+    if (c > 0xffff) {
+        rjs_uc_to_surrogate_pair(c, &src[0], &src[1]);
+        slen = 2;
+    } else {
+        src[0] = c;
+        slen   = 1;
+    }
+
+    if (upper)
+        dlen = rjs_uchars_to_upper(src, slen, dst, 2, "");
+    else
+        dlen = rjs_uchars_to_lower(src, slen, dst, 2, "");
+
+    if (dlen == 1)
+        return dst[0];
+
+    if ((dlen == 2) && rjs_uchar_is_leading_surrogate(dst[0])
+            && rjs_uchar_is_trailing_surrogate(dst[1]))
+        return rjs_surrogate_pair_to_uc(dst[0], dst[1]);
+
+    return c;
+}
+
+/*Get all the characters match the character when ignoring the case.*/
+static int
+get_case_variants (int c, int flags, int *cv)
+{
+    /*Characters which are not the case conversion result of the canonicalized character.*/
+    static const uint16_t extra[] = {
+        0xb5, 0x17f, 0x1c5, 0x1c8, 0x1cb, 0x1f2, 0x345, 0x3c2, 0x3d0, 0x3d1,
+        0x3d5, 0x3d6, 0x3f0, 0x3f1, 0x3f4, 0x3f5, 0x1c80, 0x1c81, 0x1c82, 0x1c83,
+        0x1c84, 0x1c85, 0x1c86, 0x1c87, 0x1c88, 0x1e9b, 0x1e9e, 0x1fbe, 0x1fd3, 0x1fe3,
+        0x2126, 0x212a, 0x212b, 0xfb05
+    };
+    int    n = 0, v, t, i;
+    size_t id;
+
+    cv[n ++] = c;
+
+    if (!(flags & RJS_REGEXP_FL_I))
+        return n;
+
+    v = canonicalize(c, flags);
+
+    for (id = 0; id < RJS_N_ELEM(extra) + 3; id ++) {
+        if (id == 0)
+            t = v;
+        else if (id == 1)
+            t = convert_case(v, RJS_TRUE);
+        else if (id == 2)
+            t = convert_case(v, RJS_FALSE);
+        else
+            t = extra[id - 3];
+
+        if ((id >= 3) && (rjs_uchar_fold_case(t) != rjs_uchar_fold_case(v)))
+            continue;
+
+        if (canonicalize(t, flags) != v)
+            continue;
+
+        for (i = 0; i < n; i ++) {
+            if (cv[i] == t)
+                break;
+        }
+
+        if ((i == n) && (n < CASE_VARIANT_MAX))
+            cv[n ++] = t;
+    }
+
+    return n;
+}
+
 /*Get the last index.*/
 static RJS_Result
 get_last_index (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
@@ -1964,8 +2094,13 @@ regexp_adv_str_index (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, size_t index, RJS_B
 
 /*Check if the character is a word.*/
 static RJS_Bool
-is_word (int c)
+is_word (int c, int flags)
 {
+    if ((flags & RJS_REGEXP_FL_I) && (flags & RJS_REGEXP_FL_U)) {
+        if ((c == 0x17f) || (c == 0x212a))
+            return RJS_TRUE;
+    }
+
     return rjs_uchar_is_alnum(c) || (c == '_');
 }
 
@@ -2078,6 +2213,10 @@ static RJS_Bool
 match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c, int flags)
 {
     RJS_Bool r;
+#if ENABLE_UNICODE_PROPERTY
+    int      cv[CASE_VARIANT_MAX];
+    int      i, n;
+#endif /*ENABLE_UNICODE_PROPERTY*/
 
     switch (t) {
     case RJS_REGEXP_CHAR_s:
@@ -2087,7 +2226,7 @@ match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c,
         r = rjs_uchar_is_digit(c);
         break;
     case RJS_REGEXP_CHAR_w:
-        r = is_word(c);
+        r = is_word(c, flags);
         break;
     case RJS_REGEXP_CHAR_S:
         r = !rjs_uchar_is_white_space(c);
@@ -2096,17 +2235,18 @@ match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c,
         r = !rjs_uchar_is_digit(c);
         break;
     case RJS_REGEXP_CHAR_W:
-        r = !is_word(c);
+        r = !is_word(c, flags);
         break;
     case RJS_REGEXP_CHAR_NORMAL:
         r = canonicalize(c, flags) == canonicalize(d->c, flags);
         break;
 #if ENABLE_UNICODE_PROPERTY
     case RJS_REGEXP_CHAR_p:
-        r = unicode_property_match(d->p.prop, d->p.value, canonicalize(c, flags));
-        break;
     case RJS_REGEXP_CHAR_P:
-        r = !unicode_property_match(d->p.prop, d->p.value, canonicalize(c, flags));
+        n = get_case_variants(c, flags, cv);
+
+        for (i = 0, r = RJS_FALSE; (i < n) && !r; i ++)
+            r = !unicode_property_match(d->p.prop, d->p.value, cv[i]) == (t == RJS_REGEXP_CHAR_P);
         break;
 #endif /*ENABLE_UNICODE_PROPERTY*/
     default:
@@ -2127,11 +2267,12 @@ match_class_atom (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpClassAtom *at
     if (atom->type != -1) {
         r = match_char(rt, atom->type, &atom->a.c, c, ctxt->flags);
     } else {
-        int min = canonicalize(atom->a.range.min, ctxt->flags);
-        int max = canonicalize(atom->a.range.max, ctxt->flags);
-        int v   = canonicalize(c, ctxt->flags);
+        int cv[CASE_VARIANT_MAX];
+        int n = get_case_variants(c, ctxt->flags, cv);
+        int i;
 
-        r = (v >= min) && (v <= max);
+        for (i = 0, r = RJS_FALSE; (i < n) && !r; i ++)
+            r = (cv[i] >= atom->a.range.min) && (cv[i] <= atom->a.range.max);
     }
 
     return r;
@@ -2265,7 +2406,7 @@ static RJS_Bool
 match_back_ref (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, int id)
 {
     ssize_t  start, end, tmp;
-    size_t   p1, p2, i, len;
+    ssize_t  p, pos;
     int      c1, c2;
     RJS_Bool r;
 
@@ -2288,44 +2429,26 @@ match_back_ref (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, int id)
         end   = tmp;
     }
 
-    len = end - start;
+    pos = ctxt->pos;
+    p   = ctxt->reverse ? end : start;
 
-    if (ctxt->reverse) {
-        if (ctxt->pos < len) {
-            r = RJS_FALSE;
-            goto end;
-        }
+    while (p != (ctxt->reverse ? start : end)) {
+        /*Read the next character of the capture.*/
+        ctxt->pos = p;
+        c2 = read_char(rt, ctxt);
+        p  = ctxt->pos;
 
-        p1 = ctxt->pos - len;
-    } else {
-        if (ctxt->pos + len > ctxt->len) {
-            r = RJS_FALSE;
-            goto end;
-        }
-
-        p1 = ctxt->pos;
-    }
-
-    p2 = start;
-
-    for (i = 0; i < len; i ++) {
-        c1 = rjs_string_get_uchar(rt, &ctxt->str, p1);
-        c2 = rjs_string_get_uchar(rt, &ctxt->str, p2);
+        /*Read the next character of the input.*/
+        ctxt->pos = pos;
+        c1  = read_char(rt, ctxt);
+        pos = ctxt->pos;
 
-        if (canonicalize(c1, ctxt->flags) != canonicalize(c2, ctxt->flags)) {
+        if ((c1 == -1) || (canonicalize(c1, ctxt->flags) != canonicalize(c2, ctxt->flags))) {
             r = RJS_FALSE;
             goto end;
         }
-
-        p1 ++;
-        p2 ++;
     }
 
-    if (ctxt->reverse)
-        ctxt->pos -= len;
-    else
-        ctxt->pos += len;
-
     r = RJS_TRUE;
 end:
     return r;
@@ -2388,14 +2511,14 @@ match_atom (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpTerm *term)
         c  = get_char(rt, ctxt, ctxt->pos - 1);
         nc = get_char(rt, ctxt, ctxt->pos);
 
-        if (is_word(c) == is_word(nc))
+        if (is_word(c, ctxt->flags) == is_word(nc, ctxt->flags))
             return RJS_REGEXP_REJECT;
         break;
     case RJS_REGEXP_TERM_B:
         c  = get_char(rt, ctxt, ctxt->pos - 1);
         nc = get_char(rt, ctxt, ctxt->pos);
 
-        if (is_word(c) != is_word(nc))
+        if (is_word(c, ctxt->flags) != is_word(nc, ctxt->flags))
             return RJS_REGEXP_REJECT;
         break;
     case RJS_REGEXP_TERM_BR_ID:
@@ -2524,13 +2647,12 @@ match_term (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpPattern *pat, RJS_R
     if ((term->min == 0) && (term->max == 0))
         return RJS_REGEXP_NEXT;
 
-    if (cnt > term->min) {
-        if ((term->max != -1) && (cnt > term->max))
-            return RJS_REGEXP_NEXT;
+    /*An optional iteration must consume characters.*/
+    if ((cnt > 1) && (cnt - 1 > term->min) && (pos == ctxt->pos))
+        return RJS_REGEXP_REJECT;
 
-        if ((cnt > 1) && (pos == ctxt->pos))
-            return RJS_REGEXP_NEXT;
-    }
+    if ((cnt > term->min) && (term->max != -1) && (cnt > term->max))
+        return RJS_REGEXP_NEXT;
 
     if (cnt <= term->min) {
         size_t         jid;
@@ -2846,6 +2968,12 @@ rjs_regexp_builtin_exec (RJS_Runtime *rt, RJS_Value *v, RJS_Value *str, RJS_Valu
     if (!(ctxt.model->flags & (RJS_REGEXP_FL_G|RJS_REGEXP_FL_Y)))
         last_idx = 0;
 
+    /*Never start from the middle of a surrogate pair.*/
+    if ((ctxt.flags & RJS_REGEXP_FL_U) && (last_idx > 0) && (last_idx < ctxt.len)
+            && rjs_uchar_is_trailing_surrogate(rjs_string_get_uchar(rt, str, last_idx))
+            && rjs_uchar_is_leading_surrogate(rjs_string_get_uchar(rt, str, last_idx - 1)))
+        last_idx --;
+
     /*Match the regular expression.*/
     while (1) {
         if (last_idx > ctxt.len) {
@@ -2946,6 +3074,7 @@ rjs_regexp_builtin_exec (RJS_Runtime *rt, RJS_Value *v, RJS_Value *str, RJS_Valu
 
         if ((start == -1) || (end == -1)) {
             rjs_value_set_undefined(rt, sub);
+            rjs_create_data_property_or_throw_index(rt, rv, i, sub);
 
             if (has_indices)
                 rjs_value_set_undefined(rt, indice);
diff --git a/src/lib/rjs_regexp_object_inc.c b/src/lib/rjs_regexp_object_inc.c
index a05b4d7..4480925 100644
--- a/src/lib/rjs_regexp_object_inc.c
+++ b/src/lib/rjs_regexp_object_inc.c
@@ -55,7 +55,34 @@ static RJS_NF(RegExp_constructor)
         }
     }
 
-    if (pat_is_re) {
+    if (rjs_value_get_gc_thing_type(rt, pattern) == RJS_GC_THING_REGEXP) {
+        RJS_RegExp *re = (RJS_RegExp*)rjs_value_get_object(rt, pattern);
+
+        rjs_value_copy(rt, p, &re->model->source);
+
+        if (rjs_value_is_undefined(rt, flags)) {
+            char fbuf[8], *fc = fbuf;
+
+            if (re->model->flags & RJS_REGEXP_FL_D)
+                *fc ++ = 'd';
+            if (re->model->flags & RJS_REGEXP_FL_G)
+                *fc ++ = 'g';
+            if (re->model->flags & RJS_REGEXP_FL_I)
+                *fc ++ = 'i';
+            if (re->model->flags & RJS_REGEXP_FL_M)
+                *fc ++ = 'm';
+            if (re->model->flags & RJS_REGEXP_FL_S)
+                *fc ++ = 's';
+            if (re->model->flags & RJS_REGEXP_FL_U)
+                *fc ++ = 'u';
+            if (re->model->flags & RJS_REGEXP_FL_Y)
+                *fc ++ = 'y';
+
+            rjs_string_from_chars(rt, fl, fbuf, fc - fbuf);
+        } else {
+            rjs_value_copy(rt, fl, flags);
+        }
+    } else if (pat_is_re) {
         if ((r = rjs_get(rt, pattern, rjs_pn_source(rt), p)) == RJS_ERR)
             goto end;
 
@@ -849,6 +876,7 @@ end:
 static RJS_NF(RegExp_prototype_toString)
 {
     size_t     top    = rjs_value_stack_save(rt);
+    RJS_Value *tmp    = rjs_value_stack_push(rt);
     RJS_Value *pat    = rjs_value_stack_push(rt);
     RJS_Value *flags  = rjs_value_stack_push(rt);
     RJS_UCharBuffer ucb;
@@ -859,10 +887,16 @@ static RJS_NF(RegExp_prototype_toString)
         goto end;
     }
 
-    if ((r = rjs_get(rt, thiz, rjs_pn_source(rt), pat)) == RJS_ERR)
+    if ((r = rjs_get(rt, thiz, rjs_pn_source(rt), tmp)) == RJS_ERR)
+        goto end;
+
+    if ((r = rjs_to_string(rt, tmp, pat)) == RJS_ERR)
+        goto end;
+
+    if ((r = rjs_get(rt, thiz, rjs_pn_flags(rt), tmp)) == RJS_ERR)
         goto end;
 
-    if ((r = rjs_get(rt, thiz, rjs_pn_flags(rt), flags)) == RJS_ERR)
+    if ((r = rjs_to_string(rt, tmp, flags)) == RJS_ERR)
         goto end;
 
     rjs_uchar_buffer_init(rt, &ucb);
-- 
2.43.0


From 18175a91add45870452a24e91d990e7c8342d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:12 +0000
Subject: [PATCH 64/94] fix: correct Date setters, local time zones and the ISO
 date format

---
 src/lib/rjs_date_object_inc.c | 95 +++++++++++++++++++++++++++--------
 1 file changed, 73 insertions(+), 22 deletions(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 7c1fc18..5784f17 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -90,7 +90,12 @@ date_ops = {
 static int64_t
 day (int64_t t)
 {
-    return floor(((double)t) / RJS_MS_PER_DAY);
+    int64_t d = t / RJS_MS_PER_DAY;
+
+    if (t % RJS_MS_PER_DAY < 0)
+        d --;
+
+    return d;
 }
 
 /*Get the time within a day.*/
@@ -247,9 +252,7 @@ hour_from_time (int64_t t)
 {
     int v;
 
-    v = (t / RJS_MS_PER_HOUR) % RJS_HOURS_PER_DAY;
-    if (v < 0)
-        v += RJS_HOURS_PER_DAY;
+    v = (time_within_day(t) / RJS_MS_PER_HOUR) % RJS_HOURS_PER_DAY;
 
     return v;
 }
@@ -260,9 +263,7 @@ min_from_time (int64_t t)
 {
     int v;
 
-    v = (t / RJS_MS_PER_MINUTE) % RJS_MINUTES_PER_HOUR;
-    if (v < 0)
-        v += RJS_MINUTES_PER_HOUR;
+    v = (time_within_day(t) / RJS_MS_PER_MINUTE) % RJS_MINUTES_PER_HOUR;
 
     return v;
 }
@@ -273,9 +274,7 @@ sec_from_time (int64_t t)
 {
     int v;
 
-    v = (t / RJS_MS_PER_SECOND) % RJS_SECONDS_PER_MINUTE;
-    if (v < 0)
-        v += RJS_SECONDS_PER_MINUTE;
+    v = (time_within_day(t) / RJS_MS_PER_SECOND) % RJS_SECONDS_PER_MINUTE;
 
     return v;
 }
@@ -304,13 +303,42 @@ date_value_now (RJS_Runtime *rt)
     return tv.tv_sec * 1000 + tv.tv_usec / 1000;
 }
 
+/*Get the offset of the local time from UTC at a UTC time.*/
+static int64_t
+local_offset (int64_t t)
+{
+#ifdef _WIN32
+    return - (int64_t)timezone * RJS_MS_PER_SECOND;
+#else
+    time_t    sec = day(t) * 86400 + time_within_day(t) / RJS_MS_PER_SECOND;
+    struct tm tm;
+
+    if (!localtime_r(&sec, &tm))
+        return - (int64_t)timezone * RJS_MS_PER_SECOND;
+
+    return (int64_t)tm.tm_gmtoff * RJS_MS_PER_SECOND;
+#endif
+}
+
 /*Local time zone adjust.*/
 static int64_t
 local_tza (RJS_Runtime *rt, int64_t t, RJS_Bool utc)
 {
-    int64_t off = timezone * RJS_MS_PER_SECOND;
+    int64_t before, after;
+
+    if (utc)
+        return local_offset(t);
+
+    /*t is a local time. A repeated or skipped time uses the offset before the transition.*/
+    before = local_offset(t - RJS_MS_PER_DAY);
+    if (local_offset(t - before) == before)
+        return before;
+
+    after = local_offset(t + RJS_MS_PER_DAY);
+    if (local_offset(t - after) == after)
+        return after;
 
-    return -off;
+    return before;
 }
 
 /*Get the local time.*/
@@ -321,9 +349,13 @@ local_time (RJS_Runtime *rt, int64_t t)
 }
 
 /*Get the UTC time.*/
-static int64_t
-utc (RJS_Runtime *rt, int64_t t)
+static RJS_Number
+utc (RJS_Runtime *rt, RJS_Number t)
 {
+    /*The value is not a number or will be clipped.*/
+    if (!(RJS_ABS(t) <= 8.64e15 + RJS_MS_PER_DAY))
+        return NAN;
+
     return t - local_tza(rt, t, RJS_FALSE);
 }
 
@@ -468,6 +500,11 @@ make_day (RJS_Runtime *rt, RJS_Number y, RJS_Number m, RJS_Number d)
         rjs_value_set_number(rt, v, d);
         rjs_to_integer_or_infinity(rt, v, &d);
 
+        if ((RJS_ABS(y) > 1e6) || (RJS_ABS(m) > 1e7)) {
+            dv = NAN;
+            goto end;
+        }
+
         y += floor(m / 12);
         if (isinf(y)) {
             dv = NAN;
@@ -556,8 +593,10 @@ parse_date_number (RJS_Runtime *rt, RJS_Input *input, int len)
             break;
         }
 
-        v *= 10;
-        v += c - '0';
+        if (v < 100000000) {
+            v *= 10;
+            v += c - '0';
+        }
 
         rlen ++;
 
@@ -942,7 +981,11 @@ date_parse (RJS_Runtime *rt, RJS_Value *v, RJS_Number *t)
         if (day > month_days[mon - 1])
             goto end;
     }
-    if ((hour > 23) || (min > 59) || (sec > 59))
+    if (day < 1)
+        goto end;
+    if ((hour > 24) || (min > 59) || (sec > 59))
+        goto end;
+    if ((hour == 24) && (min || sec || ms))
         goto end;
     if ((off_hour > 23) || (off_min > 59))
         goto end;
@@ -1990,7 +2033,7 @@ static RJS_NF(Date_prototype_setUTCMilliseconds)
         return RJS_OK;
     }
 
-    u = make_date(rt, day(t), make_time(rt, hour_from_time(t), ms_from_time(t), sec_from_time(t), milli));
+    u = make_date(rt, day(t), make_time(rt, hour_from_time(t), min_from_time(t), sec_from_time(t), milli));
     u = time_clip(rt, u);
 
     d = (RJS_Date*)rjs_value_get_object(rt, thiz);
@@ -2169,8 +2212,9 @@ static RJS_NF(Date_prototype_toISOString)
     if (isnan(t)) {
         r = rjs_throw_range_error(rt, _("date value overflow"));
     } else {
-        int  y, m, d, h, min, sec, ms;
-        char buf[256];
+        int    y, m, d, h, min, sec, ms;
+        char   buf[256];
+        size_t len;
 
         y   = year_from_time(t);
         m   = month_from_time(t);
@@ -2180,8 +2224,15 @@ static RJS_NF(Date_prototype_toISOString)
         sec = sec_from_time(t);
         ms  = ms_from_time(t);
 
-        snprintf(buf, sizeof(buf), "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ",
-                y, m + 1, d, h, min, sec, ms);
+        if ((y >= 0) && (y <= 9999))
+            snprintf(buf, sizeof(buf), "%04d", y);
+        else
+            snprintf(buf, sizeof(buf), "%c%06d", (y < 0) ? '-' : '+', RJS_ABS(y));
+
+        len = strlen(buf);
+
+        snprintf(buf + len, sizeof(buf) - len, "-%02d-%02dT%02d:%02d:%02d.%03dZ",
+                m + 1, d, h, min, sec, ms);
 
         r = rjs_string_from_chars(rt, rv, buf, -1);
     }
-- 
2.43.0


From 0be888ed11d2306cefedfc892a30886b79f41217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:38 +0000
Subject: [PATCH 65/94] fix: reject over-long and surrogate sequences when
 decoding URIs

---
 src/lib/rjs_uri_functions_inc.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_uri_functions_inc.c b/src/lib/rjs_uri_functions_inc.c
index 1d7c8fc..e6bfa97 100644
--- a/src/lib/rjs_uri_functions_inc.c
+++ b/src/lib/rjs_uri_functions_inc.c
@@ -66,9 +66,9 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
             rjs_uchar_buffer_append_uchar(rt, &ucb, *c);
             c ++;
         } else {
-            int uc, n;
+            int uc, n, min;
 
-            if (e - c < 2) {
+            if (e - c < 3) {
                 r = throw_uri_error(rt);
                 goto end;
             }
@@ -106,15 +106,19 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
             c += 3;
 
             if (!(uc & 0x80)) {
-                n = 0;
+                n   = 0;
+                min = 0;
             } else if ((uc & 0xe0) == 0xc0) {
                 n   = 1;
+                min = 0x80;
                 uc &= 0x1f;
             } else if ((uc & 0xf0) == 0xe0) {
                 n   = 2;
+                min = 0x800;
                 uc &= 0x0f;
             } else if ((uc & 0xf8) == 0xf0) {
                 n   = 3;
+                min = 0x10000;
                 uc &= 0x07;
             } else {
                 r = throw_uri_error(rt);
@@ -152,6 +156,12 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
                 n --;
             }
 
+            /*Over-long form, surrogate or out of the unicode range.*/
+            if ((uc < min) || ((uc >= 0xd800) && (uc <= 0xdfff)) || (uc > 0x10ffff)) {
+                r = throw_uri_error(rt);
+                goto end;
+            }
+
             rjs_uchar_buffer_append_uc(rt, &ucb, uc);
         }
     }
-- 
2.43.0


From 22ce285f954d2551b87c627f1ab3977b173c6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:26 +0000
Subject: [PATCH 66/94] fix: built-in surface, instanceof with a non-callable
 handler, Object.defineProperties order

---
 src/lib/rjs_builtin_func_object.c |  3 +-
 src/lib/rjs_error.c               | 58 ++++++++++++++-----------------
 src/lib/rjs_global_object.c       |  4 +--
 src/lib/rjs_object_object_inc.c   | 51 ++++++++++++++++++++++-----
 src/lib/rjs_operation.c           | 12 +++++--
 5 files changed, 83 insertions(+), 45 deletions(-)

diff --git a/src/lib/rjs_builtin_func_object.c b/src/lib/rjs_builtin_func_object.c
index 14be103..b50753d 100644
--- a/src/lib/rjs_builtin_func_object.c
+++ b/src/lib/rjs_builtin_func_object.c
@@ -473,7 +473,8 @@ object_desc_load (RJS_Runtime *rt, RJS_Realm *realm, RJS_Value *o, RJS_Value *na
             }
 
             if (!strcmp(bod->native, "GeneratorFunction")
-                    || !strcmp(bod->native, "AsyncGeneratorFunction"))
+                    || !strcmp(bod->native, "AsyncGeneratorFunction")
+                    || !strcmp(bod->native, "AsyncFunction"))
                 cflags &= ~RJS_PROP_FL_WRITABLE;
         }
 
diff --git a/src/lib/rjs_error.c b/src/lib/rjs_error.c
index fcaff36..6e1ef0c 100644
--- a/src/lib/rjs_error.c
+++ b/src/lib/rjs_error.c
@@ -472,7 +472,7 @@ end:
     return r;
 }
 
-#define ERROR_DESCS(name, parent)\
+#define ERROR_DESCS(name, parent, funcs)\
 static RJS_NF(name##_constructor)\
 {\
     return generic_error_constructor(rt, f, args, argc, nt, RJS_O_##name##_prototype, rv);\
@@ -489,15 +489,6 @@ name##_proto_field_descs[] = {\
     {"message", RJS_VALUE_STRING, 0, "", RJS_PROP_ATTR_WRITABLE|RJS_PROP_ATTR_CONFIGURABLE},\
     {NULL}\
 };\
-static const RJS_BuiltinFuncDesc \
-name##_proto_func_descs[] = {\
-    {\
-        "toString",\
-        0,\
-        error_toString\
-    },\
-    {NULL}\
-};\
 static const RJS_BuiltinObjectDesc \
 name##_proto_desc = {\
     #name "_prototype",\
@@ -505,7 +496,7 @@ name##_proto_desc = {\
     NULL,\
     NULL,\
     name##_proto_field_descs,\
-    name##_proto_func_descs,\
+    funcs,\
     NULL,\
     NULL,\
     #name "_prototype"\
@@ -520,6 +511,7 @@ static RJS_NF(AggregateError_constructor)
     size_t           top   = rjs_value_stack_save(rt);
     RJS_Value       *str   = rjs_value_stack_push(rt);
     RJS_Value       *cause = rjs_value_stack_push(rt);
+    RJS_Object      *o;
     RJS_PropertyDesc pd;
     RJS_Result       r;
 
@@ -528,8 +520,12 @@ static RJS_NF(AggregateError_constructor)
     if (!nt)
         nt = f;
 
-    if ((r = rjs_ordinary_create_from_constructor(rt, nt, RJS_O_AggregateError_prototype, rv)) == RJS_ERR)
+    RJS_NEW(rt, o);
+
+    if ((r = rjs_ordinary_init_from_constructor(rt, o, nt, RJS_O_AggregateError_prototype, &error_ops, rv)) == RJS_ERR) {
+        RJS_DEL(rt, o);
         goto end;
+    }
 
     if (!rjs_value_is_undefined(rt, msg)) {
         if ((r = rjs_to_string(rt, msg, str)) == RJS_ERR)
@@ -582,17 +578,6 @@ AggregateError_proto_field_descs[] = {
     {NULL}
 };
 
-/*AggregateError prototype's methods.*/
-static const RJS_BuiltinFuncDesc
-AggregateError_proto_func_descs[] = {
-    {
-        "toString",
-        0,
-        error_toString
-    },
-    {NULL}
-};
-
 /*AggregateError prototype's description.*/
 static const RJS_BuiltinObjectDesc
 AggregateError_proto_desc = {
@@ -601,21 +586,32 @@ AggregateError_proto_desc = {
     NULL,
     NULL,
     AggregateError_proto_field_descs,
-    AggregateError_proto_func_descs,
+    NULL,
     NULL,
     NULL,
     "AggregateError_prototype"
 };
 
-ERROR_DESCS(Error, NULL)
-ERROR_DESCS(EvalError, "Error_prototype")
-ERROR_DESCS(RangeError, "Error_prototype")
-ERROR_DESCS(ReferenceError, "Error_prototype")
-ERROR_DESCS(SyntaxError, "Error_prototype")
-ERROR_DESCS(TypeError, "Error_prototype")
+/*Error prototype's methods.*/
+static const RJS_BuiltinFuncDesc
+Error_proto_func_descs[] = {
+    {
+        "toString",
+        0,
+        error_toString
+    },
+    {NULL}
+};
+
+ERROR_DESCS(Error, NULL, Error_proto_func_descs)
+ERROR_DESCS(EvalError, "Error_prototype", NULL)
+ERROR_DESCS(RangeError, "Error_prototype", NULL)
+ERROR_DESCS(ReferenceError, "Error_prototype", NULL)
+ERROR_DESCS(SyntaxError, "Error_prototype", NULL)
+ERROR_DESCS(TypeError, "Error_prototype", NULL)
 
 #if ENABLE_URI
-ERROR_DESCS(URIError, "Error_prototype")
+ERROR_DESCS(URIError, "Error_prototype", NULL)
 #endif /*ENABLE_URI*/
 
 #define ERROR_OBJECT(name, parent)\
diff --git a/src/lib/rjs_global_object.c b/src/lib/rjs_global_object.c
index 6c5786b..f2e62ce 100644
--- a/src/lib/rjs_global_object.c
+++ b/src/lib/rjs_global_object.c
@@ -805,7 +805,7 @@ global_object_descs[] = {
 #if ENABLE_GENERATOR
     {
         "%GeneratorFunction%",
-        NULL,
+        "Function",
         &generator_function_constructor_desc,
         &generator_function_prototype_desc,
         NULL,
@@ -853,7 +853,7 @@ global_object_descs[] = {
 #if ENABLE_GENERATOR && ENABLE_ASYNC
     {
         "%AsyncGeneratorFunction%",
-        NULL,
+        "Function",
         &async_generator_function_constructor_desc,
         &async_generator_function_prototype_desc,
         NULL,
diff --git a/src/lib/rjs_object_object_inc.c b/src/lib/rjs_object_object_inc.c
index 123a227..bc2bfa0 100644
--- a/src/lib/rjs_object_object_inc.c
+++ b/src/lib/rjs_object_object_inc.c
@@ -97,13 +97,16 @@ object_define_properties (RJS_Runtime *rt, RJS_Value *o, RJS_Value *props)
     RJS_Value           *keys   = rjs_value_stack_push(rt);
     RJS_Value           *desco  = rjs_value_stack_push(rt);
     RJS_PropertyKeyList *pkl;
-    RJS_PropertyDesc     pd, npd;
+    RJS_PropertyDesc     pd;
+    RJS_PropertyDesc    *descs = NULL;
     RJS_PropertyName     pn;
     size_t               i;
+    size_t               num   = 0;
+    size_t               ndesc = 0;
+    RJS_Bool             has_desc;
     RJS_Result           r;
 
     rjs_property_desc_init(rt, &pd);
-    rjs_property_desc_init(rt, &npd);
 
     if ((r = rjs_to_object(rt, props, propso)) == RJS_ERR)
         goto end;
@@ -112,31 +115,61 @@ object_define_properties (RJS_Runtime *rt, RJS_Value *o, RJS_Value *props)
         goto end;
 
     pkl = rjs_value_get_gc_thing(rt, keys);
-    for (i = 0; i < pkl->keys.item_num; i ++) {
+    num = pkl->keys.item_num;
+
+    if (num)
+        RJS_NEW_N(rt, descs, num);
+
+    /*Collect all the descriptors before the object is changed.*/
+    for (i = 0; i < num; i ++) {
         RJS_Value *key = &pkl->keys.items[i];
 
+        rjs_property_desc_init(rt, &descs[i]);
+        ndesc ++;
+
+        has_desc = RJS_FALSE;
+
         rjs_property_name_init(rt, &pn, key);
 
         r = rjs_object_get_own_property(rt, propso, &pn, &pd);
-        if ((r = RJS_OK) && (pd.flags & RJS_PROP_FL_ENUMERABLE)) {
+        if ((r == RJS_OK) && (pd.flags & RJS_PROP_FL_ENUMERABLE)) {
             if ((r = rjs_get(rt, propso, &pn, desco)) == RJS_OK) {
-                r = rjs_to_property_descriptor(rt, desco, &npd);
-                if (r == RJS_OK) {
-                    r = rjs_define_property_or_throw(rt, o, &pn, &npd);
-                }
+                r = rjs_to_property_descriptor(rt, desco, &descs[i]);
+                has_desc = RJS_TRUE;
             }
         }
 
         rjs_property_name_deinit(rt, &pn);
 
+        if (r == RJS_ERR)
+            goto end;
+
+        if (!has_desc)
+            rjs_value_set_undefined(rt, key);
+    }
+
+    for (i = 0; i < num; i ++) {
+        RJS_Value *key = &pkl->keys.items[i];
+
+        if (rjs_value_is_undefined(rt, key))
+            continue;
+
+        rjs_property_name_init(rt, &pn, key);
+        r = rjs_define_property_or_throw(rt, o, &pn, &descs[i]);
+        rjs_property_name_deinit(rt, &pn);
+
         if (r == RJS_ERR)
             goto end;
     }
 
     r = RJS_OK;
 end:
+    for (i = 0; i < ndesc; i ++)
+        rjs_property_desc_deinit(rt, &descs[i]);
+    if (descs)
+        RJS_DEL_N(rt, descs, num);
+
     rjs_property_desc_deinit(rt, &pd);
-    rjs_property_desc_deinit(rt, &npd);
     rjs_value_stack_restore(rt, top);
     return r;
 }
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 5174625..df9ddd9 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -1273,8 +1273,14 @@ rjs_ordinary_has_instance (RJS_Runtime *rt, RJS_Value *c, RJS_Value *o)
     size_t     top   = rjs_value_stack_save(rt);
     RJS_Value *proto = rjs_value_stack_push(rt);
     RJS_Value *t     = rjs_value_stack_push(rt);
+    RJS_Value *p     = rjs_value_stack_push(rt);
     RJS_Result r;
 
+    if (!rjs_is_callable(rt, c)) {
+        r = RJS_FALSE;
+        goto end;
+    }
+
 #if ENABLE_BOUND_FUNC
     if (rjs_value_get_gc_thing_type(rt, c) == RJS_GC_THING_BOUND_FUNC) {
         RJS_BoundFuncObject *bfo;
@@ -1299,8 +1305,10 @@ rjs_ordinary_has_instance (RJS_Runtime *rt, RJS_Value *c, RJS_Value *o)
         goto end;
     }
 
+    rjs_value_copy(rt, p, o);
+
     while (1) {
-        if ((r = rjs_object_get_prototype_of(rt, o, t)) == RJS_ERR)
+        if ((r = rjs_object_get_prototype_of(rt, p, t)) == RJS_ERR)
             goto end;
 
         if (rjs_value_is_null(rt, t)) {
@@ -1313,7 +1321,7 @@ rjs_ordinary_has_instance (RJS_Runtime *rt, RJS_Value *c, RJS_Value *o)
             goto end;
         }
 
-        rjs_value_copy(rt, o, t);
+        rjs_value_copy(rt, p, t);
     }
 end:
     rjs_value_stack_restore(rt, top);
-- 
2.43.0


From 82f87accd68457ac8042f1278a504b0e3032e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 67/94] fix: keep AST lists consistent when their nodes are
 moved to another list

---
 src/lib/rjs_parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 07cec18..63744fe 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -3279,6 +3279,7 @@ args_to_params (RJS_Runtime *rt, RJS_Location *loc, RJS_List *al, RJS_AstType ty
                 break;
             case RJS_AST_Elision:
             case RJS_AST_Rest:
+                rjs_list_remove(&ast->ln);
                 rjs_list_append(&pl->param_list, &ast->ln);
                 break;
             case RJS_AST_SpreadExpr: {
@@ -9013,6 +9014,7 @@ parse_import_decl (RJS_Runtime *rt)
     }
 
     rjs_list_join(&parser->import_list, &elist->list);
+    rjs_list_init(&elist->list);
 
     if ((r = auto_semicolon(rt)) == RJS_ERR)
         goto end;
@@ -9478,6 +9480,7 @@ parse_export_decl (RJS_Runtime *rt, RJS_Value *vs)
         }
 
         /*Add the entry to the list.*/
+        rjs_list_remove(&ee->ast.ln);
         if (!ee->module) {
             rjs_list_append(&parser->local_export_list, &ee->ast.ln);
             parser->local_export_num ++;
-- 
2.43.0


From d14e7fba2f4afafe639756617eb8a0d5cf3c8637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:24 +0000
Subject: [PATCH 68/94] fix: complete module loading, linking and async
 evaluation

---
 src/lib/rjs_module_opt.c | 129 +++++++++++++++------------------------
 src/lib/rjs_parser.c     |  19 +++++-
 2 files changed, 66 insertions(+), 82 deletions(-)

diff --git a/src/lib/rjs_module_opt.c b/src/lib/rjs_module_opt.c
index 76598c0..0b40a65 100644
--- a/src/lib/rjs_module_opt.c
+++ b/src/lib/rjs_module_opt.c
@@ -431,6 +431,7 @@ end:
 typedef struct {
     int       ref;      /**< Reference counter.*/
     int       wait_cnt; /**< Waiting module's counter.*/
+    RJS_Bool  failed;   /**< A module cannot be loaded.*/
     RJS_Hash  mod_hash; /**< Module hash table.*/
     RJS_List  mod_list; /**< The module list.*/
     RJS_PromiseCapability pc; /**< Promise capability.*/
@@ -480,59 +481,16 @@ static RJS_Result
 module_load_req_result (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd)
 {
     if (mlrd->wait_cnt == 0) {
-        RJS_Bool failed = RJS_FALSE;
+        RJS_Module *m, *nm;
 
-        while (!rjs_list_is_empty(&mlrd->mod_list)) {
-            RJS_Module *m, *nm;
-            RJS_Bool action = RJS_FALSE;
-
-            rjs_list_foreach_safe_c(&mlrd->mod_list, m, nm, RJS_Module, ln) {
-                RJS_Bool mod_failed  = RJS_FALSE;
-                RJS_Bool mod_not_end = RJS_FALSE;
-                size_t   i;
-
-                for (i = 0; i < m->module_request_num; i ++) {
-                    RJS_ModuleRequest *mr = &m->module_requests[i];
-
-                    if (rjs_value_is_undefined(rt, &mr->module)) {
-                        mod_failed = RJS_TRUE;
-                    } else {
-                        RJS_Module *rm = rjs_value_get_gc_thing(rt, &mr->module);
-
-                        if (rm->status == RJS_MODULE_STATUS_LOADING_FAILED)
-                            mod_failed = RJS_TRUE;
-                        else if (rm->status == RJS_MODULE_STATUS_LOADING_REQUESTED)
-                            mod_not_end = RJS_TRUE;
-                    }
-
-                    if (mod_failed)
-                        break;
-                }
-
-                if (mod_failed) {
-                    m->status = RJS_MODULE_STATUS_LOADING_FAILED;
-                    failed = RJS_TRUE;
-                    mod_not_end = RJS_FALSE;
-                }
-
-                if (!mod_not_end) {
-                    m->status = RJS_MODULE_STATUS_UNLINKED;
-                    rjs_value_set_undefined(rt, m->top_level_capability.promise);
-                    rjs_list_remove(&m->ln);
-                    action = RJS_TRUE;
-                }
-            }
-
-            if (!action) {
-                rjs_list_foreach_safe_c(&mlrd->mod_list, m, nm, RJS_Module, ln) {
-                    m->status = RJS_MODULE_STATUS_UNLINKED;
-                    rjs_value_set_undefined(rt, m->top_level_capability.promise);
-                    rjs_list_remove(&m->ln);
-                }
-            }
+        /*If something failed, the next request starts to load the modules again.*/
+        rjs_list_foreach_safe_c(&mlrd->mod_list, m, nm, RJS_Module, ln) {
+            m->status = mlrd->failed ? RJS_MODULE_STATUS_LOADED : RJS_MODULE_STATUS_UNLINKED;
+            rjs_value_set_undefined(rt, m->top_level_capability.promise);
+            rjs_list_remove(&m->ln);
         }
 
-        if (failed) {
+        if (mlrd->failed) {
             rjs_call(rt, mlrd->pc.reject, rjs_v_undefined(rt), &mlrd->error, 1, NULL);
         } else {
             rjs_call(rt, mlrd->pc.resolve, rjs_v_undefined(rt), NULL, 0, NULL);
@@ -542,6 +500,16 @@ module_load_req_result (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd)
     return RJS_OK;
 }
 
+/*Record the first error of the modules loading.*/
+static void
+module_load_req_failed (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS_Value *err)
+{
+    if (!mlrd->failed) {
+        mlrd->failed = RJS_TRUE;
+        rjs_value_copy(rt, &mlrd->error, err);
+    }
+}
+
 /*Add a module to the load requested data's hash table.*/
 static RJS_Result
 module_load_req_data_add (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS_Value *modv);
@@ -553,6 +521,7 @@ module_load_req_modules (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS
     RJS_Module *mod    = rjs_value_get_gc_thing(rt, modv);
     size_t      top    = rjs_value_stack_save(rt);
     RJS_Value  *p      = rjs_value_stack_push(rt);
+    RJS_Value  *err    = rjs_value_stack_push(rt);
     RJS_Script *script = &mod->script;
     size_t      i;
     RJS_Result  r;
@@ -563,15 +532,20 @@ module_load_req_modules (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS
 
         if (rjs_value_is_undefined(rt, &mr->module)) {
             if ((r = lookup_module(rt, modv, name, p, &mr->module, RJS_FALSE)) == RJS_ERR) {
-                rjs_catch(rt, &mlrd->error);
+                rjs_catch(rt, err);
+                module_load_req_failed(rt, mlrd, err);
                 goto end;
             }
         }
 
         if ((r = module_load_req_data_add(rt, mlrd, &mr->module)) == RJS_ERR) {
-            rjs_catch(rt, &mlrd->error);
+            rjs_catch(rt, err);
+            module_load_req_failed(rt, mlrd, err);
             goto end;
         }
+
+        if (mlrd->failed)
+            goto end;
     }
 end:
     rjs_value_stack_restore(rt, top);
@@ -587,8 +561,9 @@ static RJS_NF(module_load_ok)
 
     mlrd->wait_cnt --;
 
-    if (mod->status == RJS_MODULE_STATUS_LOADED) {
+    if ((mod->status == RJS_MODULE_STATUS_LOADED) && !mlrd->failed) {
         mod->status = RJS_MODULE_STATUS_LOADING_REQUESTED;
+        rjs_list_append(&mlrd->mod_list, &mod->ln);
         module_load_req_modules(rt, mlrd, modv);
     }
 
@@ -602,7 +577,7 @@ static RJS_NF(module_load_error)
     RJS_Value                   *err  = rjs_argument_get(rt, args, argc, 0);
 
     mlrd->wait_cnt --;
-    rjs_value_copy(rt, &mlrd->error, err);
+    module_load_req_failed(rt, mlrd, err);
 
     return module_load_req_result(rt, mlrd);
 }
@@ -640,12 +615,12 @@ module_load_req_data_add (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJ
         break;
     case RJS_MODULE_STATUS_LOADED:
         mod->status = RJS_MODULE_STATUS_LOADING_REQUESTED;
+        rjs_list_append(&mlrd->mod_list, &mod->ln);
     case RJS_MODULE_STATUS_LOADING_REQUESTED:
         module_load_req_modules(rt, mlrd, modv);
-        rjs_list_append(&mlrd->mod_list, &mod->ln);
         break;
     case RJS_MODULE_STATUS_LOADING_FAILED:
-        rjs_value_copy(rt, &mlrd->error, &mod->eval_error);
+        module_load_req_failed(rt, mlrd, &mod->eval_error);
         break;
     default:
         break;
@@ -667,6 +642,7 @@ module_load_req_data_new (RJS_Runtime *rt, RJS_Value *modv, RJS_PromiseCapabilit
 
     mlrd->ref      = 1;
     mlrd->wait_cnt = 0;
+    mlrd->failed   = RJS_FALSE;
 
     rjs_value_set_undefined(rt, &mlrd->promise);
     rjs_value_set_undefined(rt, &mlrd->resolve);
@@ -710,7 +686,7 @@ rjs_module_load_requested (RJS_Runtime *rt, RJS_Value *modv, RJS_Value *promise)
 
     mod = rjs_value_get_gc_thing(rt, modv);
 
-    assert(mod->status == RJS_MODULE_STATUS_LOADED);
+    assert(mod->status != RJS_MODULE_STATUS_ALLOCATED);
 
     rjs_new_promise_capability(rt, rjs_o_Promise(realm), &pc);
 
@@ -977,9 +953,6 @@ gather_available_ancestors (RJS_Runtime *rt, RJS_Module *mod, RJS_ModuleVector *
         if (r)
             continue;
 
-        RJS_NEW(rt, e);
-        rjs_hash_insert(hash, pmod, e, pe, &rjs_hash_size_ops, rt);
-
         assert(pmod->status == RJS_MODULE_STATUS_EVALUATING_ASYNC);
         assert(pmod->eval_result != RJS_ERR);
         assert(pmod->async_eval);
@@ -988,6 +961,9 @@ gather_available_ancestors (RJS_Runtime *rt, RJS_Module *mod, RJS_ModuleVector *
         pmod->pending_async --;
 
         if (pmod->pending_async == 0) {
+            RJS_NEW(rt, e);
+            rjs_hash_insert(hash, pmod, e, pe, &rjs_hash_size_ops, rt);
+
             rjs_vector_append(vec, pmod, rt);
 
             if (!module_has_tla(rt, pmod))
@@ -1010,10 +986,8 @@ execute_valid_modules (RJS_Runtime *rt, RJS_Value *modv)
     size_t            top   = rjs_value_stack_save(rt);
     RJS_Value        *err   = rjs_value_stack_push(rt);
     RJS_Value        *pmodv = rjs_value_stack_push(rt);
-    RJS_List          mod_list;
 
     rjs_vector_init(&mod_vec);
-    rjs_list_init(&mod_list);
 
     mod = rjs_value_get_gc_thing(rt, modv);
 
@@ -1046,24 +1020,18 @@ execute_valid_modules (RJS_Runtime *rt, RJS_Value *modv)
                 rjs_catch(rt, err);
                 async_module_execution_rejected(rt, pmodv, err);
             } else {
-                pmod->status = RJS_MODULE_STATUS_EVALUATED;
+                pmod->async_eval = 0;
+                pmod->status     = RJS_MODULE_STATUS_EVALUATED;
 
                 if (!rjs_value_is_undefined(rt, pmod->top_level_capability.promise)) {
                     assert(same_module(rt, &pmod->cycle_root, pmodv));
 
                     rjs_call(rt, pmod->top_level_capability.resolve, rjs_v_undefined(rt), NULL, 0, NULL);
                 }
-
-                rjs_list_append(&mod_list, &pmod->ln);
             }
         }
     }
 
-    rjs_list_foreach_c(&mod_list, mod, RJS_Module, ln) {
-        rjs_value_set_gc_thing(rt, pmodv, mod);
-        execute_valid_modules(rt, pmodv);
-    }
-
     rjs_vector_deinit(&mod_vec, rt);
     rjs_value_stack_restore(rt, top);
 }
@@ -1128,6 +1096,7 @@ async_module_execution_rejected (RJS_Runtime *rt, RJS_Value *modv, RJS_Value *er
     assert(mod->status == RJS_MODULE_STATUS_EVALUATING_ASYNC);
 
     mod->status      = RJS_MODULE_STATUS_EVALUATED;
+    mod->async_eval  = 0;
     mod->eval_result = RJS_ERR;
     rjs_value_copy(rt, &mod->eval_error, err);
 
@@ -1580,7 +1549,7 @@ load_json_module (RJS_Runtime *rt, RJS_Value *mod, RJS_Input *input, const char
         rjs_hash_insert(&m->export_hash, key, &ee->he, NULL, &rjs_hash_size_ops, rt);
 
         /*Create the module environment.*/
-        rjs_module_link(rt, mod);
+        rjs_module_env_new(rt, &m->env, rjs_global_env(s->realm));
 
         /*Store JSON as *default* binding.*/
         rjs_binding_name_init(rt, &bn, rjs_s_star_default_star(rt));
@@ -1588,6 +1557,9 @@ load_json_module (RJS_Runtime *rt, RJS_Value *mod, RJS_Input *input, const char
         rjs_env_initialize_binding(rt, m->env, &bn, json);
 
         rjs_binding_name_deinit(rt, &bn);
+
+        /*Nothing is left to be loaded or linked.*/
+        m->status = RJS_MODULE_STATUS_LINKED;
     }
 
     rjs_value_stack_restore(rt, top);
@@ -1694,7 +1666,8 @@ load_module (RJS_Runtime *rt, RJS_ModuleType type, RJS_Input *input, const char
         }
     } else {
         m = rjs_value_get_gc_thing(rt, mod);
-        m->status = RJS_MODULE_STATUS_LOADED;
+        if (m->status == RJS_MODULE_STATUS_ALLOCATED)
+            m->status = RJS_MODULE_STATUS_LOADED;
     }
 
     return r;
@@ -1753,12 +1726,7 @@ lookup_module (RJS_Runtime *rt, RJS_Value *script, RJS_Value *name, RJS_Value *p
     }
 
     if (modp->status == RJS_MODULE_STATUS_LOADING_FAILED) {
-        if (dynamic)
-            rjs_throw_type_error(rt, _("cannot resolve the module \"%s\""), nstr);
-        else
-            rjs_throw_reference_error(rt, _("cannot resolve the module \"%s\""), nstr);
-
-        rjs_catch(rt, err);
+        rjs_value_copy(rt, err, &modp->eval_error);
         r = rjs_call(rt, pc.reject, rjs_v_undefined(rt), err, 1, NULL);
         goto end;
     } else if (modp->status != RJS_MODULE_STATUS_ALLOCATED) {
@@ -1930,6 +1898,9 @@ resolve_export (RJS_Runtime *rt, RJS_Value *mod, RJS_Value *name, ResolveBinding
         if ((r = resolve_export(rt, &mr->module, name, rb_set, &star_rb)) == RJS_ERR)
             goto end;
 
+        if (r == RJS_AMBIGUOUS)
+            goto end;
+
         if (r) {
             if (resolved) {
                 if (!same_module(rt, star_rb.module, rb->module)
@@ -2348,7 +2319,7 @@ rjs_module_import_meta (RJS_Runtime *rt, RJS_Value *modv, RJS_Value *v)
     mod = rjs_value_get_gc_thing(rt, modv);
 
     if (rjs_value_is_undefined(rt, &mod->import_meta)) {
-        rjs_ordinary_object_create(rt, NULL, &mod->import_meta);
+        rjs_ordinary_object_create(rt, rjs_v_null(rt), &mod->import_meta);
     }
 
     rjs_value_copy(rt, v, &mod->import_meta);
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 63744fe..a3befb5 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -9841,7 +9841,7 @@ parse_module (RJS_Runtime *rt, const char *id, RJS_Realm *realm, RJS_Value *rv)
 {
     RJS_AstFunc   *func;
     RJS_Result     r;
-    RJS_AstExport *ee;
+    RJS_AstExport *ee, *nee;
     RJS_AstImport *ie;
     RJS_Hash       import_hash;
     RJS_Parser    *parser    = rt->parser;
@@ -9910,7 +9910,7 @@ parse_module (RJS_Runtime *rt, const char *id, RJS_Realm *realm, RJS_Value *rv)
     hash_deinit(rt, &import_hash);
 
     /*Check if the local export names is defined.*/
-    rjs_list_foreach_c(&parser->local_export_list, ee, RJS_AstExport, ast.ln) {
+    rjs_list_foreach_safe_c(&parser->local_export_list, ee, nee, RJS_AstExport, ast.ln) {
         RJS_HashEntry *he;
         RJS_Value     *name = &ee->local_name->value;
 
@@ -9926,8 +9926,21 @@ parse_module (RJS_Runtime *rt, const char *id, RJS_Realm *realm, RJS_Value *rv)
 
             /*Is defined as import local name.*/
             rjs_list_foreach_c(&parser->import_list, ie, RJS_AstImport, ast.ln) {
-                if (rjs_string_equal(rt, name, &ie->local_name->value)) {
+                if (ie->local_name && rjs_string_equal(rt, name, &ie->local_name->value)) {
                     found = RJS_TRUE;
+
+                    /*An imported binding is exported as an indirect entry.*/
+                    if (ie->import_name) {
+                        ee->module      = ie->module;
+                        ee->import_name = ie->import_name;
+                        ee->local_name  = NULL;
+
+                        rjs_list_remove(&ee->ast.ln);
+                        rjs_list_append(&parser->indir_export_list, &ee->ast.ln);
+
+                        parser->local_export_num --;
+                        parser->indir_export_num ++;
+                    }
                     break;
                 }
             }
-- 
2.43.0


From 01af645e334733c4ce46077b7ace2d663c6c1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:35 +0000
Subject: [PATCH 69/94] fix: run each job once when jobs are solved inside a
 job

---
 src/lib/include/rjs_runtime.h |  1 +
 src/lib/rjs_job.c             | 39 ++++++++++++++++++++++++-----------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/lib/include/rjs_runtime.h b/src/lib/include/rjs_runtime.h
index 2bbae00..6edc43f 100644
--- a/src/lib/include/rjs_runtime.h
+++ b/src/lib/include/rjs_runtime.h
@@ -62,6 +62,7 @@ struct RJS_Runtime_s {
     RJS_Parser      *parser;               /**< The parser.*/
     RJS_Environment *env;                  /**< The environment.*/
     RJS_List         job_list;             /**< Job list.*/
+    RJS_List         running_job_list;     /**< Running jobs' list.*/
     RJS_ModuleLookupFunc mod_lookup_func;  /**< Module lookup function.*/
     RJS_ModuleLoadFunc   mod_load_func;    /**< Module load function.*/
     RJS_NativeData   native_data;          /**< Native data of the runtime.*/
diff --git a/src/lib/rjs_job.c b/src/lib/rjs_job.c
index a23bf94..97718a8 100644
--- a/src/lib/rjs_job.c
+++ b/src/lib/rjs_job.c
@@ -35,6 +35,17 @@ job_free (RJS_Runtime *rt, RJS_Job *job)
     RJS_DEL(rt, job);
 }
 
+/*Scan the reference things in the job.*/
+static void
+job_scan (RJS_Runtime *rt, RJS_Job *job)
+{
+    if (job->realm)
+        rjs_gc_mark(rt, job->realm);
+
+    if (job->scan)
+        job->scan(rt, job->data);
+}
+
 /**
  * Enqueue a new job.
  * \param rt The current runtime.
@@ -74,20 +85,23 @@ rjs_job_enqueue (RJS_Runtime *rt, RJS_JobFunc func, RJS_Realm *realm,
 void
 rjs_solve_jobs (RJS_Runtime *rt)
 {
-    RJS_Job   *j, *nj;
+    RJS_Job   *j;
     RJS_Realm *old_realm = rt->rb.bot_realm;
 
     while (!rjs_list_is_empty(&rt->job_list)) {
-        rjs_list_foreach_safe_c(&rt->job_list, j, nj, RJS_Job, ln) {
+        /*The job function may solve jobs too, so remove the job before running it.*/
+        j = RJS_CONTAINER_OF(rt->job_list.next, RJS_Job, ln);
 
-            rt->rb.bot_realm = j->realm;
-            
-            j->func(rt, j->data);
+        rjs_list_remove(&j->ln);
+        rjs_list_append(&rt->running_job_list, &j->ln);
 
-            rjs_list_remove(&j->ln);
+        rt->rb.bot_realm = j->realm;
 
-            job_free(rt, j);
-        }
+        j->func(rt, j->data);
+
+        rjs_list_remove(&j->ln);
+
+        job_free(rt, j);
     }
 
     rt->rb.bot_realm = old_realm;
@@ -101,6 +115,7 @@ void
 rjs_runtime_job_init (RJS_Runtime *rt)
 {
     rjs_list_init(&rt->job_list);
+    rjs_list_init(&rt->running_job_list);
 }
 
 /**
@@ -127,10 +142,10 @@ rjs_gc_scan_job (RJS_Runtime *rt)
     RJS_Job *j;
 
     rjs_list_foreach_c(&rt->job_list, j, RJS_Job, ln) {
-        if (j->realm)
-            rjs_gc_mark(rt, j->realm);
+        job_scan(rt, j);
+    }
 
-        if (j->scan)
-            j->scan(rt, j->data);
+    rjs_list_foreach_c(&rt->running_job_list, j, RJS_Job, ln) {
+        job_scan(rt, j);
     }
 }
-- 
2.43.0


From 2df42a1e4a5901e6244b36edc93126976c84d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:50 +0000
Subject: [PATCH 70/94] fix: keep the targets of weak references alive until
 the job ends

---
 src/lib/include/rjs_runtime.h     |  2 ++
 src/lib/include/rjs_weak_ref.h    | 22 ++++++++++++++++
 src/lib/rjs_gc.c                  |  5 ++++
 src/lib/rjs_job.c                 | 11 ++++++++
 src/lib/rjs_weak_ref_object_inc.c | 12 +++++++++
 src/lib/rjs_weak_ref_opt.c        | 42 +++++++++++++++++++++++++++++++
 6 files changed, 94 insertions(+)

diff --git a/src/lib/include/rjs_runtime.h b/src/lib/include/rjs_runtime.h
index 6edc43f..891421f 100644
--- a/src/lib/include/rjs_runtime.h
+++ b/src/lib/include/rjs_runtime.h
@@ -79,6 +79,8 @@ struct RJS_Runtime_s {
 #endif /*ENABLE_MODULE*/
 #if ENABLE_WEAK_REF
     RJS_List         weak_ref_list;        /**< Weak references' list.*/
+    RJS_VECTOR_DECL(RJS_Value) kept_objects; /**< The objects kept alive until the current job is end.*/
+    uint64_t         kept_epoch;           /**< Increased when the kept objects are cleared.*/
 #endif /*ENABLE_WEAK_REF*/
 #if ENABLE_FINALIZATION_REGISTRY
     RJS_List         final_cb_list;        /**< Finalization callback list.*/
diff --git a/src/lib/include/rjs_weak_ref.h b/src/lib/include/rjs_weak_ref.h
index 1e55019..0c3665a 100644
--- a/src/lib/include/rjs_weak_ref.h
+++ b/src/lib/include/rjs_weak_ref.h
@@ -43,6 +43,28 @@ struct RJS_WeakRef_s {
     RJS_WeakRefOnFinalFunc on_final; /**< On final function.*/
 };
 
+/**
+ * Keep the value alive until the current job is end.
+ * \param rt The current runtime.
+ * \param v The value to be kept alive.
+ */
+RJS_INTERNAL void
+rjs_add_to_kept_objects (RJS_Runtime *rt, RJS_Value *v);
+
+/**
+ * Clear the values kept alive by the current job.
+ * \param rt The current runtime.
+ */
+RJS_INTERNAL void
+rjs_clear_kept_objects (RJS_Runtime *rt);
+
+/**
+ * Scan the values kept alive by the current job.
+ * \param rt The current runtime.
+ */
+RJS_INTERNAL void
+rjs_gc_scan_kept_objects (RJS_Runtime *rt);
+
 /**
  * Solve the weak references in the rt.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_gc.c b/src/lib/rjs_gc.c
index bf61cb4..1e260ce 100644
--- a/src/lib/rjs_gc.c
+++ b/src/lib/rjs_gc.c
@@ -81,6 +81,11 @@ gc_scan_root (RJS_Runtime *rt)
     /*Job queue.*/
     rjs_gc_scan_job(rt);
 
+#if ENABLE_WEAK_REF
+    /*The objects kept alive by the current job.*/
+    rjs_gc_scan_kept_objects(rt);
+#endif /*ENABLE_WEAK_REF*/
+
     /*Symbol registry.*/
     rjs_gc_scan_symbol_registry(rt);
 
diff --git a/src/lib/rjs_job.c b/src/lib/rjs_job.c
index 97718a8..3323bbe 100644
--- a/src/lib/rjs_job.c
+++ b/src/lib/rjs_job.c
@@ -87,6 +87,12 @@ rjs_solve_jobs (RJS_Runtime *rt)
 {
     RJS_Job   *j;
     RJS_Realm *old_realm = rt->rb.bot_realm;
+#if ENABLE_WEAK_REF
+    RJS_Bool   top       = !rt->rb.ctxt_stack && rjs_list_is_empty(&rt->running_job_list);
+
+    if (top)
+        rjs_clear_kept_objects(rt);
+#endif /*ENABLE_WEAK_REF*/
 
     while (!rjs_list_is_empty(&rt->job_list)) {
         /*The job function may solve jobs too, so remove the job before running it.*/
@@ -102,6 +108,11 @@ rjs_solve_jobs (RJS_Runtime *rt)
         rjs_list_remove(&j->ln);
 
         job_free(rt, j);
+
+#if ENABLE_WEAK_REF
+        if (top)
+            rjs_clear_kept_objects(rt);
+#endif /*ENABLE_WEAK_REF*/
     }
 
     rt->rb.bot_realm = old_realm;
diff --git a/src/lib/rjs_weak_ref_object_inc.c b/src/lib/rjs_weak_ref_object_inc.c
index 7aba0e6..c6014a9 100644
--- a/src/lib/rjs_weak_ref_object_inc.c
+++ b/src/lib/rjs_weak_ref_object_inc.c
@@ -30,6 +30,7 @@ typedef struct {
     RJS_Object   object;   /**< Base object.*/
     RJS_WeakRef *weak_ref; /**< The weak reference.*/
     RJS_Value    target;   /**< The target object.*/
+    uint64_t     epoch;    /**< The epoch when the target was kept alive.*/
 } RJS_WeakRefObject;
 
 /*Scan the reference things in the weak reference object.*/
@@ -47,6 +48,8 @@ weak_ref_op_gc_free (RJS_Runtime *rt, void *ptr)
 {
     RJS_WeakRefObject *wro = ptr;
 
+    rjs_object_deinit(rt, &wro->object);
+
     RJS_DEL(rt, wro);
 }
 
@@ -97,6 +100,9 @@ static RJS_NF(WeakRef_constructor)
     }
 
     wro->weak_ref = rjs_weak_ref_add(rt, rv, target, weak_ref_on_final);
+    wro->epoch    = rt->kept_epoch;
+
+    rjs_add_to_kept_objects(rt, target);
     return RJS_OK;
 }
 
@@ -132,6 +138,12 @@ static RJS_NF(WeakRef_prototype_deref)
 
     wro = (RJS_WeakRefObject*)rjs_value_get_object(rt, thiz);
 
+    /*The target must be alive until the current job is end.*/
+    if (wro->weak_ref && (wro->epoch != rt->kept_epoch)) {
+        wro->epoch = rt->kept_epoch;
+        rjs_add_to_kept_objects(rt, &wro->target);
+    }
+
     rjs_value_copy(rt, rv, &wro->target);
 
     r = RJS_OK;
diff --git a/src/lib/rjs_weak_ref_opt.c b/src/lib/rjs_weak_ref_opt.c
index 5437b46..eaf70d0 100644
--- a/src/lib/rjs_weak_ref_opt.c
+++ b/src/lib/rjs_weak_ref_opt.c
@@ -95,6 +95,43 @@ rjs_solve_weak_refs (RJS_Runtime *rt)
     }
 }
 
+/**
+ * Keep the value alive until the current job is end.
+ * \param rt The current runtime.
+ * \param v The value to be kept alive.
+ */
+void
+rjs_add_to_kept_objects (RJS_Runtime *rt, RJS_Value *v)
+{
+    RJS_Value tmp;
+
+    rjs_value_copy(rt, &tmp, v);
+    rjs_vector_append(&rt->kept_objects, tmp, rt);
+}
+
+/**
+ * Clear the values kept alive by the current job.
+ * \param rt The current runtime.
+ */
+void
+rjs_clear_kept_objects (RJS_Runtime *rt)
+{
+    rjs_vector_deinit(&rt->kept_objects, rt);
+    rjs_vector_init(&rt->kept_objects);
+
+    rt->kept_epoch ++;
+}
+
+/**
+ * Scan the values kept alive by the current job.
+ * \param rt The current runtime.
+ */
+void
+rjs_gc_scan_kept_objects (RJS_Runtime *rt)
+{
+    rjs_gc_scan_value_buffer(rt, rt->kept_objects.items, rt->kept_objects.item_num);
+}
+
 /**
  * Initialize the weak reference data in the rt.
  * \param rt The current runtime.
@@ -103,6 +140,9 @@ void
 rjs_runtime_weak_ref_init (RJS_Runtime *rt)
 {
     rjs_list_init(&rt->weak_ref_list);
+    rjs_vector_init(&rt->kept_objects);
+
+    rt->kept_epoch = 0;
 }
 
 /**
@@ -117,4 +157,6 @@ rjs_runtime_weak_ref_deinit (RJS_Runtime *rt)
     rjs_list_foreach_safe_c(&rt->weak_ref_list, r, nr, RJS_WeakRef, ln) {
         RJS_DEL(rt, r);
     }
+
+    rjs_vector_deinit(&rt->kept_objects, rt);
 }
-- 
2.43.0


From 1d9d5ef3b44357838b8269ba9ef0461e84691028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:15 +0000
Subject: [PATCH 71/94] fix: use the right realm for created prototypes, global
 objects and async promises

---
 src/lib/rjs_async_function_opt.c  |  2 +-
 src/lib/rjs_builtin_func_object.c | 19 ++++++++++++++++---
 src/lib/rjs_realm.c               |  2 +-
 src/lib/rjs_regexp.c              |  7 ++++++-
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_async_function_opt.c b/src/lib/rjs_async_function_opt.c
index 3f2d6fc..9638a02 100644
--- a/src/lib/rjs_async_function_opt.c
+++ b/src/lib/rjs_async_function_opt.c
@@ -34,7 +34,7 @@ async_function_op_call (RJS_Runtime *rt, RJS_Value *o, RJS_Value *thiz, RJS_Valu
     RJS_Value             *thisp;
     RJS_Value             *argsp;
     RJS_Value             *rvp;
-    RJS_Realm             *realm = rjs_realm_current(rt);
+    RJS_Realm             *realm = ((RJS_ScriptFuncObject*)rjs_value_get_object(rt, o))->realm;
     size_t                 top   = rjs_value_stack_save(rt);
 
     rjs_promise_capability_init(rt, &pc);
diff --git a/src/lib/rjs_builtin_func_object.c b/src/lib/rjs_builtin_func_object.c
index b50753d..fe052f2 100644
--- a/src/lib/rjs_builtin_func_object.c
+++ b/src/lib/rjs_builtin_func_object.c
@@ -362,6 +362,19 @@ get_prop_name (RJS_Runtime *rt, const char *name, RJS_Value *v)
 
 #include <rjs_object_table_inc.c>
 
+/*Create the prototype object of a primitive type's constructor in the realm.*/
+static void
+create_primitive_prototype (RJS_Runtime *rt, RJS_Realm *realm, RJS_Value *prim, RJS_Value *o)
+{
+    RJS_Object *po;
+
+    rjs_primitive_object_new(rt, o, NULL, RJS_O_Object_prototype, prim);
+
+    /*The current realm may be another realm.*/
+    po = rjs_value_get_object(rt, o);
+    rjs_value_copy(rt, &po->prototype, rjs_o_Object_prototype(realm));
+}
+
 static RJS_Value*
 get_internal_object_pointer (RJS_Realm *realm, const char *name)
 {
@@ -437,12 +450,12 @@ object_desc_load (RJS_Runtime *rt, RJS_Realm *realm, RJS_Value *o, RJS_Value *na
         rjs_value_copy(rt, o, rjs_o_Function_prototype(realm));
     } else if (bod->native && !strcmp(bod->native, "Boolean_prototype")) {
         rjs_value_set_boolean(rt, tmp, RJS_FALSE);
-        rjs_primitive_object_new(rt, o, NULL, RJS_O_Object_prototype, tmp);
+        create_primitive_prototype(rt, realm, tmp, o);
     } else if (bod->native && !strcmp(bod->native, "Number_prototype")) {
         rjs_value_set_number(rt, tmp, 0);
-        rjs_primitive_object_new(rt, o, NULL, RJS_O_Object_prototype, tmp);
+        create_primitive_prototype(rt, realm, tmp, o);
     } else if (bod->native && !strcmp(bod->native, "String_prototype")) {
-        rjs_primitive_object_new(rt, o, NULL, RJS_O_Object_prototype, rjs_s_empty(rt));
+        create_primitive_prototype(rt, realm, rjs_s_empty(rt), o);
     } else if (bod->native && !strcmp(bod->native, "Array_prototype")) {
         rjs_array_new(rt, o, 0, rjs_o_Object_prototype(realm));
     } else {
diff --git a/src/lib/rjs_realm.c b/src/lib/rjs_realm.c
index 5ec713e..6aaef8f 100644
--- a/src/lib/rjs_realm.c
+++ b/src/lib/rjs_realm.c
@@ -91,7 +91,7 @@ rjs_realm_new (RJS_Runtime *rt, RJS_Value *v)
     rjs_ordinary_object_create(rt, rjs_v_null(rt), rjs_o_Object_prototype(realm));
     rjs_create_builtin_function(rt, NULL, function_prototype_func, 0, rjs_s_empty(rt), realm,
             rjs_o_Object_prototype(realm), NULL, rjs_o_Function_prototype(realm));
-    rjs_ordinary_object_create(rt, NULL, &realm->rb.global_object);
+    rjs_ordinary_object_create(rt, rjs_o_Object_prototype(realm), &realm->rb.global_object);
 
     /*Create global environment.*/
     rjs_global_env_new(rt, &realm->rb.global_env, &realm->rb.global_object, &realm->rb.global_object);
diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 7d2d564..28bc550 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -1640,13 +1640,18 @@ rjs_regexp_alloc (RJS_Runtime *rt, RJS_Value *nt, RJS_Value *rv)
     RJS_RegExp       *re;
     RJS_RegExpModel  *rem;
     RJS_PropertyDesc  pd;
+    RJS_Result        r;
 
     RJS_NEW(rt, re);
 
     re->model = NULL;
 
     /*Initialize the object.*/
-    rjs_ordinary_init_from_constructor(rt, &re->object, nt, RJS_O_RegExp_prototype, &regexp_ops, rv);
+    if ((r = rjs_ordinary_init_from_constructor(rt, &re->object, nt, RJS_O_RegExp_prototype,
+            &regexp_ops, rv)) == RJS_ERR) {
+        RJS_DEL(rt, re);
+        return r;
+    }
 
     /*Allocate the model.*/
     RJS_NEW(rt, rem);
-- 
2.43.0


From 1a6785f1fef6bcf4a888b0a6cbf79cca1764f91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:29 +0000
Subject: [PATCH 72/94] fix: normalize the matched index string while it is
 rooted

---
 src/lib/rjs_regexp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 28bc550..abc1d9c 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -2957,6 +2957,8 @@ rjs_regexp_builtin_exec (RJS_Runtime *rt, RJS_Value *v, RJS_Value *str, RJS_Valu
     assert(rjs_value_get_gc_thing_type(rt, v) == RJS_GC_THING_REGEXP);
     assert(rjs_value_is_string(rt, str));
 
+    /*Normalize an index string while it is rooted.*/
+    rjs_value_get_string(rt, str);
     rjs_value_copy(rt, &ctxt.str, str);
     ctxt.len   = rjs_string_get_length(rt, str);
     ctxt.re    = re;
-- 
2.43.0


From 07989e43d2dd1e1245b56e15dde579eaf59b7a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:29 +0000
Subject: [PATCH 73/94] fix: keep the module loading data alive while modules
 are loading

---
 src/lib/rjs_module_opt.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lib/rjs_module_opt.c b/src/lib/rjs_module_opt.c
index 0b40a65..a27fc15 100644
--- a/src/lib/rjs_module_opt.c
+++ b/src/lib/rjs_module_opt.c
@@ -634,8 +634,9 @@ end:
 
 /*Allocate a new module load requested modules data.*/
 static RJS_ModuleLoadRequestedData*
-module_load_req_data_new (RJS_Runtime *rt, RJS_Value *modv, RJS_PromiseCapability *pc)
+module_load_req_data_new (RJS_Runtime *rt, RJS_Value *modv, RJS_PromiseCapability *pc, RJS_Value *holder)
 {
+    RJS_Realm *realm = rjs_realm_current(rt);
     RJS_ModuleLoadRequestedData *mlrd;
 
     RJS_NEW(rt, mlrd);
@@ -657,6 +658,11 @@ module_load_req_data_new (RJS_Runtime *rt, RJS_Value *modv, RJS_PromiseCapabilit
     rjs_promise_capability_init_vp(rt, &mlrd->pc, &mlrd->promise, &mlrd->resolve, &mlrd->reject);
     rjs_promise_capability_copy(rt, &mlrd->pc, pc);
 
+    /*The holder keeps the values in the data alive while the modules are loading.*/
+    mlrd->ref ++;
+    rjs_native_func_object_new(rt, holder, realm, NULL, NULL, module_load_error, 0);
+    rjs_native_object_set_data(rt, holder, NULL, mlrd, module_load_req_data_scan, module_load_req_data_free);
+
     module_load_req_data_add(rt, mlrd, modv);
 
     return mlrd;
@@ -676,8 +682,9 @@ rjs_module_load_requested (RJS_Runtime *rt, RJS_Value *modv, RJS_Value *promise)
     RJS_Module *mod;
     RJS_Result  r;
     RJS_ModuleLoadRequestedData *mlrd = NULL;
-    size_t      top   = rjs_value_stack_save(rt);
-    RJS_Realm  *realm = rjs_realm_current(rt);
+    size_t      top    = rjs_value_stack_save(rt);
+    RJS_Value  *holder = rjs_value_stack_push(rt);
+    RJS_Realm  *realm  = rjs_realm_current(rt);
     RJS_PromiseCapability pc;
 
     rjs_promise_capability_init(rt, &pc);
@@ -690,7 +697,7 @@ rjs_module_load_requested (RJS_Runtime *rt, RJS_Value *modv, RJS_Value *promise)
 
     rjs_new_promise_capability(rt, rjs_o_Promise(realm), &pc);
 
-    mlrd = module_load_req_data_new(rt, modv, &pc);
+    mlrd = module_load_req_data_new(rt, modv, &pc, holder);
 
     r = module_load_req_result(rt, mlrd);
 
-- 
2.43.0


From 3e81955ef70b33f5918b8082871aafb7f552d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:10 +0000
Subject: [PATCH 74/94] fix: scan a global environment under construction

---
 src/lib/rjs_global_env.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_global_env.c b/src/lib/rjs_global_env.c
index 19053c1..0e6a3fe 100644
--- a/src/lib/rjs_global_env.c
+++ b/src/lib/rjs_global_env.c
@@ -34,7 +34,8 @@ global_env_op_gc_scan (RJS_Runtime *rt, void *ptr)
     RJS_HashEntry *he;
 
     rjs_gc_scan_value(rt, &ge->global_this);
-    rjs_gc_mark(rt, ge->object_rec);
+    if (ge->object_rec)
+        rjs_gc_mark(rt, ge->object_rec);
 
     rjs_hash_foreach(&ge->var_name_hash, i, he) {
         rjs_gc_mark(rt, he->key);
-- 
2.43.0


From 37ff1198dbc79bbcace102a4f9a144659cf7bc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:11 +0000
Subject: [PATCH 75/94] fix: load the module of the -l option

---
 src/exe/rjs_main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exe/rjs_main.c b/src/exe/rjs_main.c
index 7195c26..18fb3d4 100644
--- a/src/exe/rjs_main.c
+++ b/src/exe/rjs_main.c
@@ -413,6 +413,9 @@ module_load (const char *name)
     if ((r = rjs_lookup_module(rt, NULL, str, promise)) == RJS_ERR)
         goto end;
 
+    if ((r = rjs_promise_then_native(rt, promise, on_callback_ok, on_callback_error, NULL)) == RJS_ERR)
+        goto end;
+
     while (callback_result == 0)
         rjs_solve_jobs(rt);
 
-- 
2.43.0


From b05f4dd261d8bda9d4a9db4e381c32f8274a4942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:14 +0000
Subject: [PATCH 76/94] fix: allow an empty value buffer at the top of the
 value stack

---
 src/lib/rjs_value.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/rjs_value.c b/src/lib/rjs_value.c
index 9dd2140..b28df0e 100644
--- a/src/lib/rjs_value.c
+++ b/src/lib/rjs_value.c
@@ -36,6 +36,10 @@ rjs_value_buffer_fill_undefined (RJS_Runtime *rt, RJS_Value *v, size_t n)
 {
     RJS_Value *p, *e;
 
+    /*An empty buffer may start at the end of the value stack.*/
+    if (n == 0)
+        return;
+
     v = rjs_value_get_pointer(rt, v);
     p = v;
     e = v + n;
-- 
2.43.0


From 2e766b83bf50492712a64af7769df3f418e7e42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:50 +0000
Subject: [PATCH 77/94] fix: keep the values of live weak map keys alive

---
 src/lib/include/rjs_weak_ref.h    | 10 +++++++
 src/lib/rjs_gc.c                  |  4 +++
 src/lib/rjs_weak_map_object_inc.c |  1 +
 src/lib/rjs_weak_ref_opt.c        | 47 +++++++++++++++++++++++++++++++
 4 files changed, 62 insertions(+)

diff --git a/src/lib/include/rjs_weak_ref.h b/src/lib/include/rjs_weak_ref.h
index 0c3665a..fd185c1 100644
--- a/src/lib/include/rjs_weak_ref.h
+++ b/src/lib/include/rjs_weak_ref.h
@@ -41,6 +41,7 @@ struct RJS_WeakRef_s {
     RJS_Value    base; /**< The base value.*/
     RJS_Value    ref;  /**< The referenced value.*/
     RJS_WeakRefOnFinalFunc on_final; /**< On final function.*/
+    RJS_Value   *value; /**< The value kept alive as long as the base and the reference are alive.*/
 };
 
 /**
@@ -65,6 +66,15 @@ rjs_clear_kept_objects (RJS_Runtime *rt);
 RJS_INTERNAL void
 rjs_gc_scan_kept_objects (RJS_Runtime *rt);
 
+/**
+ * Mark the values belong to the weak references whose base and reference are both marked.
+ * \param rt The current runtime.
+ * \retval RJS_TRUE Some values are marked newly.
+ * \retval RJS_FALSE No value is marked newly.
+ */
+RJS_INTERNAL RJS_Bool
+rjs_gc_mark_weak_ref_values (RJS_Runtime *rt);
+
 /**
  * Solve the weak references in the rt.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_gc.c b/src/lib/rjs_gc.c
index 1e260ce..6b20773 100644
--- a/src/lib/rjs_gc.c
+++ b/src/lib/rjs_gc.c
@@ -182,6 +182,10 @@ gc_run (RJS_Runtime *rt)
     gc_scan_things(rt);
 
 #if ENABLE_WEAK_REF
+    /*Scan the values of the weak maps whose keys are alive.*/
+    while (rjs_gc_mark_weak_ref_values(rt))
+        gc_scan_things(rt);
+
     /*Solve the weak references.*/
     rjs_solve_weak_refs(rt);
 #endif /*ENABLE_WEAK_REF*/
diff --git a/src/lib/rjs_weak_map_object_inc.c b/src/lib/rjs_weak_map_object_inc.c
index 41021b2..e42234f 100644
--- a/src/lib/rjs_weak_map_object_inc.c
+++ b/src/lib/rjs_weak_map_object_inc.c
@@ -184,6 +184,7 @@ static RJS_NF(WeakMap_prototype_set)
         rjs_weak_ref_free(rt, wme->weak_ref);
 
     wme->weak_ref = rjs_weak_ref_add(rt, thiz, k, weak_map_on_final);
+    wme->weak_ref->value = &wme->me.value;
 
     rjs_value_copy(rt, rv, thiz);
     r = RJS_OK;
diff --git a/src/lib/rjs_weak_ref_opt.c b/src/lib/rjs_weak_ref_opt.c
index eaf70d0..2227c0a 100644
--- a/src/lib/rjs_weak_ref_opt.c
+++ b/src/lib/rjs_weak_ref_opt.c
@@ -47,6 +47,7 @@ rjs_weak_ref_add (RJS_Runtime *rt, RJS_Value *base, RJS_Value *ref,
     rjs_value_copy(rt, &wr->ref, ref);
 
     wr->on_final = on_final;
+    wr->value    = NULL;
 
     rjs_list_append(&rt->weak_ref_list, &wr->ln);
 
@@ -66,6 +67,52 @@ rjs_weak_ref_free (RJS_Runtime *rt, RJS_WeakRef *wr)
     RJS_DEL(rt, wr);
 }
 
+/**
+ * Mark the values belong to the weak references whose base and reference are both marked.
+ * \param rt The current runtime.
+ * \retval RJS_TRUE Some values are marked newly.
+ * \retval RJS_FALSE No value is marked newly.
+ */
+RJS_Bool
+rjs_gc_mark_weak_ref_values (RJS_Runtime *rt)
+{
+    RJS_WeakRef *r;
+    RJS_Bool     marked = RJS_FALSE;
+
+    rjs_list_foreach_c(&rt->weak_ref_list, r, RJS_WeakRef, ln) {
+        RJS_GcThing *base_gt, *ref_gt, *gt;
+
+        if (!r->value)
+            continue;
+
+        base_gt = rjs_value_get_gc_thing(rt, &r->base);
+        ref_gt  = rjs_value_get_gc_thing(rt, &r->ref);
+
+        if (!(base_gt->next_flags & RJS_GC_THING_FL_MARKED)
+                || !(ref_gt->next_flags & RJS_GC_THING_FL_MARKED))
+            continue;
+
+        switch (rjs_value_get_tag(r->value)) {
+        case RJS_VALUE_TAG_STRING:
+        case RJS_VALUE_TAG_SYMBOL:
+#if ENABLE_BIG_INT
+        case RJS_VALUE_TAG_BIG_INT:
+#endif /*ENABLE_BIG_INT*/
+        case RJS_VALUE_TAG_OBJECT:
+            gt = rjs_value_get_gc_thing(rt, r->value);
+            if (!(gt->next_flags & RJS_GC_THING_FL_MARKED)) {
+                rjs_gc_mark(rt, gt);
+                marked = RJS_TRUE;
+            }
+            break;
+        default:
+            break;
+        }
+    }
+
+    return marked;
+}
+
 /**
  * Solve the weak references in the rt.
  * \param rt The current runtime.
-- 
2.43.0


From 2d2c60c218ed27173ffb0448e934c4e16148c759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:09 +0000
Subject: [PATCH 78/94] fix: keep every registration made with the same
 unregister token

---
 src/lib/include/rjs_finalization_registry.h |  8 ++-
 src/lib/rjs_finalization_registry_opt.c     | 65 ++++++++++++++-------
 2 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/src/lib/include/rjs_finalization_registry.h b/src/lib/include/rjs_finalization_registry.h
index 6ce30c0..851b676 100644
--- a/src/lib/include/rjs_finalization_registry.h
+++ b/src/lib/include/rjs_finalization_registry.h
@@ -43,14 +43,18 @@ typedef struct {
 } RJS_FinalizationRegistry;
 
 /**Finalization callback.*/
-typedef struct {
+typedef struct RJS_FinalizationCallback_s RJS_FinalizationCallback;
+
+/**Finalization callback.*/
+struct RJS_FinalizationCallback_s {
     RJS_HashEntry he;       /**< Hash table entry.*/
+    RJS_FinalizationCallback *next; /**< The next callback with the same token.*/
     RJS_List      ln;       /**< List node data.*/
     RJS_Value     registry; /**< The registry.*/
     RJS_Value     target;   /**< The target value.*/
     RJS_Value     held;     /**< Held value.*/
     RJS_Value     token;    /**< Token value.*/
-} RJS_FinalizationCallback;
+};
 
 /**
  * Initialize the finalization registry data in the rt.
diff --git a/src/lib/rjs_finalization_registry_opt.c b/src/lib/rjs_finalization_registry_opt.c
index 3dffa7b..1f24b80 100644
--- a/src/lib/rjs_finalization_registry_opt.c
+++ b/src/lib/rjs_finalization_registry_opt.c
@@ -137,7 +137,24 @@ rjs_solve_finalization_registry (RJS_Runtime *rt)
 
                 r = rjs_hash_lookup(&fr->cb_hash, &fcb->token, &he, &phe, &rjs_hash_value_ops, rt);
                 if (r) {
-                    rjs_hash_remove(&fr->cb_hash, phe, rt);
+                    RJS_FinalizationCallback *p;
+
+                    p = RJS_CONTAINER_OF(he, RJS_FinalizationCallback, he);
+
+                    if (p == fcb) {
+                        rjs_hash_remove(&fr->cb_hash, phe, rt);
+
+                        /*The next callback with the same token takes its place.*/
+                        if ((p = fcb->next)) {
+                            rjs_hash_lookup(&fr->cb_hash, &p->token, &he, &phe, &rjs_hash_value_ops, rt);
+                            rjs_hash_insert(&fr->cb_hash, &p->token, &p->he, phe, &rjs_hash_value_ops, rt);
+                        }
+                    } else {
+                        while (p->next != fcb)
+                            p = p->next;
+
+                        p->next = fcb->next;
+                    }
                 }
             }
 
@@ -236,7 +253,7 @@ rjs_finalization_register (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *targ
 {
     RJS_FinalizationRegistry *fr;
     RJS_HashEntry            *he, **phe = NULL;
-    RJS_FinalizationCallback *fcb = NULL;
+    RJS_FinalizationCallback *fcb;
 
     if (rjs_value_get_gc_thing_type(rt, registry) != RJS_GC_THING_FINALIZATION_REGISTRY)
         return rjs_throw_type_error(rt, _("the value is not a finalization registry"));
@@ -254,31 +271,34 @@ rjs_finalization_register (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *targ
 
     fr = (RJS_FinalizationRegistry*)rjs_value_get_object(rt, registry);
 
+    RJS_NEW(rt, fcb);
+
+    fcb->next = NULL;
+
+    rjs_value_copy(rt, &fcb->registry, registry);
+    rjs_value_copy(rt, &fcb->target, target);
+    rjs_value_copy(rt, &fcb->held, held);
+    rjs_value_copy(rt, &fcb->token, token);
+
+    rjs_list_append(&rt->final_cb_list, &fcb->ln);
+
     if (!rjs_value_is_undefined(rt, token)) {
         RJS_Result r;
 
         r = rjs_hash_lookup(&fr->cb_hash, token, &he, &phe, &rjs_hash_value_ops, rt);
 
-        if (r)
-            fcb = RJS_CONTAINER_OF(he, RJS_FinalizationCallback, he);
-    }
-
-    if (!fcb) {
-        RJS_NEW(rt, fcb);
-
-        rjs_value_copy(rt, &fcb->token, token);
+        if (r) {
+            RJS_FinalizationCallback *first;
 
-        rjs_list_append(&rt->final_cb_list, &fcb->ln);
+            first = RJS_CONTAINER_OF(he, RJS_FinalizationCallback, he);
 
-        if (!rjs_value_is_undefined(rt, token))
+            fcb->next   = first->next;
+            first->next = fcb;
+        } else {
             rjs_hash_insert(&fr->cb_hash, &fcb->token, &fcb->he, phe, &rjs_hash_value_ops, rt);
+        }
     }
 
-    rjs_value_copy(rt, &fcb->registry, registry);
-    rjs_value_copy(rt, &fcb->target, target);
-    rjs_value_copy(rt, &fcb->held, held);
-    rjs_value_copy(rt, &fcb->token, token);
-
     return RJS_OK;
 }
 
@@ -294,7 +314,7 @@ RJS_Result
 rjs_finalization_unregister (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *token)
 {
     RJS_FinalizationRegistry *fr;
-    RJS_FinalizationCallback *fcb;
+    RJS_FinalizationCallback *fcb, *next;
     RJS_Result                r;
     RJS_HashEntry            *he, **phe;
 
@@ -312,8 +332,13 @@ rjs_finalization_unregister (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *to
     fcb = RJS_CONTAINER_OF(he, RJS_FinalizationCallback, he);
 
     rjs_hash_remove(&fr->cb_hash, phe, rt);
-    rjs_list_remove(&fcb->ln);
 
-    RJS_DEL(rt, fcb);
+    for (; fcb; fcb = next) {
+        next = fcb->next;
+
+        rjs_list_remove(&fcb->ln);
+        RJS_DEL(rt, fcb);
+    }
+
     return RJS_TRUE;
 }
-- 
2.43.0


From b11da2bccf462c882dcf9926c9e5735233f8c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:41 +0000
Subject: [PATCH 79/94] fix: big shift counts, exponents and widths with the
 gmp back end

---
 src/lib/rjs_big_int_gmp_opt.c | 91 +++++++++++++++++++++++------------
 1 file changed, 60 insertions(+), 31 deletions(-)

diff --git a/src/lib/rjs_big_int_gmp_opt.c b/src/lib/rjs_big_int_gmp_opt.c
index 5ad4b06..b1b3212 100644
--- a/src/lib/rjs_big_int_gmp_opt.c
+++ b/src/lib/rjs_big_int_gmp_opt.c
@@ -719,14 +719,61 @@ rjs_big_int_exponentiate (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Val
     if (mpz_sgn(&src2->mpz) < 0)
         return rjs_throw_range_error(rt, _("exponent cannot < 0"));
 
+    if (mpz_sizeinbase(&src2->mpz, 2) <= 32) {
+        exp = mpz_get_ui(&src2->mpz);
+    } else {
+        if (mpz_cmpabs_ui(&src1->mpz, 1) > 0)
+            return rjs_throw_range_error(rt, _("exponent is too big"));
+
+        /*Only the parity is used for 0, 1 and -1.*/
+        exp = mpz_odd_p(&src2->mpz) ? 1 : 2;
+    }
+
     dst = big_int_new_init(rt, rv);
 
-    exp = mpz_get_ui(&src2->mpz);
     mpz_pow_ui(&dst->mpz, &src1->mpz, exp);
 
     return RJS_OK;
 }
 
+/*Shift to left, or to right if rev is true.*/
+static RJS_Result
+big_int_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv, RJS_Bool rev)
+{
+    RJS_BigInt *src1, *src2, *dst;
+    int         sgn1, sgn2;
+    mp_bitcnt_t bits;
+
+    src1 = rjs_value_get_big_int(rt, v1);
+    src2 = rjs_value_get_big_int(rt, v2);
+    sgn1 = mpz_sgn(&src1->mpz);
+    sgn2 = mpz_sgn(&src2->mpz);
+
+    if (rev)
+        sgn2 = - sgn2;
+
+    if (sgn1 && (mpz_sizeinbase(&src2->mpz, 2) > 32)) {
+        if (sgn2 > 0)
+            return rjs_throw_range_error(rt, _("shift value is too big"));
+
+        dst = big_int_new_init(rt, rv);
+        mpz_set_si(&dst->mpz, (sgn1 < 0) ? -1 : 0);
+        return RJS_OK;
+    }
+
+    dst  = big_int_new_init(rt, rv);
+    bits = mpz_get_ui(&src2->mpz);
+
+    if (!sgn1)
+        mpz_set_ui(&dst->mpz, 0);
+    else if (sgn2 < 0)
+        mpz_fdiv_q_2exp(&dst->mpz, &src1->mpz, bits);
+    else
+        mpz_mul_2exp(&dst->mpz, &src1->mpz, bits);
+
+    return RJS_OK;
+}
+
 /**
  * Big integer left shift operation.
  * \param rt The current runtime.
@@ -739,21 +786,7 @@ rjs_big_int_exponentiate (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Val
 RJS_Result
 rjs_big_int_left_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv)
 {
-    RJS_BigInt *src1, *src2, *dst;
-    long int bits;
-
-    src1 = rjs_value_get_big_int(rt, v1);
-    src2 = rjs_value_get_big_int(rt, v2);
-    dst  = big_int_new_init(rt, rv);
-
-    bits = mpz_get_si(&src2->mpz);
-
-    if (bits < 0)
-        mpz_div_2exp(&dst->mpz, &src1->mpz, -bits);
-    else
-        mpz_mul_2exp(&dst->mpz, &src1->mpz, bits);
-
-    return RJS_OK;
+    return big_int_shift(rt, v1, v2, rv, RJS_FALSE);
 }
 
 /**
@@ -768,21 +801,7 @@ rjs_big_int_left_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value
 RJS_Result
 rjs_big_int_signed_right_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv)
 {
-    RJS_BigInt *src1, *src2, *dst;
-    long int bits;
-
-    src1 = rjs_value_get_big_int(rt, v1);
-    src2 = rjs_value_get_big_int(rt, v2);
-    dst  = big_int_new_init(rt, rv);
-
-    bits = mpz_get_si(&src2->mpz);
-
-    if (bits < 0)
-        mpz_mul_2exp(&dst->mpz, &src1->mpz, -bits);
-    else
-        mpz_div_2exp(&dst->mpz, &src1->mpz, bits);
-
-    return RJS_OK;
+    return big_int_shift(rt, v1, v2, rv, RJS_TRUE);
 }
 
 /**
@@ -952,6 +971,12 @@ rjs_big_int_as_int_n (RJS_Runtime *rt, int64_t bits, RJS_Value *v, RJS_Value *rv
     src = rjs_value_get_big_int(rt, v);
     dst = big_int_new_init(rt, rv);
 
+    /*All the bits of the number are kept.*/
+    if ((uint64_t)bits > mpz_sizeinbase(&src->mpz, 2)) {
+        mpz_set(&dst->mpz, &src->mpz);
+        return RJS_OK;
+    }
+
     mpz_init(tmp);
     mpz_fdiv_r_2exp(tmp, &src->mpz, bits);
 
@@ -989,6 +1014,10 @@ rjs_big_int_as_uint_n (RJS_Runtime *rt, int64_t bits, RJS_Value *v, RJS_Value *r
     RJS_BigInt *src, *dst;
 
     src = rjs_value_get_big_int(rt, v);
+
+    if ((mpz_sgn(&src->mpz) < 0) && (bits > (int64_t)0x1000000 * 32) && ((uint64_t)bits > mpz_sizeinbase(&src->mpz, 2)))
+        return rjs_throw_range_error(rt, _("the big integer is too big"));
+
     dst = big_int_new_init(rt, rv);
 
     mpz_fdiv_r_2exp(&dst->mpz, &src->mpz, bits);
-- 
2.43.0


From 40ab1021819ae3cc5c2e59228b12e48658ada9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:36 +0000
Subject: [PATCH 80/94] fix: a global binding that was deleted is not taken
 from the binding cache

---
 src/lib/rjs_operation.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index df9ddd9..e012f84 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -2132,6 +2132,14 @@ rjs_resolve_binding (RJS_Runtime *rt, RJS_BindingName *bn, RJS_Environment **pe)
             ent = &env->outer_stack[bn->env_idx - 1];
             env = ent->env;
         }
+
+        /*A property of the global object may have been deleted.*/
+        if (!env->outer) {
+            if ((r = rjs_env_has_binding(rt, env, bn)) == RJS_ERR)
+                return r;
+            if (!r)
+                env = NULL;
+        }
     } else
 #endif /*ENABLE_BINDING_CACHE*/
     {
-- 
2.43.0


From b61fcbbba5a847720a6cd6bcd6b3bdcd700ff434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:15 +0000
Subject: [PATCH 81/94] fix: equal BigInt keys have equal hash keys

---
 src/lib/rjs_hash.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/rjs_hash.c b/src/lib/rjs_hash.c
index 5d67913..92eb6d9 100644
--- a/src/lib/rjs_hash.c
+++ b/src/lib/rjs_hash.c
@@ -291,6 +291,16 @@ hash_op_value_key (void *data, void *key)
     case RJS_VALUE_STRING:
         r = rjs_string_hash_key(rt, v);
         break;
+#if ENABLE_BIG_INT
+    case RJS_VALUE_BIG_INT: {
+        uint64_t u;
+
+        /*Equal big integers may be stored in different buffers.*/
+        rjs_big_int_to_uint64(rt, v, &u);
+        r = u;
+        break;
+    }
+#endif /*ENABLE_BIG_INT*/
     default:
         r = RJS_PTR2SIZE(rjs_value_get_gc_thing(rt, v));
         break;
-- 
2.43.0


From 736aa5e2b3fac5defa3502c321186dd197e1462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:15 +0000
Subject: [PATCH 82/94] fix: the key of a new Map or Set entry was not scanned
 by the GC

---
 src/lib/rjs_hash_object_inc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index d543e95..7ea8cd1 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -321,6 +321,10 @@ hash_add (RJS_Runtime *rt, RJS_Value *hashv, RJS_Value *k, size_t esize)
     if (!r) {
         RJS_HashIter *iter;
 
+        /*Convert an index string now: the entry's key is not scanned by the GC until it is linked.*/
+        if (rjs_value_is_string(rt, k))
+            rjs_value_get_string(rt, k);
+
         se = rjs_alloc_assert_0(rt, esize);
 
         /*-0 is stored as +0.*/
-- 
2.43.0


From 844b4e25ac6989ad8f2ebfe6aae8e1ada6a45a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:50 +0000
Subject: [PATCH 83/94] fix: a wait ends only by a notification or its timeout

---
 src/lib/include/rjs_data_block.h |  5 +++--
 src/lib/rjs_data_block_opt.c     | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/lib/include/rjs_data_block.h b/src/lib/include/rjs_data_block.h
index 250d7c6..011c103 100644
--- a/src/lib/include/rjs_data_block.h
+++ b/src/lib/include/rjs_data_block.h
@@ -53,8 +53,9 @@ struct RJS_DataBlock_s {
 
 /**Waiter.*/
 struct RJS_Waiter_s {
-    RJS_List       ln;   /**< List node data.*/
-    pthread_cond_t cond; /**< Condtion variable.*/
+    RJS_List       ln;       /**< List node data.*/
+    pthread_cond_t cond;     /**< Condtion variable.*/
+    RJS_Bool       notified; /**< The waiter has been notified.*/
 };
 
 /**Waiter list.*/
diff --git a/src/lib/rjs_data_block_opt.c b/src/lib/rjs_data_block_opt.c
index ea0cee4..d210a83 100644
--- a/src/lib/rjs_data_block_opt.c
+++ b/src/lib/rjs_data_block_opt.c
@@ -254,17 +254,19 @@ rjs_add_waiter (RJS_Runtime *rt, RJS_DataBlock *db, RJS_WaiterList *wl, RJS_Numb
 {
     RJS_Waiter      *w;
     struct timespec  ts;
-    RJS_Result       r;
+    RJS_Bool         notified;
 
     w = malloc(sizeof(RJS_Waiter));
     assert(w);
 
     pthread_cond_init(&w->cond, NULL);
+    w->notified = RJS_FALSE;
 
     rjs_list_append(&wl->waiters, &w->ln);
 
     if (timeout == INFINITY) {
-        r = pthread_cond_wait(&w->cond, &db->lock);
+        while (!w->notified)
+            pthread_cond_wait(&w->cond, &db->lock);
     } else {
         uint64_t ms = timeout;
 
@@ -278,13 +280,18 @@ rjs_add_waiter (RJS_Runtime *rt, RJS_DataBlock *db, RJS_WaiterList *wl, RJS_Numb
             ts.tv_nsec -= 1000000000;
         }
 
-        r = pthread_cond_timedwait(&w->cond, &db->lock, &ts);
+        while (!w->notified) {
+            if (pthread_cond_timedwait(&w->cond, &db->lock, &ts) != 0)
+                break;
+        }
     }
 
+    notified = w->notified;
+
     rjs_list_remove(&w->ln);
     waiter_free(w);
 
-    return (r == ETIMEDOUT) ? RJS_FALSE : RJS_TRUE;
+    return notified;
 }
 
 /**
@@ -297,6 +304,8 @@ rjs_add_waiter (RJS_Runtime *rt, RJS_DataBlock *db, RJS_WaiterList *wl, RJS_Numb
 RJS_Result
 rjs_notify_waiter (RJS_Runtime *rt, RJS_Waiter *w)
 {
+    w->notified = RJS_TRUE;
+
     pthread_cond_signal(&w->cond);
 
     return RJS_OK;
-- 
2.43.0


From 402def22b2b8b850d1d1b0c820e89e0b398ba266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:01 +0000
Subject: [PATCH 84/94] fix: elements of shared buffers are read and written as
 a whole

---
 src/lib/rjs_array_buffer_opt.c   | 69 +++++++++++++++++++++++++++++++-
 src/lib/rjs_atomics_object_inc.c |  7 +++-
 2 files changed, 73 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_array_buffer_opt.c b/src/lib/rjs_array_buffer_opt.c
index 1ab0d5c..77d9d14 100644
--- a/src/lib/rjs_array_buffer_opt.c
+++ b/src/lib/rjs_array_buffer_opt.c
@@ -655,6 +655,65 @@ rjs_set_value_in_raw (RJS_Runtime *rt, uint8_t *b,
     return RJS_OK;
 }
 
+/*Read an element. An aligned element is read as a whole, as the read-modify-write operations do not take the lock.*/
+static void
+load_element (uint8_t *d, uint8_t *p, size_t size)
+{
+#if ENABLE_ATOMICS
+    if (((size_t)p) % size == 0) {
+        switch (size) {
+        case 2: {
+            uint16_t v = atomic_load((atomic_ushort*)p);
+            memcpy(d, &v, sizeof(v));
+            return;
+        }
+        case 4: {
+            uint32_t v = atomic_load((atomic_uint*)p);
+            memcpy(d, &v, sizeof(v));
+            return;
+        }
+        case 8: {
+            uint64_t v = atomic_load((atomic_ullong*)p);
+            memcpy(d, &v, sizeof(v));
+            return;
+        }
+        }
+    }
+#endif /*ENABLE_ATOMICS*/
+    memcpy(d, p, size);
+}
+
+/*Write an element. An aligned element is written as a whole.*/
+static void
+store_element (uint8_t *p, uint8_t *s, size_t size)
+{
+#if ENABLE_ATOMICS
+    if (((size_t)p) % size == 0) {
+        switch (size) {
+        case 2: {
+            uint16_t v;
+            memcpy(&v, s, sizeof(v));
+            atomic_store((atomic_ushort*)p, v);
+            return;
+        }
+        case 4: {
+            uint32_t v;
+            memcpy(&v, s, sizeof(v));
+            atomic_store((atomic_uint*)p, v);
+            return;
+        }
+        case 8: {
+            uint64_t v;
+            memcpy(&v, s, sizeof(v));
+            atomic_store((atomic_ullong*)p, v);
+            return;
+        }
+        }
+    }
+#endif /*ENABLE_ATOMICS*/
+    memcpy(p, s, size);
+}
+
 /**
  * Get value from an array buffer.
  * \param rt The current runtime.
@@ -672,6 +731,7 @@ rjs_get_value_from_buffer (RJS_Runtime *rt, RJS_Value *abv, size_t byte_idx,
 {
     RJS_ArrayBuffer *ab;
     uint8_t         *b;
+    uint8_t          e[8];
     RJS_Result       r;
 
     assert(!rjs_is_detached_buffer(rt, abv));
@@ -681,10 +741,12 @@ rjs_get_value_from_buffer (RJS_Runtime *rt, RJS_Value *abv, size_t byte_idx,
 
     rjs_array_buffer_lock(rt, abv);
 
-    r = rjs_get_value_from_raw(rt, b, type, is_little_endian, v);
+    load_element(e, b, rjs_typed_array_element_size(type));
 
     rjs_array_buffer_unlock(rt, abv);
 
+    r = rjs_get_value_from_raw(rt, e, type, is_little_endian, v);
+
     return r;
 }
 
@@ -705,6 +767,7 @@ rjs_set_value_in_buffer (RJS_Runtime *rt, RJS_Value *abv, size_t byte_idx,
 {
     RJS_ArrayBuffer *ab;
     uint8_t         *b;
+    uint8_t          e[8];
     RJS_Result       r;
 
     assert(!rjs_is_detached_buffer(rt, abv));
@@ -712,9 +775,11 @@ rjs_set_value_in_buffer (RJS_Runtime *rt, RJS_Value *abv, size_t byte_idx,
     ab = (RJS_ArrayBuffer*)rjs_value_get_object(rt, abv);
     b  = rjs_data_block_get_buffer(ab->data_block) + byte_idx;
 
+    r = rjs_set_value_in_raw(rt, e, type, v, is_little_endian);
+
     rjs_array_buffer_lock(rt, abv);
 
-    r = rjs_set_value_in_raw(rt, b, type, v, is_little_endian);
+    store_element(b, e, rjs_typed_array_element_size(type));
 
     rjs_array_buffer_unlock(rt, abv);
 
diff --git a/src/lib/rjs_atomics_object_inc.c b/src/lib/rjs_atomics_object_inc.c
index ddb895d..01412fb 100644
--- a/src/lib/rjs_atomics_object_inc.c
+++ b/src/lib/rjs_atomics_object_inc.c
@@ -1225,7 +1225,12 @@ static RJS_NF(Atomics_wait)
 
     rjs_array_buffer_lock(rt, buf);
 
-    rjs_get_value_from_raw(rt, ptr, iio->type, rjs_is_little_endian(), w);
+#if ENABLE_BIG_INT
+    if (iio->type == RJS_ARRAY_ELEMENT_BIGINT64)
+        rjs_big_int_from_int64(rt, w, atomic_load((atomic_llong*)ptr));
+    else
+#endif /*ENABLE_BIG_INT*/
+        rjs_value_set_number(rt, w, atomic_load((atomic_int*)ptr));
 
     if (rjs_same_value(rt, v, w)) {
         wl = rjs_get_waiter_list(rt, ab->data_block, idx_pos);
-- 
2.43.0


From 0d9d9b4dfe496056bce47571978c6d2a849bc1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:16 +0000
Subject: [PATCH 85/94] fix: two shared buffers are locked in one order

---
 include/ratjs/rjs_array_buffer.h             | 40 +++++++++++++++++++
 src/lib/rjs_array_buffer_opt.c               | 42 ++++++++++++++++++++
 src/lib/rjs_shared_array_buffer_object_inc.c |  6 +--
 src/lib/rjs_typed_array_object_inc.c         | 29 ++++++++------
 4 files changed, 101 insertions(+), 16 deletions(-)

diff --git a/include/ratjs/rjs_array_buffer.h b/include/ratjs/rjs_array_buffer.h
index afcf3f1..87bc429 100644
--- a/include/ratjs/rjs_array_buffer.h
+++ b/include/ratjs/rjs_array_buffer.h
@@ -184,6 +184,24 @@ rjs_array_buffer_lock (RJS_Runtime *rt, RJS_Value *v);
 extern void
 rjs_array_buffer_unlock (RJS_Runtime *rt, RJS_Value *v);
 
+/**
+ * Lock the data in 2 array buffers.
+ * \param rt The current runtime.
+ * \param v1 The array buffer value 1.
+ * \param v2 The array buffer value 2.
+ */
+extern void
+rjs_array_buffer_lock_pair (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2);
+
+/**
+ * Unlock the data in 2 array buffers.
+ * \param rt The current runtime.
+ * \param v1 The array buffer value 1.
+ * \param v2 The array buffer value 2.
+ */
+extern void
+rjs_array_buffer_unlock_pair (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2);
+
 #else /*!ENABLE_SHARED_ARRAY_BUFFER*/
 
 /**
@@ -206,6 +224,28 @@ rjs_array_buffer_unlock (RJS_Runtime *rt, RJS_Value *v)
 {
 }
 
+/**
+ * Lock the data in 2 array buffers.
+ * \param rt The current runtime.
+ * \param v1 The array buffer value 1.
+ * \param v2 The array buffer value 2.
+ */
+static inline void
+rjs_array_buffer_lock_pair (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
+{
+}
+
+/**
+ * Unlock the data in 2 array buffers.
+ * \param rt The current runtime.
+ * \param v1 The array buffer value 1.
+ * \param v2 The array buffer value 2.
+ */
+static inline void
+rjs_array_buffer_unlock_pair (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
+{
+}
+
 #endif /*ENABLE_SHARED_ARRAY_BUFFER*/
 
 /**
diff --git a/src/lib/rjs_array_buffer_opt.c b/src/lib/rjs_array_buffer_opt.c
index 77d9d14..3f49917 100644
--- a/src/lib/rjs_array_buffer_opt.c
+++ b/src/lib/rjs_array_buffer_opt.c
@@ -279,6 +279,48 @@ rjs_array_buffer_unlock (RJS_Runtime *rt, RJS_Value *v)
         rjs_data_block_unlock(db);
 }
 
+/**
+ * Lock the data in 2 array buffers.
+ * The locks are taken in the order of the data blocks' addresses.
+ * \param rt The current runtime.
+ * \param v1 The array buffer value 1.
+ * \param v2 The array buffer value 2.
+ */
+void
+rjs_array_buffer_lock_pair (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
+{
+    RJS_DataBlock *db1 = ((RJS_ArrayBuffer*)rjs_value_get_object(rt, v1))->data_block;
+    RJS_DataBlock *db2 = ((RJS_ArrayBuffer*)rjs_value_get_object(rt, v2))->data_block;
+
+    if (db1 == db2) {
+        rjs_array_buffer_lock(rt, v1);
+    } else if (db1 < db2) {
+        rjs_array_buffer_lock(rt, v1);
+        rjs_array_buffer_lock(rt, v2);
+    } else {
+        rjs_array_buffer_lock(rt, v2);
+        rjs_array_buffer_lock(rt, v1);
+    }
+}
+
+/**
+ * Unlock the data in 2 array buffers.
+ * \param rt The current runtime.
+ * \param v1 The array buffer value 1.
+ * \param v2 The array buffer value 2.
+ */
+void
+rjs_array_buffer_unlock_pair (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
+{
+    RJS_DataBlock *db1 = ((RJS_ArrayBuffer*)rjs_value_get_object(rt, v1))->data_block;
+    RJS_DataBlock *db2 = ((RJS_ArrayBuffer*)rjs_value_get_object(rt, v2))->data_block;
+
+    rjs_array_buffer_unlock(rt, v1);
+
+    if (db1 != db2)
+        rjs_array_buffer_unlock(rt, v2);
+}
+
 #endif /*ENABLE_SHARED_ARRAY_BUFFER*/
 
 /**
diff --git a/src/lib/rjs_shared_array_buffer_object_inc.c b/src/lib/rjs_shared_array_buffer_object_inc.c
index 05ba23a..f9aaccb 100644
--- a/src/lib/rjs_shared_array_buffer_object_inc.c
+++ b/src/lib/rjs_shared_array_buffer_object_inc.c
@@ -160,14 +160,12 @@ static RJS_NF(SharedArrayBuffer_prototype_slice)
         goto end;
     }
 
-    rjs_array_buffer_lock(rt, thiz);
-    rjs_array_buffer_lock(rt, rv);
+    rjs_array_buffer_lock_pair(rt, thiz, rv);
 
     memcpy(rjs_data_block_get_buffer(nab->data_block),
             rjs_data_block_get_buffer(ab->data_block) + first, new_len);
 
-    rjs_array_buffer_unlock(rt, rv);
-    rjs_array_buffer_unlock(rt, thiz);
+    rjs_array_buffer_unlock_pair(rt, thiz, rv);
 
     r = RJS_OK;
 end:
diff --git a/src/lib/rjs_typed_array_object_inc.c b/src/lib/rjs_typed_array_object_inc.c
index 8633d45..e832f17 100644
--- a/src/lib/rjs_typed_array_object_inc.c
+++ b/src/lib/rjs_typed_array_object_inc.c
@@ -1431,15 +1431,13 @@ set_typed_array_from_typed_array (RJS_Runtime *rt, RJS_Value *target, RJS_Number
         RJS_ArrayBuffer *sab = (RJS_ArrayBuffer*)rjs_value_get_object(rt, sbuf);
         RJS_ArrayBuffer *tab = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &tiio->buffer);
 
-        rjs_array_buffer_lock(rt, sbuf);
-        rjs_array_buffer_lock(rt, &tiio->buffer);
+        rjs_array_buffer_lock_pair(rt, sbuf, &tiio->buffer);
 
         memcpy(rjs_data_block_get_buffer(tab->data_block) + tbidx,
                 rjs_data_block_get_buffer(sab->data_block) + sbidx,
                 limit - tbidx);
 
-        rjs_array_buffer_unlock(rt, &tiio->buffer);
-        rjs_array_buffer_unlock(rt, sbuf);
+        rjs_array_buffer_unlock_pair(rt, sbuf, &tiio->buffer);
     } else {
         while (tbidx < limit) {
             rjs_get_value_from_buffer(rt, sbuf, sbidx, stype, rjs_is_little_endian(), ev);
@@ -1608,22 +1606,29 @@ static RJS_NF(TypedArray_prototype_slice)
             }
         } else {
             RJS_ArrayBuffer *sab, *tab;
-            size_t           esize;
+            size_t           esize, size;
+            uint8_t         *sp, *tp;
 
             sab = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &siio->buffer);
             tab = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &tiio->buffer);
 
             esize = rjs_typed_array_element_size(siio->type);
 
-            rjs_array_buffer_lock(rt, &siio->buffer);
-            rjs_array_buffer_lock(rt, &tiio->buffer);
+            rjs_array_buffer_lock_pair(rt, &siio->buffer, &tiio->buffer);
 
-            memcpy(rjs_data_block_get_buffer(tab->data_block) + tiio->byte_offset,
-                    rjs_data_block_get_buffer(sab->data_block) + siio->byte_offset + k * esize,
-                    count * esize);
+            sp = rjs_data_block_get_buffer(sab->data_block) + siio->byte_offset + k * esize;
+            tp = rjs_data_block_get_buffer(tab->data_block) + tiio->byte_offset;
+            size = count * esize;
 
-            rjs_array_buffer_unlock(rt, &tiio->buffer);
-            rjs_array_buffer_unlock(rt, &siio->buffer);
+            if (sab->data_block == tab->data_block) {
+                /*The bytes are copied one by one in order, the ranges may overlap.*/
+                while (size --)
+                    *tp ++ = *sp ++;
+            } else {
+                memcpy(tp, sp, size);
+            }
+
+            rjs_array_buffer_unlock_pair(rt, &siio->buffer, &tiio->buffer);
         }
     }
 end:
-- 
2.43.0


From 4b2978f443cc00151823c23d5d50d4e5c05f2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:30 +0000
Subject: [PATCH 86/94] fix: Atomics check the buffer again after the operands
 are converted

---
 src/lib/rjs_atomics_object_inc.c | 93 ++++++++++++++++++++++++++++++++
 1 file changed, 93 insertions(+)

diff --git a/src/lib/rjs_atomics_object_inc.c b/src/lib/rjs_atomics_object_inc.c
index 01412fb..2901dfc 100644
--- a/src/lib/rjs_atomics_object_inc.c
+++ b/src/lib/rjs_atomics_object_inc.c
@@ -104,6 +104,38 @@ validate_atomic_access (RJS_Runtime *rt, RJS_Value *ta, RJS_Value *req_idx, size
     return RJS_OK;
 }
 
+/*Convert the operand to the type of the elements.*/
+static RJS_Result
+convert_operand (RJS_Runtime *rt, RJS_Value *ta, RJS_Value *v, RJS_Value *rv)
+{
+    RJS_IntIndexedObject *iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
+    RJS_Number            n;
+    RJS_Result            r;
+
+#if ENABLE_BIG_INT
+    if ((iio->type == RJS_ARRAY_ELEMENT_BIGINT64) || (iio->type == RJS_ARRAY_ELEMENT_BIGUINT64))
+        return rjs_to_big_int(rt, v, rv);
+#endif /*ENABLE_BIG_INT*/
+
+    if ((r = rjs_to_integer_or_infinity(rt, v, &n)) == RJS_ERR)
+        return r;
+
+    rjs_value_set_number(rt, rv, n);
+    return RJS_OK;
+}
+
+/*Check the buffer after the operands are converted.*/
+static RJS_Result
+revalidate_atomic_access (RJS_Runtime *rt, RJS_Value *ta)
+{
+    RJS_IntIndexedObject *iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
+
+    if (rjs_is_detached_buffer(rt, &iio->buffer))
+        return rjs_throw_type_error(rt, _("the array buffer is detached"));
+
+    return RJS_OK;
+}
+
 /*Atomics.add*/
 static RJS_NF(Atomics_add)
 {
@@ -112,6 +144,7 @@ static RJS_NF(Atomics_add)
     RJS_Value            *value   = rjs_argument_get(rt, args, argc, 2);
     size_t                idx_pos = 0;
     size_t                top     = rjs_value_stack_save(rt);
+    RJS_Value            *nv      = rjs_value_stack_push(rt);
 #if ENABLE_BIG_INT
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
@@ -126,6 +159,13 @@ static RJS_NF(Atomics_add)
     if ((r = validate_atomic_access(rt, ta, index, &idx_pos)) == RJS_ERR)
         goto end;
 
+    if ((r = convert_operand(rt, ta, value, nv)) == RJS_ERR)
+        goto end;
+    value = nv;
+
+    if ((r = revalidate_atomic_access(rt, ta)) == RJS_ERR)
+        goto end;
+
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
     ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
     ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
@@ -269,6 +309,7 @@ static RJS_NF(Atomics_and)
     RJS_Value            *value   = rjs_argument_get(rt, args, argc, 2);
     size_t                idx_pos = 0;
     size_t                top     = rjs_value_stack_save(rt);
+    RJS_Value            *nv      = rjs_value_stack_push(rt);
 #if ENABLE_BIG_INT
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
@@ -283,6 +324,13 @@ static RJS_NF(Atomics_and)
     if ((r = validate_atomic_access(rt, ta, index, &idx_pos)) == RJS_ERR)
         goto end;
 
+    if ((r = convert_operand(rt, ta, value, nv)) == RJS_ERR)
+        goto end;
+    value = nv;
+
+    if ((r = revalidate_atomic_access(rt, ta)) == RJS_ERR)
+        goto end;
+
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
     ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
     ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
@@ -427,6 +475,8 @@ static RJS_NF(Atomics_compareExchange)
     RJS_Value            *repv    = rjs_argument_get(rt, args, argc, 3);
     size_t                idx_pos = 0;
     size_t                top     = rjs_value_stack_save(rt);
+    RJS_Value            *nv      = rjs_value_stack_push(rt);
+    RJS_Value            *nrepv   = rjs_value_stack_push(rt);
 #if ENABLE_BIG_INT
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
@@ -441,6 +491,17 @@ static RJS_NF(Atomics_compareExchange)
     if ((r = validate_atomic_access(rt, ta, index, &idx_pos)) == RJS_ERR)
         goto end;
 
+    if ((r = convert_operand(rt, ta, value, nv)) == RJS_ERR)
+        goto end;
+    value = nv;
+
+    if ((r = convert_operand(rt, ta, repv, nrepv)) == RJS_ERR)
+        goto end;
+    repv = nrepv;
+
+    if ((r = revalidate_atomic_access(rt, ta)) == RJS_ERR)
+        goto end;
+
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
     ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
     ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
@@ -602,6 +663,7 @@ static RJS_NF(Atomics_exchange)
     RJS_Value            *value   = rjs_argument_get(rt, args, argc, 2);
     size_t                idx_pos = 0;
     size_t                top     = rjs_value_stack_save(rt);
+    RJS_Value            *nv      = rjs_value_stack_push(rt);
 #if ENABLE_BIG_INT
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
@@ -616,6 +678,13 @@ static RJS_NF(Atomics_exchange)
     if ((r = validate_atomic_access(rt, ta, index, &idx_pos)) == RJS_ERR)
         goto end;
 
+    if ((r = convert_operand(rt, ta, value, nv)) == RJS_ERR)
+        goto end;
+    value = nv;
+
+    if ((r = revalidate_atomic_access(rt, ta)) == RJS_ERR)
+        goto end;
+
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
     ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
     ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
@@ -808,6 +877,7 @@ static RJS_NF(Atomics_or)
     RJS_Value            *value   = rjs_argument_get(rt, args, argc, 2);
     size_t                idx_pos = 0;
     size_t                top     = rjs_value_stack_save(rt);
+    RJS_Value            *nv      = rjs_value_stack_push(rt);
 #if ENABLE_BIG_INT
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
@@ -822,6 +892,13 @@ static RJS_NF(Atomics_or)
     if ((r = validate_atomic_access(rt, ta, index, &idx_pos)) == RJS_ERR)
         goto end;
 
+    if ((r = convert_operand(rt, ta, value, nv)) == RJS_ERR)
+        goto end;
+    value = nv;
+
+    if ((r = revalidate_atomic_access(rt, ta)) == RJS_ERR)
+        goto end;
+
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
     ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
     ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
@@ -1008,6 +1085,7 @@ static RJS_NF(Atomics_sub)
     RJS_Value            *value   = rjs_argument_get(rt, args, argc, 2);
     size_t                idx_pos = 0;
     size_t                top     = rjs_value_stack_save(rt);
+    RJS_Value            *nv      = rjs_value_stack_push(rt);
 #if ENABLE_BIG_INT
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
@@ -1022,6 +1100,13 @@ static RJS_NF(Atomics_sub)
     if ((r = validate_atomic_access(rt, ta, index, &idx_pos)) == RJS_ERR)
         goto end;
 
+    if ((r = convert_operand(rt, ta, value, nv)) == RJS_ERR)
+        goto end;
+    value = nv;
+
+    if ((r = revalidate_atomic_access(rt, ta)) == RJS_ERR)
+        goto end;
+
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
     ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
     ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
@@ -1331,6 +1416,7 @@ static RJS_NF(Atomics_xor)
     RJS_Value            *value   = rjs_argument_get(rt, args, argc, 2);
     size_t                idx_pos = 0;
     size_t                top     = rjs_value_stack_save(rt);
+    RJS_Value            *nv      = rjs_value_stack_push(rt);
 #if ENABLE_BIG_INT
     RJS_Value            *bi      = rjs_value_stack_push(rt);
 #endif /*ENABLE_BIG_INT*/
@@ -1345,6 +1431,13 @@ static RJS_NF(Atomics_xor)
     if ((r = validate_atomic_access(rt, ta, index, &idx_pos)) == RJS_ERR)
         goto end;
 
+    if ((r = convert_operand(rt, ta, value, nv)) == RJS_ERR)
+        goto end;
+    value = nv;
+
+    if ((r = revalidate_atomic_access(rt, ta)) == RJS_ERR)
+        goto end;
+
     iio = (RJS_IntIndexedObject*)rjs_value_get_object(rt, ta);
     ab  = (RJS_ArrayBuffer*)rjs_value_get_object(rt, &iio->buffer);
     ptr = rjs_data_block_get_buffer(ab->data_block) + idx_pos;
-- 
2.43.0


From a98c0d82b1f5c39f84f71fb9d99f5cfd7533c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:44 +0000
Subject: [PATCH 87/94] fix: a huge wait timeout does not end at once

---
 src/lib/rjs_data_block_opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_data_block_opt.c b/src/lib/rjs_data_block_opt.c
index d210a83..1201cf6 100644
--- a/src/lib/rjs_data_block_opt.c
+++ b/src/lib/rjs_data_block_opt.c
@@ -268,7 +268,7 @@ rjs_add_waiter (RJS_Runtime *rt, RJS_DataBlock *db, RJS_WaiterList *wl, RJS_Numb
         while (!w->notified)
             pthread_cond_wait(&w->cond, &db->lock);
     } else {
-        uint64_t ms = timeout;
+        uint64_t ms = RJS_MIN(timeout, 1e18);
 
         clock_gettime(CLOCK_REALTIME, &ts);
 
-- 
2.43.0


From ff23e7227e6912692f49d6b28d2f596fa79e9f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:59 +0000
Subject: [PATCH 88/94] fix: option values given after = reach the callback,
 and defaults of enumerations are described

---
 module/option.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/module/option.js b/module/option.js
index 4dbced4..af32336 100644
--- a/module/option.js
+++ b/module/option.js
@@ -232,7 +232,7 @@ export class OptionParser {
                         }
                     }
                 } else {
-                    let actArg = this.checkArgument(desc, optArg);
+                    actArg = this.checkArgument(desc, optArg);
 
                     if (actArg == undefined)
                         throw new TypeError(`"${optArg}" is not a valid argument of option "${optName}"`);
@@ -304,7 +304,7 @@ export class OptionParser {
                 if ((typeof desc.argument == "object")
                         && !Array.isArray(desc.argument)) {
                     for (let key of Object.keys(desc.argument)) {
-                        if (desc[key] == desc.default) {
+                        if (desc.argument[key] == desc.default) {
                             def = key;
                             break;
                         }
-- 
2.43.0


From 187c9f239eb22eec23600705582cc9c5acb378bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:59 +0000
Subject: [PATCH 89/94] fix: JSON files are searched in all directories and
 references to references are resolved

---
 module/json-manager.js | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/module/json-manager.js b/module/json-manager.js
index d6f9a0e..48e2f55 100644
--- a/module/json-manager.js
+++ b/module/json-manager.js
@@ -64,35 +64,41 @@ export class JSONManager {
 
             if (FileState(path) != undefined)
                 return path;
-
-            return null;
         }
+
+        return null;
     };
 
     /**
      * Resolve the pointers in the JSON object.
      * @param {*} json The JSON object.
      * @param {*} curr The current value.
+     * @param {Set} done The values already handled.
      */
-    static resolvePointers (json, curr = json) {
-        if ((typeof curr == "object") && (curr !== null)) {
+    static resolvePointers (json, curr = json, done = new Set()) {
+        if ((typeof curr == "object") && (curr !== null) && !done.has(curr)) {
+            done.add(curr);
+
             if (Array.isArray(curr)) {
                 for (let e of curr) {
-                    this.resolvePointers(json, e);
+                    this.resolvePointers(json, e, done);
                 }
             } else {
                 for (let [k, v] of Object.entries(curr)) {
-                    if (k == "$ref") {
+                    if ((k == "$ref") && (typeof v == "string")) {
                         let rv = JSONPointer.resolveThrow(v, json);
 
                         curr[k] = rv;
 
+                        /*The target may be a reference too.*/
+                        this.resolvePointers(json, rv, done);
+
                         for (let [ek, ev] of Object.entries(rv)) {
                             if (curr[ek] === undefined)
                                 curr[ek] = ev;
                         }
                     } else {
-                        this.resolvePointers(json, v);
+                        this.resolvePointers(json, v, done);
                     }
                 }
             }
-- 
2.43.0


From a662da2c2e480eb050bfddfea787809387b600b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:59 +0000
Subject: [PATCH 90/94] fix: JSON pointers resolve as RFC 6901 prescribes

---
 module/json-pointer.js | 52 ++++++++++++------------------------------
 1 file changed, 15 insertions(+), 37 deletions(-)

diff --git a/module/json-pointer.js b/module/json-pointer.js
index 982da5b..c320c3d 100644
--- a/module/json-pointer.js
+++ b/module/json-pointer.js
@@ -82,47 +82,23 @@ export class JSONPointer {
             dn  = src.slice(0, idx);
             ptr = src.slice(idx + 1);
 
-            if (ptr.length == 0)
-                ptr = "/";
         } else {
             dn  = src;
-            ptr = "/";
+            ptr = "";
         }
 
         if (dn.length > 0)
             this.filename = dn;
 
-        let p = 0;
-        if (ptr[p] == "/")
-            ptr = ptr.slice(1);
-
-        let seg = "";
-        while (ptr.length > 0) {
-            let match = ptr.match(/~0|~1|\//);
+        /*An empty pointer is the whole document.*/
+        if (ptr.length == 0)
+            return;
 
-            if (match == null) {
-                seg += ptr;
-                this.#pointers.push(seg);
-                break;
-            } else {
-                seg += ptr.slice(0, match.index);
-
-                switch(match[0]) {
-                case "~0":
-                    seg += "~";
-                    break;
-                case "~1":
-                    seg += "/";
-                    break;
-                case "/":
-                    this.#pointers.push(seg);
-                    seg = "";
-                    break;
-                }
+        if (ptr[0] == "/")
+            ptr = ptr.slice(1);
 
-                ptr = ptr.slice(match.index + match[0].length);
-            }
-        }
+        for (let seg of ptr.split("/"))
+            this.#pointers.push(seg.replaceAll("~1", "/").replaceAll("~0", "~"));
     };
 
     /**
@@ -134,14 +110,16 @@ export class JSONPointer {
         let res;
 
         if (this.filename == undefined) {
-            if (curr == undefined)
+            if (curr === undefined)
                 this.error("base value cannot be undefined");
 
             res = curr;
         } else {
-            res = JSONManager.lookup(this.filename);
-            if (res == null)
+            let path = JSONManager.lookup(this.filename);
+            if (path == null)
                 this.error(`cannot find ${this.filename}`);
+
+            res = JSONManager.load(path);
         }
 
         for (let ptr of this.#pointers) {
@@ -154,7 +132,7 @@ export class JSONPointer {
                 }
 
                 res = res[ptr];
-            } else if (typeof res == "object") {
+            } else if ((typeof res == "object") && (res !== null) && Object.hasOwn(res, ptr)) {
                 res = res[ptr];
             } else {
                 res = undefined;
@@ -173,7 +151,7 @@ export class JSONPointer {
      */
     resolveThrow (curr) {
         let res = this.resolve(curr);
-        if (res == undefined)
+        if (res === undefined)
             this.error(`invalid pointer`);
 
         return res;
-- 
2.43.0


From 59ed881528d5a4bf6e69cd4a9e9286c99d15eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:02 +0000
Subject: [PATCH 91/94] fix: the JSON schema validator compares and applies
 subschemas as JSON Schema prescribes

---
 module/json-schema.js | 111 ++++++++++++++++++++++++++----------------
 1 file changed, 70 insertions(+), 41 deletions(-)

diff --git a/module/json-schema.js b/module/json-schema.js
index a6e9506..97a9b6e 100644
--- a/module/json-schema.js
+++ b/module/json-schema.js
@@ -45,6 +45,41 @@ export class ValidateError extends Error {
  * @private
  */
 class JSONSchemaContext {
+    /**
+     * Get the text of a JSON value for the message.
+     * @param {*} v The value.
+     * @returns {string} The text.
+     */
+    static text (v) {
+        try {
+            return JSON.stringify(v);
+        } catch (e) {
+            return "value";
+        }
+    };
+
+    /**
+     * Check if 2 JSON values are equal.
+     * @param {*} a Value 1.
+     * @param {*} b Value 2.
+     * @returns {boolean} true means the values are equal.
+     */
+    static equal (a, b) {
+        if (a === b)
+            return true;
+
+        if ((typeof a != "object") || (typeof b != "object") || (a === null) || (b === null))
+            return false;
+
+        if (Array.isArray(a) != Array.isArray(b))
+            return false;
+
+        let keys = Object.keys(a);
+
+        return (keys.length == Object.keys(b).length)
+                && keys.every(k => Object.hasOwn(b, k) && JSONSchemaContext.equal(a[k], b[k]));
+    };
+
     /**
      * JSON schema object.
      * @type {Object}
@@ -149,7 +184,7 @@ class JSONSchemaContext {
 
         len = this.schema.maxLength;
         if (len != undefined) {
-            if (v.length > len) {
+            if ([...v].length > len) {
                 this.fail(`length of "${v}" > maximum length ${len}`);
                 return false;
             }
@@ -157,7 +192,7 @@ class JSONSchemaContext {
 
         len = this.schema.minLength;
         if (len != undefined) {
-            if (v.length < len) {
+            if ([...v].length < len) {
                 this.fail(`length of "${v}" < minimum length ${len}`);
                 return false;
             }
@@ -165,8 +200,7 @@ class JSONSchemaContext {
 
         let pat = this.schema.pattern;
         if (pat != undefined) {
-            let mr = v.match(new RegExp(this.schema.pattern));
-            if ((mr == null) || (mr[0] != v)) {
+            if (!new RegExp(pat, "u").test(v)) {
                 this.fail(`"${v}" mismatch the pattern "${pat}"`);
                 return false;
             }
@@ -187,6 +221,9 @@ class JSONSchemaContext {
         items = this.schema.prefixItems;
         if (items != undefined) {
             for (let item of items) {
+                if (idx >= v.length)
+                    break;
+
                 let ctxt = new JSONSchemaContext(item, `${this.tag}[${idx}]`);
 
                 if (!ctxt.validate(v[idx])) {
@@ -246,14 +283,13 @@ class JSONSchemaContext {
 
         let unique = this.schema.uniqueItems;
         if ((unique != undefined) && unique) {
-            let set = new Set();
-
-            for (let item of v) {
-                if (set.has(item)) {
-                    this.fail(`array's items are not unique`);
-                    return false;
+            for (let i = 1; i < v.length; i ++) {
+                for (let j = 0; j < i; j ++) {
+                    if (JSONSchemaContext.equal(v[i], v[j])) {
+                        this.fail(`array's items are not unique`);
+                        return false;
+                    }
                 }
-                set.add(item);
             }
         }
 
@@ -277,12 +313,10 @@ class JSONSchemaContext {
                 }
             }
 
-            let min = this.schema.minContains;
-            if (min != undefined) {
-                if (cn < min) {
-                    this.fail(`contains number ${cn} < minimum contains number ${min}`);
-                    return false;
-                }
+            let min = this.schema.minContains ?? 1;
+            if (cn < min) {
+                this.fail(`contains number ${cn} < minimum contains number ${min}`);
+                return false;
             }
         }
 
@@ -321,34 +355,29 @@ class JSONSchemaContext {
                 }
             }
 
-            let sch;
+            let schs = [];
 
-            if (props != undefined) {
-                let prop = props[pn];
-                if (prop != undefined)
-                    sch = new JSONSchemaContext(prop);
-            }
+            if ((props != undefined) && Object.hasOwn(props, pn))
+                schs.push(new JSONSchemaContext(props[pn]));
 
-            if ((sch == undefined) && (patProps != undefined)) {
+            if (patProps != undefined) {
                 for (let pat of Object.getOwnPropertyNames(patProps)) {
-                    let mr = pn.match(new RegExp(pat));
-                    if ((mr != null) && (mr[0] == pn))
-                        sch = new JSONSchemaContext(patProps[pat]);
+                    if (new RegExp(pat, "u").test(pn))
+                        schs.push(new JSONSchemaContext(patProps[pat]));
                 }
             }
-            if (sch == undefined) {
+            if (schs.length == 0) {
                 if ((pn == "$ref") || (pn == "$schema"))
-                    sch = new JSONSchemaContext({type: "string"});
+                    schs.push(new JSONSchemaContext({type: "string"}));
                 else if (pn == "$ref")
-                    sch = new JSONSchemaContext(true);
-            }
-            if ((sch == undefined) && (addValidator != undefined))
-                sch = addValidator;
-            if ((sch == undefined) && (unevalValidator != undefined)) {
-                sch = unevalValidator;
+                    schs.push(new JSONSchemaContext(true));
             }
+            if ((schs.length == 0) && (addValidator != undefined))
+                schs.push(addValidator);
+            if ((schs.length == 0) && (unevalValidator != undefined))
+                schs.push(unevalValidator);
 
-            if (sch != undefined) {
+            for (let sch of schs) {
                 sch.tag = `${this.tag}.${pn}`;
                 if (!sch.validate(v[pn])) {
                     this.message = sch.message;
@@ -584,21 +613,21 @@ class JSONSchemaContext {
             let match = false;
 
             for (let ev of this.schema.enum) {
-                if (ev === v) {
+                if (JSONSchemaContext.equal(ev, v)) {
                     match = true;
                     break;
                 }
             }
 
             if (!match) {
-                this.fail(`${v} is not in [${this.schema.enum}]`);
+                this.fail(`${JSONSchemaContext.text(v)} is not in ${JSONSchemaContext.text(this.schema.enum)}`);
                 return false;
             }
         }
 
-        if (this.schema.const != undefined) {
-            if (v !== this.schema.const) {
-                this.fail(`${v} != const ${this.schema.const}`);
+        if (this.schema.const !== undefined) {
+            if (!JSONSchemaContext.equal(v, this.schema.const)) {
+                this.fail(`${JSONSchemaContext.text(v)} != const ${JSONSchemaContext.text(this.schema.const)}`);
                 return false;
             }
         }
-- 
2.43.0


From e8c20c8d298056ea96ccff493f2ccb2d1d75ee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:07 +0000
Subject: [PATCH 92/94] fix: file reads and writes use the given part of the
 buffer that was given

---
 src/lib/rjs_extension_opt.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index c7b9132..47c3c92 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -1021,8 +1021,9 @@ static RJS_NF(File_prototype_read)
             goto end;
         }
 
-        buf = rjs_data_block_get_buffer(db);
+        buf = (uint8_t*)rjs_data_block_get_buffer(db) + posi;
 
+        clearerr(file->fp);
         rn = fread(buf, 1, cnti, file->fp);
 
         if ((rn == 0) && ferror(file->fp)) {
@@ -1096,8 +1097,9 @@ static RJS_NF(File_prototype_write)
             goto end;
         }
 
-        buf = rjs_data_block_get_buffer(db);
+        buf = (uint8_t*)rjs_data_block_get_buffer(db) + posi;
 
+        clearerr(file->fp);
         rn = fwrite(buf, 1, cnti, file->fp);
 
         if ((rn != cnti) && ferror(file->fp)) {
@@ -1662,7 +1664,7 @@ file_save_data (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv, co
         goto end;
     }
 
-    if (!(db = rjs_array_buffer_get_data_block(rt, rv))) {
+    if (!(db = rjs_array_buffer_get_data_block(rt, abuf))) {
         r = rjs_throw_type_error(rt, _("the array buffer is detached"));
         goto end;
     }
-- 
2.43.0


From c14b8da9f07d6fdaf39e8a72fd0336aed643c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:12 +0000
Subject: [PATCH 93/94] fix: seek takes negative offsets, the end of the file
 is -1, reading a write-only file throws, new FileState works

---
 src/lib/rjs_extension_opt.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 47c3c92..78ec843 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -772,7 +772,7 @@ static RJS_NF(FileState_constructor)
     }
 
     if (nt) {
-        if ((r = rjs_constructor_prototype(rt, nt, cproto)) == RJS_ERR)
+        if ((r = rjs_get(rt, nt, rjs_pn_prototype(rt), cproto)) == RJS_ERR)
             goto end;
 
         if (!rjs_value_is_object(rt, cproto))
@@ -1123,7 +1123,7 @@ static RJS_NF(File_prototype_seek)
 {
     RJS_Value *offset = rjs_argument_get(rt, args, argc, 0);
     RJS_Value *whence = rjs_argument_get(rt, args, argc, 1);
-    int64_t    offseti;
+    RJS_Number offsetn;
     int32_t    whencei;
     RJS_File  *file;
     RJS_Result r;
@@ -1139,13 +1139,18 @@ static RJS_NF(File_prototype_seek)
         goto end;
     }
 
-    if ((r = rjs_to_index(rt, offset, &offseti)) == RJS_ERR)
+    if ((r = rjs_to_integer_or_infinity(rt, offset, &offsetn)) == RJS_ERR)
         goto end;
 
+    if ((offsetn < -(RJS_Number)RJS_MAX_INT) || (offsetn > (RJS_Number)RJS_MAX_INT)) {
+        r = rjs_throw_range_error(rt, _("illegal file offset"));
+        goto end;
+    }
+
     if ((r = rjs_to_int32(rt, whence, &whencei)) == RJS_ERR)
         goto end;
 
-    if (fseek(file->fp, offseti, whencei) == -1) {
+    if (fseek(file->fp, (long)offsetn, whencei) == -1) {
         r = rjs_throw_type_error(rt, _("fseek failed: %s"), strerror(errno));
         goto end;
     }
@@ -1225,13 +1230,16 @@ static RJS_NF(File_prototype_getChar)
         goto end;
     }
 
+    clearerr(file->fp);
     c = fgetc(file->fp);
-    if (c == EOF) {
-        rjs_value_set_undefined(rt, rv);
-    } else {
-        rjs_value_set_number(rt, rv, c);
+    if ((c == EOF) && ferror(file->fp)) {
+        r = rjs_throw_type_error(rt, _("fgetc failed: %s"), strerror(errno));
+        goto end;
     }
 
+    /*EOF (-1) means the end of the file.*/
+    rjs_value_set_number(rt, rv, (c == EOF) ? -1 : c);
+
     r = RJS_OK;
 end:
     return r;
@@ -1305,10 +1313,17 @@ static RJS_NF(File_prototype_getString)
         ecstr = NULL;
     }
 
+    clearerr(file->fp);
+
     while (1) {
         c = fgetc(file->fp);
-        if (c == EOF)
+        if (c == EOF) {
+            if (ferror(file->fp)) {
+                r = rjs_throw_type_error(rt, _("fgetc failed: %s"), strerror(errno));
+                goto end;
+            }
             break;
+        }
 
         rjs_char_buffer_append_char(rt, &cb, c);
 
-- 
2.43.0


From e126e8b5b680f886efc9c91c96373080ff7ddab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:26 +0000
Subject: [PATCH 94/94] fix: an incomplete character at the end of a text is
 not dropped, an unknown encoding throws an error

---
 src/lib/include/rjs_conv.h      |  1 +
 src/lib/rjs_conv.c              |  3 +++
 src/lib/rjs_conv_iconv_opt.c    |  2 ++
 src/lib/rjs_conv_icu_opt.c      |  3 ++-
 src/lib/rjs_conv_internal_opt.c |  2 ++
 src/lib/rjs_extension_opt.c     | 40 ++++++++++++++++++++++++++++-----
 src/lib/rjs_string.c            | 16 +++++++------
 7 files changed, 54 insertions(+), 13 deletions(-)

diff --git a/src/lib/include/rjs_conv.h b/src/lib/include/rjs_conv.h
index ec9bc96..d89865d 100644
--- a/src/lib/include/rjs_conv.h
+++ b/src/lib/include/rjs_conv.h
@@ -78,6 +78,7 @@ typedef struct {
     const RJS_EncOps *enc_in;  /**< Input encoding.*/
     const RJS_EncOps *enc_out; /**< Output encoding.*/
 #endif
+    RJS_Bool    flush;        /**< No more input follows.*/
 } RJS_Conv;
 
 /**
diff --git a/src/lib/rjs_conv.c b/src/lib/rjs_conv.c
index 2a905a5..9b13253 100644
--- a/src/lib/rjs_conv.c
+++ b/src/lib/rjs_conv.c
@@ -44,6 +44,9 @@ rjs_conv_to_buffer (RJS_Runtime *rt, RJS_Conv *conv, const char *in,
     RJS_Result r;
     RJS_Bool   overflow = RJS_FALSE;
 
+    /*All the input is here, an incomplete character at the end is an error.*/
+    conv->flush = RJS_TRUE;
+
     while (in_len || overflow) {
         size_t c_old, cn;
 
diff --git a/src/lib/rjs_conv_iconv_opt.c b/src/lib/rjs_conv_iconv_opt.c
index a108e2b..1a04649 100644
--- a/src/lib/rjs_conv_iconv_opt.c
+++ b/src/lib/rjs_conv_iconv_opt.c
@@ -43,6 +43,8 @@ rjs_conv_init (RJS_Runtime *rt, RJS_Conv *conv, const char *enc_in, const char *
         return RJS_ERR;
     }
 
+    conv->flush = RJS_FALSE;
+
     return RJS_OK;
 }
 
diff --git a/src/lib/rjs_conv_icu_opt.c b/src/lib/rjs_conv_icu_opt.c
index 4e956d2..b7ed65b 100644
--- a/src/lib/rjs_conv_icu_opt.c
+++ b/src/lib/rjs_conv_icu_opt.c
@@ -54,6 +54,7 @@ rjs_conv_init (RJS_Runtime *rt, RJS_Conv *conv, const char *enc_in, const char *
 
     conv->pivot_source = conv->pivot;
     conv->pivot_target = conv->pivot;
+    conv->flush        = RJS_FALSE;
 
     return RJS_OK;
 }
@@ -87,7 +88,7 @@ rjs_conv_run (RJS_Runtime *rt, RJS_Conv *conv, const char **in,
 
     ucnv_convertEx(conv->target, conv->source, &t, tlim, &s, slim,
             conv->pivot, &conv->pivot_source, &conv->pivot_target, plim,
-            0, 0, &err);
+            0, conv->flush, &err);
 
     *in       = s;
     *out      = t;
diff --git a/src/lib/rjs_conv_internal_opt.c b/src/lib/rjs_conv_internal_opt.c
index 16af330..0b603f4 100644
--- a/src/lib/rjs_conv_internal_opt.c
+++ b/src/lib/rjs_conv_internal_opt.c
@@ -328,6 +328,8 @@ rjs_conv_init (RJS_Runtime *rt, RJS_Conv *conv, const char *enc_in, const char *
     if (!(conv->enc_out = enc_lookup(enc_out)))
         return RJS_ERR;
 
+    conv->flush = RJS_FALSE;
+
     return RJS_OK;
 }
 
diff --git a/src/lib/rjs_extension_opt.c b/src/lib/rjs_extension_opt.c
index 78ec843..4035ba2 100644
--- a/src/lib/rjs_extension_opt.c
+++ b/src/lib/rjs_extension_opt.c
@@ -63,6 +63,30 @@ static RJS_NF(ext_prerr)
     return print_to_file(rt, args, argc, stderr);
 }
 
+/*Encode the string, throw an error when it cannot be encoded.*/
+static const char*
+ext_encode (RJS_Runtime *rt, RJS_Value *str, RJS_CharBuffer *cb, const char *enc)
+{
+    const char *cstr = rjs_string_to_enc_chars(rt, str, cb, enc);
+
+    if (!cstr)
+        rjs_throw_type_error(rt, _("cannot encode the string as \"%s\""), enc ? enc : "UTF-8");
+
+    return cstr;
+}
+
+/*Decode the characters, throw an error when they cannot be decoded.*/
+static RJS_Result
+ext_decode (RJS_Runtime *rt, RJS_Value *rv, const char *chars, size_t len, const char *enc)
+{
+    RJS_Result r = rjs_string_from_enc_chars(rt, rv, chars, len, enc);
+
+    if (r == RJS_ERR)
+        r = rjs_throw_type_error(rt, _("cannot decode the characters as \"%s\""), enc ? enc : "UTF-8");
+
+    return r;
+}
+
 /*Get the directory name.*/
 static RJS_NF(ext_dirname)
 {
@@ -436,7 +460,7 @@ static RJS_NF(ext_encodeText)
     }
 
     /*Encode.*/
-    if (!(cstr = rjs_string_to_enc_chars(rt, str, &scb, ecstr))) {
+    if (!(cstr = ext_encode(rt, str, &scb, ecstr))) {
         r = RJS_ERR;
         goto end;
     }
@@ -561,7 +585,7 @@ static RJS_NF(ext_decodeText)
     db = rjs_array_buffer_get_data_block(rt, buf);
 
     rjs_array_buffer_lock(rt, buf);
-    r = rjs_string_from_enc_chars(rt, rv, (char*)db->data + from, len, ecstr);
+    r = ext_decode(rt, rv, (char*)db->data + from, len, ecstr);
     rjs_array_buffer_unlock(rt, buf);
     if (r == RJS_ERR)
         goto end;
@@ -1331,7 +1355,7 @@ static RJS_NF(File_prototype_getString)
             break;
     }
 
-    r = rjs_string_from_enc_chars(rt, rv, cb.items, cb.item_num, ecstr);
+    r = ext_decode(rt, rv, cb.items, cb.item_num, ecstr);
 end:
     rjs_char_buffer_deinit(rt, &cb);
     rjs_value_stack_restore(rt, top);
@@ -1378,7 +1402,10 @@ static RJS_NF(File_prototype_putString)
         ecstr = NULL;
     }
 
-    pcstr = rjs_string_to_enc_chars(rt, pstr, &pcb, ecstr);
+    if (!(pcstr = ext_encode(rt, pstr, &pcb, ecstr))) {
+        r = RJS_ERR;
+        goto end;
+    }
 
     n = fwrite(pcstr, 1, pcb.item_num, file->fp);
     if (n != pcb.item_num) {
@@ -1566,7 +1593,10 @@ file_save_string (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv,
         ecstr = NULL;
     }
 
-    ocstr = rjs_string_to_enc_chars(rt, ostr, &ocb, ecstr);
+    if (!(ocstr = ext_encode(rt, ostr, &ocb, ecstr))) {
+        r = RJS_ERR;
+        goto end;
+    }
 
     if (fwrite(ocstr, 1, ocb.item_num, fp) != ocb.item_num) {
         r = rjs_throw_type_error(rt, _("fwrite failed: %s"), strerror(errno));
diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index 172fc9e..630cc38 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -332,22 +332,21 @@ rjs_string_from_file (RJS_Runtime *rt, RJS_Value *str, const char *fn, const cha
         size_t      in_left, out_left, out_cap;
 
         n = fread(buf + left, 1, sizeof(buf) - left, fp);
-        if (!n) {
-            if (feof(fp) && !left)
-                break;
-
+        if (!n && (left < sizeof(buf))) {
             if (ferror(fp)) {
                 RJS_LOGE("file read error");
                 r = RJS_ERR;
                 goto end;
             }
+
+            conv.flush = RJS_TRUE;
         }
 
         left += n;
 
         out_left = ucb.item_cap - ucb.item_num;
-        if (out_left < left) {
-            size_t cap = RJS_MAX(ucb.item_num + left, ucb.item_cap * 2);
+        if (out_left < left + 32) {
+            size_t cap = RJS_MAX(ucb.item_num + left + 32, ucb.item_cap * 2);
 
             rjs_vector_set_capacity(&ucb, cap, rt);
 
@@ -364,13 +363,16 @@ rjs_string_from_file (RJS_Runtime *rt, RJS_Value *str, const char *fn, const cha
             goto end;
 
         out_left /= sizeof(RJS_UChar);
-        if (out_left == out_cap) {
+        if ((out_left == out_cap) && left && (in_left == left)) {
             r = RJS_ERR;
             goto end;
         }
 
         ucb.item_num = ucb.item_cap - out_left;
 
+        if (conv.flush && !in_left && (r != RJS_FALSE))
+            break;
+
         if (in_left)
             memmove(buf, buf + left - in_left, in_left);
 
-- 
2.43.0

