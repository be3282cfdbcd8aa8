From b8c8f2ad2b4e3fe07756c7b34ac309f6714e7a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 001/126] fix: compound assignment left its lvalue on the value
 stack

An enclosing binary operator popped it as its other operand.
---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 8a174ba..79e6331 100644
--- a/parser.c
+++ b/parser.c
@@ -1995,7 +1995,7 @@ Value *prep_comp_assign(void) {
     if (!vtop()->is_lvalue) error("Cannot assign to an rvalue");
     if (!type_is_modifiable(vtop()->type)) error("Cannot assign to read-only variable");
 
-    Value *v1 = vtop();           // lvalue
+    Value *v1 = pop();          // lvalue
     push(load(dup_value(v1)));  // rvalue
     return v1;
 }
-- 
2.43.0


From 768c9e46e5067df5897b1958c96dd8b491fc4ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:01 +0000
Subject: [PATCH 002/126] fix: jumps on a memory operand compared four bytes
 whatever its size

cmp without a size suffix is cmpl, so a zero test of a char, short or long in
memory looked at the wrong bytes.
---
 instrrules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 221e446..604fa1c 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1676,11 +1676,11 @@ void define_rules(void) {
 
     add_conditional_zero_jump_rule(IR_JZ,  XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
-    add_conditional_zero_jump_rule(IR_JZ,  XMI, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jz %v1",   1);
+    add_conditional_zero_jump_rule(IR_JZ,  XMI, LAB, 3, X_CMPZ, "cmp%s $0, %v1",     "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  RPF, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JNZ, XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
-    add_conditional_zero_jump_rule(IR_JNZ, XMI, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jnz %v1",  1);
+    add_conditional_zero_jump_rule(IR_JNZ, XMI, LAB, 3, X_CMPZ, "cmp%s $0, %v1",     "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, RPF, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
 
     // Integer comparisons
-- 
2.43.0


From a49bceba0fbc79941540ef79aa053af8709ff829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:20 +0000
Subject: [PATCH 003/126] fix: constant folding followed neither the usual
 conversions nor long width

The sign came from the left operand only, && and || were done bitwise on
ints, a divisor was truncated to int, shifts took the common type, literal
suffixes were lost and unary operators always made an int.
---
 constexpr.c | 63 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 0182a4c..1eb47e0 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -25,10 +25,9 @@ Value *evaluate_const_unary_int_operation(int operation, Value *value) {
 
     // Perform integer promotions everywhere except for logical not,
     Value *v = new_value();
-    v->type = IR_LNOT ? new_type(TYPE_INT) : integer_promote_type(value->type);
-    v->type->is_unsigned = value->type->is_unsigned;
+    v->type = operation == IR_LNOT ? new_type(TYPE_INT) : dup_type(integer_promote_type(value->type));
     v->is_constant = 1;
-    v->int_value = r;
+    v->int_value = v->type->type == TYPE_LONG ? r : v->type->is_unsigned ? (unsigned int) r : (int) r;
 
     return v;
 }
@@ -45,7 +44,7 @@ Value *evaluate_const_unary_fp_operation(int operation, Value *value) {
 
     // Perform integer promotions everywhere except for logical not,
     Value *v = new_value();
-    v->type = IR_LNOT ? new_type(TYPE_INT) : value->type;
+    v->type = operation == IR_LNOT ? new_type(TYPE_INT) : value->type;
     v->is_constant = 1;
     if (is_int) v->int_value = i; else v->fp_value = ld;
 
@@ -53,8 +52,15 @@ Value *evaluate_const_unary_fp_operation(int operation, Value *value) {
 }
 
 Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *src2) {
-    int is_unsigned = src1->type->is_unsigned;
-    int is_long = src1->type->type == TYPE_LONG || src2->type->type == TYPE_LONG;
+    int is_shift = operation == IR_BSHL || operation == IR_BSHR || operation == IR_ASHR;
+    int is_comparison = operation == IR_EQ || operation == IR_NE || operation == IR_LT || operation == IR_GT || operation == IR_LE || operation == IR_GE;
+    int is_logical = operation == IR_LAND || operation == IR_LOR;
+
+    // The type of a shift is that of the promoted left operand, all others do the usual arithmetic conversions
+    Type *type = is_shift && is_integer_type(src1->type) ? integer_promote_type(src1->type) : operation_type(src1, src2, 0);
+
+    int is_unsigned = type->is_unsigned || is_pointer_type(type);
+    int is_long = type->type == TYPE_LONG || is_pointer_type(type);
 
     int ui =  is_unsigned && !is_long;
     int ul =  is_unsigned &&  is_long;
@@ -71,25 +77,34 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
     int           s2si = (int)           src2->int_value;
     long          s2sl = (long)          src2->int_value;
 
+    // Operations that have the same result, regardless of sign, are done on unsigned longs and
+    // truncated afterwards.
     unsigned long r = 0;
 
-    int divisor = ui ? s2ui : ul ? s2ul : si ? s2si : s2sl;
-    if (operation == IR_DIV && divisor == 0) error("Division by zero");
-    if (operation == IR_MOD && divisor == 0) error("Modulus by zero");
+    if (operation == IR_DIV || operation == IR_MOD) {
+        int divisor_is_zero = is_long ? s2ul == 0 : s2ui == 0;
+        if (operation == IR_DIV && divisor_is_zero) error("Division by zero");
+        if (operation == IR_MOD && divisor_is_zero) error("Modulus by zero");
+    }
 
-         if (operation == IR_ADD ) { if (ui) r = s1ui +  s2ui; else if (ul) r = s1ul +  s2ul; else if (si) r = s1si +  s2si; else if (sl) r = s1sl +  s2sl; }
-    else if (operation == IR_SUB ) { if (ui) r = s1ui -  s2ui; else if (ul) r = s1ul -  s2ul; else if (si) r = s1si -  s2si; else if (sl) r = s1sl -  s2sl; }
-    else if (operation == IR_MUL ) { if (ui) r = s1ui *  s2ui; else if (ul) r = s1ul *  s2ul; else if (si) r = s1si *  s2si; else if (sl) r = s1sl *  s2sl; }
+    int is_minus_one_divisor = si && s2si == -1 || sl && s2sl == -1;
+    int shift = src2->int_value & (is_long ? 63 : 31);
+
+         if (operation == IR_ADD ) r = s1ul + s2ul;
+    else if (operation == IR_SUB ) r = s1ul - s2ul;
+    else if (operation == IR_MUL ) r = s1ul * s2ul;
+    else if (operation == IR_DIV && is_minus_one_divisor) r = -s1ul;
+    else if (operation == IR_MOD && is_minus_one_divisor) r = 0;
     else if (operation == IR_DIV ) { if (ui) r = s1ui /  s2ui; else if (ul) r = s1ul /  s2ul; else if (si) r = s1si /  s2si; else if (sl) r = s1sl /  s2sl; }
     else if (operation == IR_MOD ) { if (ui) r = s1ui %  s2ui; else if (ul) r = s1ul %  s2ul; else if (si) r = s1si %  s2si; else if (sl) r = s1sl %  s2sl; }
-    else if (operation == IR_LAND) { if (ui) r = s1ui &  s2ui; else if (ul) r = s1ul && s2ul; else if (si) r = s1si &  s2si; else if (sl) r = s1sl && s2sl; }
-    else if (operation == IR_LOR ) { if (ui) r = s1ui |  s2ui; else if (ul) r = s1ul || s2ul; else if (si) r = s1si |  s2si; else if (sl) r = s1sl || s2sl; }
-    else if (operation == IR_BAND) { if (ui) r = s1ui &  s2ui; else if (ul) r = s1ul &  s2ul; else if (si) r = s1si &  s2si; else if (sl) r = s1sl &  s2sl; }
-    else if (operation == IR_BOR ) { if (ui) r = s1ui |  s2ui; else if (ul) r = s1ul |  s2ul; else if (si) r = s1si |  s2si; else if (sl) r = s1sl |  s2sl; }
-    else if (operation == IR_XOR ) { if (ui) r = s1ui ^  s2ui; else if (ul) r = s1ul ^  s2ul; else if (si) r = s1si ^  s2si; else if (sl) r = s1sl ^  s2sl; }
-    else if (operation == IR_BSHL) { if (ui) r = s1ui << s2ui; else if (ul) r = s1ul << s2ul; else if (si) r = s1si << s2si; else if (sl) r = s1sl << s2sl; }
-    else if (operation == IR_BSHR) { if (ui) r = s1ui >> s2ui; else if (ul) r = s1ul >> s2ul; else if (si) r = s1si >> s2si; else if (sl) r = s1sl >> s2sl; }
-    else if (operation == IR_ASHR) { if (ui) r = s1ui >> s2ui; else if (ul) r = s1ul >> s2ul; else if (si) r = s1si >> s2si; else if (sl) r = s1sl >> s2sl; }
+    else if (operation == IR_LAND) r = src1->int_value && src2->int_value;
+    else if (operation == IR_LOR ) r = src1->int_value || src2->int_value;
+    else if (operation == IR_BAND) r = s1ul & s2ul;
+    else if (operation == IR_BOR ) r = s1ul | s2ul;
+    else if (operation == IR_XOR ) r = s1ul ^ s2ul;
+    else if (operation == IR_BSHL) r = s1ul << shift;
+    else if (operation == IR_BSHR || operation == IR_ASHR)
+                                   { if (ui) r = s1ui >> shift; else if (ul) r = s1ul >> shift; else if (si) r = s1si >> shift; else if (sl) r = s1sl >> shift; }
     else if (operation == IR_EQ  ) { if (ui) r = s1ui == s2ui; else if (ul) r = s1ul == s2ul; else if (si) r = s1si == s2si; else if (sl) r = s1sl == s2sl; }
     else if (operation == IR_NE  ) { if (ui) r = s1ui != s2ui; else if (ul) r = s1ul != s2ul; else if (si) r = s1si != s2si; else if (sl) r = s1sl != s2sl; }
     else if (operation == IR_LT  ) { if (ui) r = s1ui <  s2ui; else if (ul) r = s1ul <  s2ul; else if (si) r = s1si <  s2si; else if (sl) r = s1sl <  s2sl; }
@@ -99,10 +114,9 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
     else return 0;
 
     Value *v = new_value();
-    v->type = operation_type(src1, src2, 0);
-    v->type->is_unsigned = is_unsigned;
+    v->type = is_comparison || is_logical ? new_type(TYPE_INT) : dup_type(type);
     v->is_constant = 1;
-    v->int_value = r;
+    v->int_value = is_comparison || is_logical ? r : is_long ? r : is_unsigned ? (unsigned int) r : (int) r;
 
     return v;
 }
@@ -345,6 +359,7 @@ Value *parse_constant_expression(int level) {
 
         case TOK_INTEGER:
             value = new_integral_constant(integers_are_longs ? TYPE_LONG : cur_lexer_type->type, cur_long);
+            value->type->is_unsigned = cur_lexer_type->is_unsigned;
             next();
             break;
 
@@ -473,6 +488,8 @@ Value *parse_constant_integer_expression(int all_longs) {
     integers_are_longs = all_longs;
 
     Value *value = parse_constant_expression(TOK_EQ);
+    integers_are_longs = 0;
+
     if (!value->is_constant) error("Expected a constant expression");
     if (!is_integer_type(value->type)) error("Expected an integer constant expression");
     return value;
-- 
2.43.0


From f071538aef4e08997ec3c72deaaaaa7391592fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 004/126] fix: wrong precedence of << under relational and of
 postfix under multiplicative operators

a < b << c parsed as (a < b) << c, and a * b++ as (a * b)++.
---
 constexpr.c | 14 +++++++-------
 parser.c    | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 1eb47e0..feee553 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -452,17 +452,17 @@ Value *parse_constant_expression(int level) {
 
                 break;
 
-            case TOK_MULTIPLY:       value = parse_binary_expression(IR_MUL,  TOK_DOT,          value); break;
-            case TOK_DIVIDE:         value = parse_binary_expression(IR_DIV,  TOK_DOT,          value); break;
-            case TOK_MOD:            value = parse_binary_expression(IR_MOD,  TOK_DOT,          value); break;
+            case TOK_MULTIPLY:       value = parse_binary_expression(IR_MUL,  TOK_INC,          value); break;
+            case TOK_DIVIDE:         value = parse_binary_expression(IR_DIV,  TOK_INC,          value); break;
+            case TOK_MOD:            value = parse_binary_expression(IR_MOD,  TOK_INC,          value); break;
             case TOK_PLUS:           value = parse_binary_expression(IR_ADD,  TOK_MULTIPLY,     value); break;
             case TOK_MINUS:          value = parse_binary_expression(IR_SUB,  TOK_MULTIPLY,     value); break;
             case TOK_BITWISE_RIGHT:  value = parse_binary_expression(IR_BSHR, TOK_PLUS,         value); break;
             case TOK_BITWISE_LEFT:   value = parse_binary_expression(IR_BSHL, TOK_PLUS,         value); break;
-            case TOK_LT:             value = parse_binary_expression(IR_LT,   TOK_BITWISE_RIGHT,value); break;
-            case TOK_GT:             value = parse_binary_expression(IR_GT,   TOK_BITWISE_RIGHT,value); break;
-            case TOK_LE:             value = parse_binary_expression(IR_LE,   TOK_BITWISE_RIGHT,value); break;
-            case TOK_GE:             value = parse_binary_expression(IR_GE,   TOK_BITWISE_RIGHT,value); break;
+            case TOK_LT:             value = parse_binary_expression(IR_LT,   TOK_BITWISE_LEFT,value); break;
+            case TOK_GT:             value = parse_binary_expression(IR_GT,   TOK_BITWISE_LEFT,value); break;
+            case TOK_LE:             value = parse_binary_expression(IR_LE,   TOK_BITWISE_LEFT,value); break;
+            case TOK_GE:             value = parse_binary_expression(IR_GE,   TOK_BITWISE_LEFT,value); break;
             case TOK_DBL_EQ:         value = parse_binary_expression(IR_EQ,   TOK_LT,           value); break;
             case TOK_NOT_EQ:         value = parse_binary_expression(IR_NE,   TOK_LT,           value); break;
             case TOK_AMPERSAND:      value = parse_binary_expression(IR_BAND, TOK_DBL_EQ,       value); break;
diff --git a/parser.c b/parser.c
index 79e6331..95d2ae2 100644
--- a/parser.c
+++ b/parser.c
@@ -2878,17 +2878,17 @@ static void parse_expression(int level) {
             }
 
             // In order of precedence
-            case TOK_MULTIPLY:         next(); parse_arithmetic_operation(TOK_DOT, IR_MUL, 0); break;
-            case TOK_DIVIDE:           next(); parse_arithmetic_operation(TOK_DOT, IR_DIV, 0); break;
-            case TOK_MOD:              next(); parse_arithmetic_operation(TOK_DOT, IR_MOD, 0); break;
+            case TOK_MULTIPLY:         next(); parse_arithmetic_operation(TOK_INC, IR_MUL, 0); break;
+            case TOK_DIVIDE:           next(); parse_arithmetic_operation(TOK_INC, IR_DIV, 0); break;
+            case TOK_MOD:              next(); parse_arithmetic_operation(TOK_INC, IR_MOD, 0); break;
             case TOK_PLUS:             next(); parse_addition(TOK_MULTIPLY, 0); break;
             case TOK_MINUS:            next(); parse_subtraction(TOK_MULTIPLY); break;
             case TOK_BITWISE_RIGHT:    next(); parse_bitwise_shift(TOK_PLUS, IR_BSHR, IR_ASHR); break;
             case TOK_BITWISE_LEFT:     next(); parse_bitwise_shift(TOK_PLUS, IR_BSHL, IR_BSHL); break;
-            case TOK_LT:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_LT,   new_type(TYPE_INT)); break;
-            case TOK_GT:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_GT,   new_type(TYPE_INT)); break;
-            case TOK_LE:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_LE,   new_type(TYPE_INT)); break;
-            case TOK_GE:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_GE,   new_type(TYPE_INT)); break;
+            case TOK_LT:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT, IR_LT,   new_type(TYPE_INT)); break;
+            case TOK_GT:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT, IR_GT,   new_type(TYPE_INT)); break;
+            case TOK_LE:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT, IR_LE,   new_type(TYPE_INT)); break;
+            case TOK_GE:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT, IR_GE,   new_type(TYPE_INT)); break;
             case TOK_DBL_EQ:           next(); parse_arithmetic_operation(TOK_LT,            IR_EQ,   new_type(TYPE_INT)); break;
             case TOK_NOT_EQ:           next(); parse_arithmetic_operation(TOK_LT,            IR_NE,   new_type(TYPE_INT)); break;
             case TOK_AMPERSAND:        next(); parse_arithmetic_operation(TOK_DBL_EQ,        IR_BAND, 0); break;
-- 
2.43.0


From ca2c6175e4e3fa7676ac9523b292a15452171337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:54 +0000
Subject: [PATCH 005/126] fix: switch neither promoted its controlling
 expression nor converted case values to it

The comparison with a case value is also given its proper type, int.
---
 parser.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/parser.c b/parser.c
index 95d2ae2..f2a2c51 100644
--- a/parser.c
+++ b/parser.c
@@ -3076,6 +3076,8 @@ static void parse_switch_statement(void) {
     if (!is_integer_type(controlling_case_value->type))
         error("The controlling expression of a switch statement is not an integral type");
 
+    controlling_case_value = integer_promote(controlling_case_value);
+
     // Add an entry to the implicit switch stack
     case_ir_start = new_instruction(IR_NOP);
     case_ir = case_ir_start;
@@ -3127,9 +3129,10 @@ static void parse_case_statement(void) {
 
     Value *v = parse_constant_integer_expression(0);
 
-    long value = controlling_case_value->type->type == TYPE_INT
-        ? (int) v->int_value
-        : v->int_value;
+    // Convert to the promoted type of the controlling expression
+    long value = v->int_value;
+    if (controlling_case_value->type->type == TYPE_INT)
+        value = controlling_case_value->type->is_unsigned ? (unsigned int) value : (int) value;
 
     // Ensure there are no duplicates
     if (longmap_get(case_values, value))
@@ -3137,11 +3140,8 @@ static void parse_case_statement(void) {
     else
         longmap_put(case_values, value, (void *) 1);
 
-    // Convert to controlling expression type if necessary
-    if (v->type->type != controlling_case_value->type->type) {
-        v->type = dup_type(controlling_case_value->type);
-        v->int_value = value;
-    }
+    v->type = dup_type(controlling_case_value->type);
+    v->int_value = value;
 
     push(v);
     push(controlling_case_value);
@@ -3152,7 +3152,7 @@ static void parse_case_statement(void) {
     // Add comparison & jump to current switch's case IR
     Tac *org_ir = ir;
     ir = case_ir;
-    arithmetic_operation(IR_EQ, controlling_case_value->type);
+    arithmetic_operation(IR_EQ, new_type(TYPE_INT));
     add_conditional_jump(IR_JNZ, ldst);
     case_ir = ir;
     ir = org_ir;
-- 
2.43.0


From ad0a61b8ac989db660dcbac34a06dcb6851af0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:54 +0000
Subject: [PATCH 006/126] fix: zero jumps on a memory operand compare the
 operand's own size

Reworks the rules so that the zero jumps of chars and shorts use the right
size; zero jumps on longs become comparisons beforehand.
---
 instrrules.c | 10 ++++++++--
 ir.c         |  7 +++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 604fa1c..1252b64 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1676,11 +1676,17 @@ void define_rules(void) {
 
     add_conditional_zero_jump_rule(IR_JZ,  XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
-    add_conditional_zero_jump_rule(IR_JZ,  XMI, LAB, 3, X_CMPZ, "cmp%s $0, %v1",     "jz %v1",   1);
+    add_conditional_zero_jump_rule(IR_JZ,  MI1, LAB, 3, X_CMPZ, "cmpb $0, %v1",     "jz %v1",   1);
+    add_conditional_zero_jump_rule(IR_JZ,  MI2, LAB, 3, X_CMPZ, "cmpw $0, %v1",     "jz %v1",   1);
+    add_conditional_zero_jump_rule(IR_JZ,  MI3, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jz %v1",   1);
+    add_conditional_zero_jump_rule(IR_JZ,  MI4, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jz %v1",   1); // Longs are turned into a comparison beforehand
     add_conditional_zero_jump_rule(IR_JZ,  RPF, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JNZ, XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
-    add_conditional_zero_jump_rule(IR_JNZ, XMI, LAB, 3, X_CMPZ, "cmp%s $0, %v1",     "jnz %v1",  1);
+    add_conditional_zero_jump_rule(IR_JNZ, MI1, LAB, 3, X_CMPZ, "cmpb $0, %v1",     "jnz %v1",  1);
+    add_conditional_zero_jump_rule(IR_JNZ, MI2, LAB, 3, X_CMPZ, "cmpw $0, %v1",     "jnz %v1",  1);
+    add_conditional_zero_jump_rule(IR_JNZ, MI3, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jnz %v1",  1);
+    add_conditional_zero_jump_rule(IR_JNZ, MI4, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jnz %v1",  1); // Longs are turned into a comparison beforehand
     add_conditional_zero_jump_rule(IR_JNZ, RPF, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
 
     // Integer comparisons
diff --git a/ir.c b/ir.c
index 7cd46eb..e7c5c67 100644
--- a/ir.c
+++ b/ir.c
@@ -678,7 +678,7 @@ void convert_long_doubles_jz_and_jnz(Function *function) {
     make_vreg_count(function, 0);
 
     for (Tac *ir = function->ir; ir; ir = ir->next) {
-        if ((ir->operation == IR_JZ || ir->operation == IR_JNZ) && is_floating_point_type(ir->src1->type)) {
+        if ((ir->operation == IR_JZ || ir->operation == IR_JNZ) && (is_floating_point_type(ir->src1->type) || ir->src1->type->type == TYPE_LONG)) {
             ir->operation = ir->operation == IR_JZ ? IR_EQ : IR_NE;
             Tac *tac = new_instruction(IR_JNZ);
             tac->operation = IR_JNZ;
@@ -687,7 +687,10 @@ void convert_long_doubles_jz_and_jnz(Function *function) {
             ir->dst->vreg = ++function->vreg_count;
             tac->src1 = ir->dst;
             tac->src2 = ir->src2;
-            ir->src2 = new_floating_point_constant(ir->src1->type->type, 0.0L);
+            if (is_floating_point_type(ir->src1->type))
+                ir->src2 = new_floating_point_constant(ir->src1->type->type, 0.0L);
+            else
+                ir->src2 = new_integral_constant(TYPE_LONG, 0); // The zero jump on memory operands only deals with integers up to four bytes
             ir = insert_instruction_after(ir, tac);
         }
     }
-- 
2.43.0


From 0236431ad3a745097d5074b07d15e759bee61355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:54 +0000
Subject: [PATCH 007/126] fix: multiplications, divisions and moduli by
 constant powers of two

Negative constants looped forever or were mistaken for powers of two, and a
signed modulus was turned into a bitwise and even though the dividend can be
negative.
---
 parser.c | 11 +++++++++++
 ssa.c    | 13 +++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/parser.c b/parser.c
index f2a2c51..51ceb65 100644
--- a/parser.c
+++ b/parser.c
@@ -1375,6 +1375,17 @@ static void arithmetic_operation(int operation, Type *dst_type) {
         src2 = float_type_change(src2);
     }
 
+    if (operation == IR_MOD && !common_type->is_unsigned && !src1->is_constant && src2->is_constant && (src2->int_value & (src2->int_value - 1)) == 0) {
+        // A modulus of a power of two is turned into a bitwise and, which is wrong for negative
+        // dividends. Calculate it using a - (a / b) * b.
+        add_ir_op(IR_DIV, dst_type, new_vreg(), src1, src2);
+        Value *quotient = pop();
+        add_ir_op(IR_MUL, dst_type, new_vreg(), quotient, src2);
+        Value *product = pop();
+        add_ir_op(IR_SUB, dst_type, new_vreg(), src1, product);
+        return;
+    }
+
     add_ir_op(operation, dst_type, new_vreg(), src1, src2);
 }
 
diff --git a/ssa.c b/ssa.c
index bff1449..faaf41e 100644
--- a/ssa.c
+++ b/ssa.c
@@ -51,9 +51,9 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if ((c & (c - 1)) == 0) {
+        else if (c && (c & (c - 1)) == 0) {
             l = -1;
-            while (c > 0) { c >>= 1; l++; }
+            for (unsigned long uc = c; uc > 0; uc >>= 1) l++;
             tac->operation = IR_BSHL;
             tac->src1 = v;
             tac->src2 = new_integral_constant(TYPE_INT, l);
@@ -67,9 +67,9 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if (tac->src1->type->is_unsigned && (c & (c - 1)) == 0) {
+        else if (tac->src1->type->is_unsigned && c && (c & (c - 1)) == 0) {
             l = -1;
-            while (c > 0) { c >>= 1; l++; }
+            for (unsigned long uc = c; uc > 0; uc >>= 1) l++;
             tac->operation = IR_BSHR;
             tac->src1 = v;
             tac->src2 = new_integral_constant(TYPE_INT, l);
@@ -83,12 +83,13 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if ((c & (c - 1)) == 0) {
+        else if (c > 0 && (c & (c - 1)) == 0) {
+            // Signed moduli by a power of two with possibly negative operands are dealt with in the parser
             l = 0;
             while (c > 1) { c = c >> 1; l = (l << 1) | 1; }
             tac->operation = IR_BAND;
             tac->src1 = v;
-            tac->src2 = new_integral_constant(TYPE_INT, l);
+            tac->src2 = new_integral_constant(tac->dst->type->type, l);
         }
     }
 }
-- 
2.43.0


From 4939fd0296f3c0eb4c084b5f0572492333f87489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:54 +0000
Subject: [PATCH 008/126] fix: merged constants in instruction selection keep
 their type

Floating point merges also returned an undefined value.
---
 constexpr.c | 11 +++++++++--
 instrsel.c  | 16 +++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index feee553..6e775ed 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -14,6 +14,13 @@ static Value *indirect(Value *value) {
     return value;
 }
 
+// Represent value as a promoted integer type or pointer in a long
+static long truncate_to_type(Type *type, long value) {
+    if (type->type != TYPE_INT) return value;
+    if (type->is_unsigned) return (unsigned int) value;
+    return (int) value;
+}
+
 Value *evaluate_const_unary_int_operation(int operation, Value *value) {
     long r;
 
@@ -27,7 +34,7 @@ Value *evaluate_const_unary_int_operation(int operation, Value *value) {
     Value *v = new_value();
     v->type = operation == IR_LNOT ? new_type(TYPE_INT) : dup_type(integer_promote_type(value->type));
     v->is_constant = 1;
-    v->int_value = v->type->type == TYPE_LONG ? r : v->type->is_unsigned ? (unsigned int) r : (int) r;
+    v->int_value = truncate_to_type(v->type, r);
 
     return v;
 }
@@ -116,7 +123,7 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
     Value *v = new_value();
     v->type = is_comparison || is_logical ? new_type(TYPE_INT) : dup_type(type);
     v->is_constant = 1;
-    v->int_value = is_comparison || is_logical ? r : is_long ? r : is_unsigned ? (unsigned int) r : (int) r;
+    v->int_value = truncate_to_type(v->type, r);
 
     return v;
 }
diff --git a/instrsel.c b/instrsel.c
index c73ff10..4482d98 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -604,10 +604,9 @@ static Value *merge_cst_node(IGraph *igraph, int node_id, Value *v) {
     return v;
 }
 
-static Value *merge_cst_int_node(IGraph *igraph, int node_id, long constant_value, int is_unsigned) {
+static Value *merge_cst_int_node(IGraph *igraph, int node_id, long constant_value, Type *type) {
     Value *v = new_value();
-    v->type = new_type(TYPE_LONG);
-    v->type->is_unsigned = is_unsigned;
+    v->type = dup_type(type);
     v->is_constant = 1;
     v->int_value = constant_value;
     return merge_cst_node(igraph, node_id, v);
@@ -627,7 +626,7 @@ static Value* merge_integer_constants(IGraph *igraph, int node_id, int operation
     if (!value)
         return 0;
     else
-        return merge_cst_int_node(igraph, node_id, value->int_value, value->type->is_unsigned);
+        return merge_cst_int_node(igraph, node_id, value->int_value, value->type);
 }
 
 static Value* merge_fp_constants(IGraph *igraph, int node_id, int operation, Value *src1, Value *src2, Type *type) {
@@ -636,9 +635,9 @@ static Value* merge_fp_constants(IGraph *igraph, int node_id, int operation, Val
     if (!value)
         return 0;
     else if (is_floating_point_type(value->type))
-        merge_cst_fp_node(igraph, node_id, type, value->fp_value);
+        return merge_cst_fp_node(igraph, node_id, type, value->fp_value);
     else
-        merge_cst_int_node(igraph, node_id, value->int_value, 0);
+        return merge_cst_int_node(igraph, node_id, value->int_value, value->type);
 }
 
 static Value *recursive_merge_constants(IGraph *igraph, int node_id) {
@@ -664,7 +663,10 @@ static Value *recursive_merge_constants(IGraph *igraph, int node_id) {
     if (!src1 || !cst1) return 0;
 
     // Unary operations
-    if (operation == IR_BNOT) return merge_cst_int_node(igraph, node_id, ~src1->int_value, src1->type->is_unsigned);
+    if (operation == IR_BNOT) {
+        Value *value = evaluate_const_unary_int_operation(operation, src1);
+        return merge_cst_int_node(igraph, node_id, value->int_value, value->type);
+    }
 
     // Binary operations
     int cst2 = cst1 && (src2 && src2->is_constant);
-- 
2.43.0


From fe4b03b52d4a3681478e2010367017f4448eb952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 009/126] fix: constant of the mask of an unsigned modulus has
 the type of the operation

---
 ssa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssa.c b/ssa.c
index faaf41e..3402478 100644
--- a/ssa.c
+++ b/ssa.c
@@ -90,6 +90,7 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->operation = IR_BAND;
             tac->src1 = v;
             tac->src2 = new_integral_constant(tac->dst->type->type, l);
+            tac->src2->type->is_unsigned = tac->dst->type->is_unsigned;
         }
     }
 }
-- 
2.43.0


From fb1118791cc6037ff259bcc42642ca32cb499b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 010/126] fix: unsigned comparisons with immediates that do not
 fit in a signed 32 bit integer

---
 instrrules.c | 4 ++--
 instrutil.c  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 1252b64..d318dfe 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1729,8 +1729,8 @@ void define_rules(void) {
     add_int_comparison_rules(&ntc, 0, MI1, CI1, "cmpb $%v2b, %v1b"); add_int_comparison_rules(&ntc, 1, MU1, CU1, "cmpb $%v2b, %v1b");
     add_int_comparison_rules(&ntc, 0, MI2, CI2, "cmpw $%v2w, %v1w"); add_int_comparison_rules(&ntc, 1, MU2, CU2, "cmpw $%v2w, %v1w");
     add_int_comparison_rules(&ntc, 0, MI3, CI3, "cmpl $%v2l, %v1l"); add_int_comparison_rules(&ntc, 1, MU3, CU3, "cmpl $%v2l, %v1l");
-    add_int_comparison_rules(&ntc, 0, MI4, CI3, "cmpq $%v2q, %v1q"); add_int_comparison_rules(&ntc, 1, MU4, CU3, "cmpq $%v2q, %v1q");
-    add_int_comparison_rules(&ntc, 0, MPV, CI3, "cmpq $%v2q, %v1q"); add_int_comparison_rules(&ntc, 0, MPV, CU3, "cmpq $%v2q, %v1q");
+    add_int_comparison_rules(&ntc, 0, MI4, CI3, "cmpq $%v2q, %v1q"); add_int_comparison_rules(&ntc, 1, MU4, CU2, "cmpq $%v2q, %v1q");
+    add_int_comparison_rules(&ntc, 0, MPV, CI3, "cmpq $%v2q, %v1q"); add_int_comparison_rules(&ntc, 0, MPV, CU2, "cmpq $%v2q, %v1q");
 
     add_long_double_comp_rules(&ntc, MLD5, MLD5, ll, ll);
     add_long_double_comp_rules(&ntc, MLD5, CLD,  ll, lc);
diff --git a/instrutil.c b/instrutil.c
index 6277450..da09092 100644
--- a/instrutil.c
+++ b/instrutil.c
@@ -379,7 +379,7 @@ int match_value_to_rule_src(Value *v, int src) {
             else if (              src == CI4 && !v->type->is_unsigned)                                                               return 1;
 
             else if (src >= CU1 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100      ) return 1;
-            else if (src >= CU2 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100000   ) return 1;
+            else if (src >= CU2 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x10000    ) return 1;
             else if (src >= CU3 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100000000) return 1;
             else if (              src == CU4 &&  v->type->is_unsigned)                                                    return 1;
 
-- 
2.43.0


From 57b1844f65750704030df5846be61a5c883b2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 011/126] fix: sizeof has type unsigned long

---
 constexpr.c | 1 +
 parser.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/constexpr.c b/constexpr.c
index 6e775ed..a4b5086 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -405,6 +405,7 @@ Value *parse_constant_expression(int level) {
         case TOK_SIZEOF: {
             int size = parse_sizeof(parse_constant_expression);
             value = new_integral_constant(TYPE_LONG, size);
+            value->type->is_unsigned = 1;
             break;
         }
 
diff --git a/parser.c b/parser.c
index 51ceb65..124ae7b 100644
--- a/parser.c
+++ b/parser.c
@@ -2835,6 +2835,7 @@ static void parse_expression(int level) {
 
         case TOK_SIZEOF:
             push_integral_constant(TYPE_LONG, parse_sizeof(parse_expression_and_pop));
+            vtop()->type->is_unsigned = 1;
             break;
 
         default:
-- 
2.43.0


From e0b82741aa9d6ec07dc834d045e2431d7dd43608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 012/126] fix: floating point constants have the precision and
 range of their type

Also the logical not of a floating point constant and conversions of large
floating point constants to unsigned long.
---
 constexpr.c | 20 +++++++++++++++-----
 ir.c        |  2 +-
 lexer.c     |  6 +++++-
 parser.c    | 15 ++++++++++++---
 wcc.h       |  1 +
 5 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index a4b5086..46e6e27 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -39,6 +39,13 @@ Value *evaluate_const_unary_int_operation(int operation, Value *value) {
     return v;
 }
 
+// Constants are kept in a long double, round one to the precision & range of the type
+long double round_to_floating_point_type(Type *type, long double value) {
+    if (type->type == TYPE_FLOAT) return (float) value;
+    if (type->type == TYPE_DOUBLE) return (double) value;
+    return value;
+}
+
 Value *evaluate_const_unary_fp_operation(int operation, Value *value) {
     int is_int;
     unsigned int i;
@@ -148,13 +155,13 @@ Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src
     Value *v = new_value();
     v->type = is_int ? new_type(TYPE_INT) : type;
     v->is_constant = 1;
-    if (is_int) v->int_value = i; else v->fp_value = ld;
+    if (is_int) v->int_value = i; else v->fp_value = round_to_floating_point_type(type, ld);
 
     return v;
 }
 
 Value *cast_constant_value(Value *src, Type *dst_type) {
-    if (types_are_compatible(src->type, dst_type)) return src;
+    if (types_are_compatible(src->type, dst_type) && src->type->is_unsigned == dst_type->is_unsigned) return src;
 
     Type *src_type = src->type;
 
@@ -169,15 +176,17 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     dst->string_literal_index = src->string_literal_index;
 
     // FP -> FP
-    // Don't bother changing precision
     if (is_floating_point_type(src_type) && is_floating_point_type(dst_type)) {
-        dst->fp_value = src->fp_value;
+        dst->fp_value = round_to_floating_point_type(dst_type, src->fp_value);
         return dst;
     }
 
     // FP -> integer
     if (is_floating_point_type(src_type) && !is_floating_point_type(dst_type)) {
-        dst->int_value = src->fp_value;
+        if (dst_type->type == TYPE_LONG && dst_type->is_unsigned && src->fp_value >= 9223372036854775808.0L)
+            dst->int_value = (unsigned long) src->fp_value;
+        else
+            dst->int_value = src->fp_value;
 
         // For compatibililty with gcc when it comes to overflows
              if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value >        0xff) dst->int_value = 0x7f;
@@ -200,6 +209,7 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     if (is_floating_point_type(dst_type) && !is_floating_point_type(src_type)) {
         if (src_type->is_unsigned) dst->fp_value = (unsigned long) src->int_value;
         else dst->fp_value = src->int_value;
+        dst->fp_value = round_to_floating_point_type(dst_type, dst->fp_value);
     }
 
     // Implicit else: integer -> integer
diff --git a/ir.c b/ir.c
index e7c5c67..87f2c7d 100644
--- a/ir.c
+++ b/ir.c
@@ -60,8 +60,8 @@ Value *new_integral_constant(int type_type, long value) {
 // Create a new typed floating point constant value.
 Value *new_floating_point_constant(int type_type, long double value) {
     Value *cv = new_value();
-    cv->fp_value = value;
     cv->type = new_type(type_type);
+    cv->fp_value = round_to_floating_point_type(cv->type, value);
     cv->is_constant = 1;
     return cv;
 }
diff --git a/lexer.c b/lexer.c
index d0c3fb8..d8a0fb9 100644
--- a/lexer.c
+++ b/lexer.c
@@ -157,7 +157,11 @@ void lex_non_hex_literal(void) {
 
         int type = TYPE_DOUBLE;
         if (i[ip] == 'f' || i[ip] == 'F') { type = TYPE_FLOAT; ip++; }
-        if (i[ip] == 'l' || i[ip] == 'L') { type = TYPE_LONG_DOUBLE; ip++; }
+        else if (i[ip] == 'l' || i[ip] == 'L') { type = TYPE_LONG_DOUBLE; ip++; }
+
+        // Read floats and doubles in their own precision to avoid rounding twice
+        if (type == TYPE_FLOAT) cur_long_double = strtof(start + start_ip, &new_i);
+        else if (type == TYPE_DOUBLE) cur_long_double = strtod(start + start_ip, &new_i);
 
         cur_lexer_type = new_type(type);
     }
diff --git a/parser.c b/parser.c
index 124ae7b..e11b057 100644
--- a/parser.c
+++ b/parser.c
@@ -1218,6 +1218,8 @@ Value *convert_int_constant_to_floating_point(Value *v, Type *dst_type) {
     else
         result->fp_value = v->int_value;
 
+    result->fp_value = round_to_floating_point_type(dst_type, result->fp_value);
+
     return result;
 }
 
@@ -1617,6 +1619,7 @@ Value *add_convert_type_if_needed(Value *src, Type *dst_type) {
                 // Type change for float/double <-> long double
                 Value *src2 = dup_value(src);
                 src2->type = dup_type(dst_type);
+                src2->fp_value = round_to_floating_point_type(dst_type, src->fp_value);
                 return src2;
             }
             else if ((src_is_sse || src_is_ld) && dst_is_int) {
@@ -1624,7 +1627,10 @@ Value *add_convert_type_if_needed(Value *src, Type *dst_type) {
                 Value *src2 = new_value();
                 src2->type = new_type(dst_type->type <= TYPE_INT ? TYPE_INT : TYPE_LONG);
                 src2->is_constant = 1;
-                src2->int_value = src->fp_value;
+                if (dst_type->is_unsigned && src->fp_value >= 9223372036854775808.0L)
+                    src2->int_value = (unsigned long) src->fp_value;
+                else
+                    src2->int_value = src->fp_value;
                 return src2;
             }
             else if (src_is_int && (dst_is_sse || dst_is_ld))
@@ -1633,6 +1639,7 @@ Value *add_convert_type_if_needed(Value *src, Type *dst_type) {
                 // Convert float -> double or double -> float
                 Value *src2 = dup_value(src);
                 src2->type = dup_type(dst_type);
+                src2->fp_value = round_to_floating_point_type(dst_type, src->fp_value);
                 return src2;
             }
 
@@ -2605,8 +2612,10 @@ static void parse_expression(int level) {
             parse_expression(TOK_INC);
             check_unary_operation_type(IR_LNOT, vtop());
 
-            if (vtop()->is_constant)
-                push_integral_constant(TYPE_INT, !pop()->int_value);
+            if (vtop()->is_constant) {
+                Value *value = pop();
+                push_integral_constant(TYPE_INT, is_floating_point_type(value->type) ? !value->fp_value : !value->int_value);
+            }
             else {
                 push_integral_constant(TYPE_INT, 0);
                 arithmetic_operation(IR_EQ, new_type(TYPE_INT));
diff --git a/wcc.h b/wcc.h
index 0f5649c..549f34c 100644
--- a/wcc.h
+++ b/wcc.h
@@ -987,6 +987,7 @@ void free_parser(void);
 // constexpr.c
 Value* evaluate_const_unary_int_operation(int operation, Value *value);
 Value* evaluate_const_binary_int_operation(int operation, Value *src1, Value *src2);
+long double round_to_floating_point_type(Type *type, long double value);
 Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type);
 Value *cast_constant_value(Value *src, Type *type);
 Value *parse_constant_expression(int level);
-- 
2.43.0


From 2ee48e9a0410af7662479d68e53e4d52c9ed8186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 013/126] fix: continue in a do while loop skipped the
 condition

---
 parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index e11b057..d260aec 100644
--- a/parser.c
+++ b/parser.c
@@ -2947,8 +2947,9 @@ static void parse_expression(int level) {
 }
 
 static void parse_iteration_conditional_expression(Value **lcond, Value **cur_loop_continue_dst, Value *lend) {
-    *lcond  = new_label_dst();
-    *cur_loop_continue_dst = *lcond;
+    // A continue in a do/while already has a destination
+    if (!*cur_loop_continue_dst) *cur_loop_continue_dst = new_label_dst();
+    *lcond = *cur_loop_continue_dst;
     add_jmp_target_instruction(*lcond);
 
     parse_expression(TOK_COMMA);
@@ -3023,6 +3024,7 @@ static void parse_iteration_statement(void) {
         consume(TOK_RPAREN, ")");
     }
 
+    if (loop_token == TOK_DO) cur_loop_continue_dst = new_label_dst();
     if (!cur_loop_continue_dst) cur_loop_continue_dst = lbody;
     add_jmp_target_instruction(lbody);
     parse_statement();
-- 
2.43.0


From 9485a8d41dd3a2493a19234ff58cba32ef8c347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 014/126] fix: constant expressions with floating point
 operands

Mixed integer and floating point operands were not converted, && and ||
crashed, and the ternary did not convert to the common type.
---
 constexpr.c | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 46e6e27..9698ba0 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -135,21 +135,29 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
     return v;
 }
 
+static long double constant_as_long_double(Value *value) {
+    if (is_floating_point_type(value->type)) return value->fp_value;
+    if (value->type->is_unsigned) return (unsigned long) value->int_value;
+    return value->int_value;
+}
+
 Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type) {
     int is_int;
     unsigned int i;
     long double ld;
-
-         if (operation == IR_ADD) { is_int = 0; ld = src1->fp_value +  src2->fp_value; }
-    else if (operation == IR_SUB) { is_int = 0; ld = src1->fp_value -  src2->fp_value; }
-    else if (operation == IR_MUL) { is_int = 0; ld = src1->fp_value *  src2->fp_value; }
-    else if (operation == IR_DIV) { is_int = 0; ld = src1->fp_value /  src2->fp_value; }
-    else if (operation == IR_EQ ) { is_int = 1; i =  src1->fp_value == src2->fp_value; }
-    else if (operation == IR_NE ) { is_int = 1; i =  src1->fp_value != src2->fp_value; }
-    else if (operation == IR_LT ) { is_int = 1; i =  src1->fp_value <  src2->fp_value; }
-    else if (operation == IR_GT ) { is_int = 1; i =  src1->fp_value >  src2->fp_value; }
-    else if (operation == IR_LE ) { is_int = 1; i =  src1->fp_value <= src2->fp_value; }
-    else if (operation == IR_GE ) { is_int = 1; i =  src1->fp_value >= src2->fp_value; }
+    long double ld1 = constant_as_long_double(src1);
+    long double ld2 = constant_as_long_double(src2);
+
+         if (operation == IR_ADD) { is_int = 0; ld = ld1 +  ld2; }
+    else if (operation == IR_SUB) { is_int = 0; ld = ld1 -  ld2; }
+    else if (operation == IR_MUL) { is_int = 0; ld = ld1 *  ld2; }
+    else if (operation == IR_DIV) { is_int = 0; ld = ld1 /  ld2; }
+    else if (operation == IR_EQ ) { is_int = 1; i =  ld1 == ld2; }
+    else if (operation == IR_NE ) { is_int = 1; i =  ld1 != ld2; }
+    else if (operation == IR_LT ) { is_int = 1; i =  ld1 <  ld2; }
+    else if (operation == IR_GT ) { is_int = 1; i =  ld1 >  ld2; }
+    else if (operation == IR_LE ) { is_int = 1; i =  ld1 <= ld2; }
+    else if (operation == IR_GE ) { is_int = 1; i =  ld1 >= ld2; }
     else return 0;
 
     Value *v = new_value();
@@ -289,6 +297,10 @@ static Value *parse_address_plus_minus(int operation, Value *value1, Value *valu
     return result;
 }
 
+static int constant_is_true(Value *value) {
+    return is_floating_point_type(value->type) ? !!value->fp_value : !!value->int_value;
+}
+
 static Value *parse_binary_expression(int operation, int second_level, Value *value1) {
     next();
     Value *value2 = parse_constant_expression(second_level);
@@ -297,6 +309,12 @@ static Value *parse_binary_expression(int operation, int second_level, Value *va
     if ((operation == IR_ADD || operation == IR_SUB) && (is_pointer_type(value1->type) || is_pointer_type(value2->type)) || value1->is_string_literal || value2->is_string_literal)
         return parse_address_plus_minus(operation, value1, value2);
 
+    if (operation == IR_LAND || operation == IR_LOR) {
+        int truth1 = constant_is_true(value1);
+        int truth2 = constant_is_true(value2);
+        return new_integral_constant(TYPE_INT, operation == IR_LAND ? truth1 && truth2 : truth1 || truth2);
+    }
+
     Type *result_type = operation_type(value1, value2, 0);
     if (is_floating_point_type(result_type))
         return evaluate_const_binary_fp_operation(operation, value1, value2, result_type);
@@ -306,12 +324,16 @@ static Value *parse_binary_expression(int operation, int second_level, Value *va
 
 static Value *parse_ternary(Value *value) {
     next();
-    int which = is_floating_point_type(value->type) ? !!value->fp_value : !!value->int_value;
+    int which = constant_is_true(value);
     Value *value1 = parse_constant_expression(TOK_TERNARY);
     consume(TOK_COLON, ":");
     Value *value2 = parse_constant_expression(TOK_TERNARY);
     check_ternary_operation_types(value, value1, value2);
-    return which ? value1 : value2;
+
+    Value *result = which ? value1 : value2;
+    if (is_arithmetic_type(value1->type) && is_arithmetic_type(value2->type))
+        result = cast_constant_value(result, operation_type(value1, value2, 1));
+    return result;
 }
 
 // Parse a constant expression using top-down precedence climbing parsing
-- 
2.43.0


From a7b47385b24c42874967c5b6dd18540eabed43ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 015/126] fix: panic on a floating point division by constant
 zero

---
 ssa.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ssa.c b/ssa.c
index 3402478..48b8667 100644
--- a/ssa.c
+++ b/ssa.c
@@ -126,10 +126,7 @@ void optimize_floating_point_arithmetic_operation(Tac *tac) {
     else if (tac->operation == IR_DIV && cv && tac->src2->is_constant) {
         c = tac->src2->fp_value;
 
-        if (c == 0.0L)
-            panic("Division by zero");
-
-        else if (c == 1.0L) {
+        if (c == 1.0L) {
             tac->operation = IR_MOVE;
             tac->src1 = v;
             tac->src2 = 0;
-- 
2.43.0


From 0b7df3b7954b50b5daf751c4c06cc7b6374c2ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 016/126] fix: integer constants changing type are converted

---
 parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index d260aec..f5b1cf8 100644
--- a/parser.c
+++ b/parser.c
@@ -1181,11 +1181,11 @@ static Value *integer_type_change(Value *src, Type *type) {
     Value *dst;
 
     if (src->is_constant) {
-        // The target type is always a long and the constant is already represented
-        // as a long in cur_long, so nothing needs doing other than changing the
-        // type.
+        // The constant is represented as a long. Besides changing the type, the value
+        // must also be converted if the target type is an int.
         dst = dup_value(src);
         dst->type = dup_type(type);
+        if (type->type == TYPE_INT) dst->int_value = type->is_unsigned ? (unsigned int) src->int_value : (int) src->int_value;
         return dst;
     }
 
-- 
2.43.0


From c72be7fd679e36d5996fd4e1c33ef8982c74b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 017/126] fix: multiplying floating point values by zero always
 gave zero

---
 parser.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/parser.c b/parser.c
index f5b1cf8..2220c0e 100644
--- a/parser.c
+++ b/parser.c
@@ -1306,6 +1306,15 @@ static Value *float_type_change(Value *src) {
     return dst;
 }
 
+static Value *load_floating_point_constant(Value *src) {
+    Value *dst = new_value();
+    dst->local_index = new_local_index();
+    dst->type = dup_type(src->type);
+    add_parser_instruction(IR_MOVE, dst, src, 0);
+
+    return dst;
+}
+
 static void arithmetic_operation(int operation, Type *dst_type) {
     // Pull two items from the stack and push the result. Code in the IR
     // is generated when the operands can't be evaluated directly.
@@ -1377,6 +1386,13 @@ static void arithmetic_operation(int operation, Type *dst_type) {
         src2 = float_type_change(src2);
     }
 
+    // A multiplication with constant zero is optimized to zero, which is wrong for negative
+    // values, infinity and NaN. Avoid this by loading the constant.
+    if (operation == IR_MUL && is_floating_point_type(common_type)) {
+        if (src1->is_constant && !src1->fp_value && !src2->is_constant) src1 = load_floating_point_constant(src1);
+        if (src2->is_constant && !src2->fp_value && !src1->is_constant) src2 = load_floating_point_constant(src2);
+    }
+
     if (operation == IR_MOD && !common_type->is_unsigned && !src1->is_constant && src2->is_constant && (src2->int_value & (src2->int_value - 1)) == 0) {
         // A modulus of a power of two is turned into a bitwise and, which is wrong for negative
         // dividends. Calculate it using a - (a / b) * b.
-- 
2.43.0


From 388e040b3d379cc22babd3b51935bc896e556f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:11 +0000
Subject: [PATCH 018/126] fix: sign of negative constants converted to int

---
 constexpr.c | 2 +-
 parser.c    | 6 ++----
 wcc.h       | 1 +
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 9698ba0..e25e147 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -15,7 +15,7 @@ static Value *indirect(Value *value) {
 }
 
 // Represent value as a promoted integer type or pointer in a long
-static long truncate_to_type(Type *type, long value) {
+long truncate_to_type(Type *type, long value) {
     if (type->type != TYPE_INT) return value;
     if (type->is_unsigned) return (unsigned int) value;
     return (int) value;
diff --git a/parser.c b/parser.c
index 2220c0e..c679907 100644
--- a/parser.c
+++ b/parser.c
@@ -1185,7 +1185,7 @@ static Value *integer_type_change(Value *src, Type *type) {
         // must also be converted if the target type is an int.
         dst = dup_value(src);
         dst->type = dup_type(type);
-        if (type->type == TYPE_INT) dst->int_value = type->is_unsigned ? (unsigned int) src->int_value : (int) src->int_value;
+        dst->int_value = truncate_to_type(type, src->int_value);
         return dst;
     }
 
@@ -3169,9 +3169,7 @@ static void parse_case_statement(void) {
     Value *v = parse_constant_integer_expression(0);
 
     // Convert to the promoted type of the controlling expression
-    long value = v->int_value;
-    if (controlling_case_value->type->type == TYPE_INT)
-        value = controlling_case_value->type->is_unsigned ? (unsigned int) value : (int) value;
+    long value = truncate_to_type(controlling_case_value->type, v->int_value);
 
     // Ensure there are no duplicates
     if (longmap_get(case_values, value))
diff --git a/wcc.h b/wcc.h
index 549f34c..78c3c7f 100644
--- a/wcc.h
+++ b/wcc.h
@@ -987,6 +987,7 @@ void free_parser(void);
 // constexpr.c
 Value* evaluate_const_unary_int_operation(int operation, Value *value);
 Value* evaluate_const_binary_int_operation(int operation, Value *src1, Value *src2);
+long truncate_to_type(Type *type, long value);
 long double round_to_floating_point_type(Type *type, long double value);
 Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type);
 Value *cast_constant_value(Value *src, Type *type);
-- 
2.43.0


From 037943fbcf47179da2ca465ac06003886b086b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 019/126] fix: conversion of unsigned long to long double used
 a spilled destination

---
 instrrules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrrules.c b/instrrules.c
index d318dfe..f0a38ba 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -422,7 +422,7 @@ static void add_long_double_integer_move_rule(int dst, int type, char *conv_temp
         // xor the high bit if the value was > 2^53
         add_op(r, X_MOVC, 0,   0, SV5, "movzbq %v2b, %v2q"); // Zero all bits except the first
         add_op(r, X_SHR,  0,   0, SV5, "shlq $63, %v2q");    // Move the first bit to the last bit
-        add_op(r, X_XOR,  DST, 0, SV5, "xorq  %v2q, %vdq");  // set the sign bit if the original value was >= 2^63 - 1
+        add_op(r, X_XOR,  DST, DST, SV5, "xorq  %v2q, %v1q");  // set the sign bit if the original value was >= 2^63 - 1
     }
 }
 
-- 
2.43.0


From def50177a77fd10666a8e9d3fe8166157297f9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 020/126] fix: conversion of unsigned long to float or double
 modified its operand

---
 instrrules.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index f0a38ba..6c25c38 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -474,18 +474,20 @@ static void add_ulong_to_sse_operations(Rule *r, int dst, int src) {
 
     add_allocate_label_in_slot(r, 1);                               // Completion label
     add_allocate_label_in_slot(r, 2);                               // Signed case
-    add_allocate_register_in_slot(r, 3, TYPE_LONG);                 // Temporary for unsigned case
+    add_allocate_register_in_slot(r, 3, TYPE_LONG);                 // Temporaries for unsigned case
+    add_allocate_register_in_slot(r, 4, TYPE_LONG);
     add_op(r, X_TEST,  SRC1, SRC1,  0,    "testq %v1q, %v1q");
     add_op(r, X_JZ,    0,    SV2,   0,    "js %v1");                // Jump if unsigned
     add_op(r, X_MOVC,  DST,  SRC1,  0,    t1);                      // Signed case
     add_op(r, X_JMP,   0,    SV1,   0,    "jmp %v1");
     add_op(r, X_MOVC,  SV3,  SRC1,  0,    ".L2:movq %v1q, %vdq");   // Unsigned case
     add_op(r, X_SHR,   SV3,  SV3,   0,    "shrq %v1q");
-    add_op(r, X_BAND,  SRC1, SRC1,  0,    "andl $1, %v1l");
-    add_op(r, X_BOR,   SV3,  SV3,   SRC1, "orq %v1q, %v2q");
-    add_op(r, X_MOVC,  DST,  SRC1,  0,    t1);
+    add_op(r, X_MOVC,  SV4,  SRC1,  0,    "movq %v1q, %vdq");
+    add_op(r, X_BAND,  SV4,  SV4,   0,    "andl $1, %v1l");
+    add_op(r, X_BOR,   SV3,  SV4,   SV3,  "orq %v1q, %v2q");
+    add_op(r, X_MOVC,  DST,  SV3,   0,    t1);
     add_op(r, X_ADD,   DST,  DST,   DST,  t2);
-    add_op(r, X_MOVC,  DST,  DST,   0,    ".L1:");                  // Done
+    add_op(r, X_MOVC,  0,    0,     0,    ".L1:");                  // Done
 }
 
 static void add_int_to_sse_operations(Rule *r, int dst, int src) {
-- 
2.43.0


From 7ccd52826a8d650de29b0fbd5d0474265dad2858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 021/126] fix: float double conversions from memory used a
 spilled destination

---
 instrrules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 6c25c38..9bf2b3b 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -547,8 +547,8 @@ static void add_float_and_double_move_rules(void) {
 
     // Memory -> register
     r = add_rule(RS3, IR_MOVE, MS3, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movss %v1q, %vdq");
-    r = add_rule(RS3, IR_MOVE, MS4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movsd %v1q, %vdq"); add_op(r, X_MOVC, DST, DST, 0, "cvtsd2ss %v1q, %vdq");
-    r = add_rule(RS4, IR_MOVE, MS3, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movss %v1q, %vdq"); add_op(r, X_MOVC, DST, DST, 0, "cvtss2sd %v1q, %vdq");
+    r = add_rule(RS3, IR_MOVE, MS4, 0, 1); add_op(r, X_MOVC, DST, SRC1, 0, "cvtsd2ss %v1q, %vdq");
+    r = add_rule(RS4, IR_MOVE, MS3, 0, 1); add_op(r, X_MOVC, DST, SRC1, 0, "cvtss2sd %v1q, %vdq");
     r = add_rule(RS4, IR_MOVE, MS4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movsd %v1q, %vdq");
 
     // Register -> memory
-- 
2.43.0


From 61965289700d48264e388eb0becdff066d2971a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 022/126] fix: floating point constant to long double
 conversion clobbered xmm0

---
 instrrules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 9bf2b3b..da1db6b 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -567,8 +567,8 @@ static void add_float_and_double_move_rules(void) {
     r = add_rule(XR4, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
 
     // SSE Constant -> LD
-    add_sse_constant_to_ld_move_rule(CS3, TYPE_FLOAT,  "movss %v1F, %%xmm0", "movss %%xmm0, %vd", "flds %v1");
-    add_sse_constant_to_ld_move_rule(CS4, TYPE_DOUBLE, "movsd %v1D, %%xmm0", "movsd %%xmm0, %vd", "fldl %v1");
+    add_sse_constant_to_ld_move_rule(CS3, TYPE_FLOAT,  "movss %v1F, %%xmm14", "movss %%xmm14, %vd", "flds %v1");
+    add_sse_constant_to_ld_move_rule(CS4, TYPE_DOUBLE, "movsd %v1D, %%xmm14", "movsd %%xmm14, %vd", "fldl %v1");
 
     // SSE in register -> integer in register
     r = add_rule(XR1, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
-- 
2.43.0


From 5c0d434ab47b153731b6d9f0bb7a538e078f7e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 023/126] fix: stack slots of integer to long double
 conversions were too small

---
 instrrules.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index da1db6b..48173fa 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -633,15 +633,15 @@ static void add_long_double_move_rules(void)  {
     // Integer in register -> long double in memory
 
     // Signed integers
-    add_integer_long_double_move_rule(RI1, TYPE_CHAR , "movsbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
+    add_integer_long_double_move_rule(RI1, TYPE_SHORT, "movsbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
     add_integer_long_double_move_rule(RI2, TYPE_SHORT, 0,                   "movw %v1w, %v2", "filds %v2L");
     add_integer_long_double_move_rule(RI3, TYPE_INT  , 0,                   "movl %v1l, %v2", "fildl %v2L");
     add_integer_long_double_move_rule(RI4, TYPE_LONG , 0,                   "movq %v1q, %v2", "fildq %v2L");
 
     // Unsigned integers
-    add_integer_long_double_move_rule(RU1, TYPE_CHAR , "movzbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
-    add_integer_long_double_move_rule(RU2, TYPE_SHORT, "movzwl %v1w, %v1l", "movl %v1l, %v2", "fildl %v2L");
-    add_integer_long_double_move_rule(RU3, TYPE_INT  , "movl   %v1l, %v1l", "movq %v1q, %v2", "fildq %v2L");
+    add_integer_long_double_move_rule(RU1, TYPE_SHORT, "movzbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
+    add_integer_long_double_move_rule(RU2, TYPE_INT  , "movzwl %v1w, %v1l", "movl %v1l, %v2", "fildl %v2L");
+    add_integer_long_double_move_rule(RU3, TYPE_LONG , "movl   %v1l, %v1l", "movq %v1q, %v2", "fildq %v2L");
 
     // RU4 is a special case
     // Inspired by clang, when run with -fPIE
-- 
2.43.0


From ef6a0fea51950fd600679b16ac4ba244ebfe6310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 024/126] fix: float stack arguments were counted twice,
 misaligning later calls

---
 instrrules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrrules.c b/instrrules.c
index 48173fa..046f12c 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1632,7 +1632,7 @@ void define_rules(void) {
     r = add_rule(0, IR_ARG, CI4, CS4, 2); add_sse_function_call_arg_op(r, "movabsq %v1d, %vdq");
 
     // SSE register arg
-    r = add_rule(0, IR_ARG, CI4, RS3, 2); add_op(r, X_ARG, 0, 0, 0, "subq    $8, %%rsp"); add_op(r, X_ARG, 0, SRC1, SRC2, "movq %v2F, (%%rsp)");
+    r = add_rule(0, IR_ARG, CI4, RS3, 2); add_op(r, X_MOV, 0, 0, 0, "subq    $8, %%rsp"); add_op(r, X_ARG, 0, SRC1, SRC2, "movq %v2F, (%%rsp)");
     r = add_rule(0, IR_ARG, CI4, RS4, 2); add_op(r, X_MOV, 0, 0, 0, "subq    $8, %%rsp"); add_op(r, X_ARG, 0, SRC1, SRC2, "movq %v2D, (%%rsp)");
 
     // Add rules for sign/zero extention of an arg, but at a high cost, to encourage other rules to take precedence
-- 
2.43.0


From f68ab8acf00ae863621e872a83e64aee0cdb1c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:25 +0000
Subject: [PATCH 025/126] fix: operations on two floating point constants
 ignored the first one

---
 ssa.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ssa.c b/ssa.c
index 48b8667..44df0eb 100644
--- a/ssa.c
+++ b/ssa.c
@@ -100,6 +100,9 @@ void optimize_floating_point_arithmetic_operation(Tac *tac) {
     Value *cv = 0;
     long double c;
 
+    // If both are constants, don't optimize, otherwise the constants get mixed up
+    if (tac->src1 && tac->src1->is_constant && tac->src2 && tac->src2->is_constant) return;
+
     if (tac->src1 && tac->src1->is_constant) {
         cv = tac->src1;
         v = tac->src2;
-- 
2.43.0


From 65b2f38ef517b58ad0e4a4004331655d7ae7a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:43 +0000
Subject: [PATCH 026/126] fix: long double == and != could overwrite their own
 result

---
 instrrules.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 046f12c..d5ed1fd 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1007,14 +1007,14 @@ static void add_long_double_comp_rules(int *ntc, int src1, int src2, char *src1_
     // == and != comparison assignments
     // No rules are added for conditional jumps, for simplicty.
     for (int i = 0; i < 2; i++) {
-        // Inspired by the code that gcc generates
+        // The operands are equal if the zero flag is set and the parity flag, which indicates unordered, isn't
         Rule *r = add_rule(RI3, i == 0 ? IR_EQ : IR_NE, src1, src2, 15);
+        add_allocate_register_in_slot(r, 1, TYPE_CHAR);
         add_long_double_comparison_instructions(r, src1, src2, src1_template, src2_template, "fucomip %%st(1), %%st", 1);
-        add_op(r, X_CMP, DST, 0, 0, i == 0 ? "setnp %vdb" : "setp %vdb");
-        add_op(r, X_LD_EQ_CMP, 0, 0, 0,  i == 0 ? "movl $0, %%edx" : "movl $1, %%edx");
-        add_long_double_comparison_instructions(r, src1, src2, src1_template, src2_template, "fucomip %%st(1), %%st", 1);
-        add_op(r, X_MOVC, DST, 0, 0, "cmovne %%edx, %vdl");
-        add_op(r, X_MOVZ, DST, 0, 0, "movzbl %vdb, %vdl");
+        add_op(r, i == 0 ? X_SETE  : X_SETNE, DST, 0,   0,   i == 0 ? "sete %vdb"  : "setne %vdb");
+        add_op(r, i == 0 ? X_SETNP : X_SETP,  SV1, 0,   0,   i == 0 ? "setnp %vdb" : "setp %vdb");
+        add_op(r, i == 0 ? X_BAND  : X_BOR,   DST, SV1, DST, i == 0 ? "andb %v1b, %vdb" : "orb %v1b, %vdb");
+        add_op(r, X_MOVZ,                     DST, DST, 0,   "movzbl %v1b, %vdl");
     }
 
     add_long_double_comp_cond_jmp_rule(ntc, src1, src2, src1_template, src2_template, IR_LT, X_JA,  "ja %v1" , X_JAE, "jbe %v1", 1);
-- 
2.43.0


From 4d39e7e7cad249b4481272f623ef19ef3405bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 027/126] fix: spilled temporaries of long double to integer
 conversions

---
 instrrules.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index d5ed1fd..b22242a 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -407,8 +407,8 @@ static void add_long_double_integer_move_rule(int dst, int type, char *conv_temp
     }
 
     add_op(r, X_MOVC, 0,   0,   SV1, "fnstcw %v2");         // Backup control word into allocated stack entry
-    add_op(r, X_MOVZ, 0,   SV2, SV1, "movzwl %v2w, %v1l");  // Move control word into register
-    add_op(r, X_BOR,  0,   SV2, 0,   "orl $3072, %v1l");    // Set rounding and precision control bits
+    add_op(r, X_MOVC, SV2, 0,   SV1, "movzwl %v2w, %vdl");  // Move control word into register
+    add_op(r, X_BOR,  SV2, SV2, 0,   "orl $3072, %v1l");    // Set rounding and precision control bits
     add_op(r, X_MOVC, SV3, SV2, SV3, "movw %v1w, %v2w");    // Move control word into allocated stack
     add_op(r, X_MOVC, 0,   0,   SV3, "fldcw %v2w");         // Load control word from allocated stack
     add_op(r, X_MOVC, 0,   0,   SV4, conv_template);        // Do conversion and store it on the stack
@@ -420,8 +420,8 @@ static void add_long_double_integer_move_rule(int dst, int type, char *conv_temp
 
     if (ru4) {
         // xor the high bit if the value was > 2^53
-        add_op(r, X_MOVC, 0,   0, SV5, "movzbq %v2b, %v2q"); // Zero all bits except the first
-        add_op(r, X_SHR,  0,   0, SV5, "shlq $63, %v2q");    // Move the first bit to the last bit
+        add_op(r, X_MOVC, SV5, SV5, 0, "movzbq %v1b, %vdq"); // Zero all bits except the first
+        add_op(r, X_SHR,  SV5, SV5, 0, "shlq $63, %vdq");    // Move the first bit to the last bit
         add_op(r, X_XOR,  DST, DST, SV5, "xorq  %v2q, %v1q");  // set the sign bit if the original value was >= 2^63 - 1
     }
 }
-- 
2.43.0


From 833773ea2c7baa7104f2f00ea996ca724e6308a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 028/126] fix: constants passed as arguments were not
 converted, and pushes of large unsigned constants did not assemble

---
 constexpr.c  |  7 ++++---
 instrrules.c | 16 +++++++++-------
 parser.c     |  4 ++++
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index e25e147..74fdf79 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -16,9 +16,10 @@ static Value *indirect(Value *value) {
 
 // Represent value as a promoted integer type or pointer in a long
 long truncate_to_type(Type *type, long value) {
-    if (type->type != TYPE_INT) return value;
-    if (type->is_unsigned) return (unsigned int) value;
-    return (int) value;
+    if (type->type == TYPE_CHAR)  return type->is_unsigned ? (unsigned char) value : (signed char) value;
+    if (type->type == TYPE_SHORT) return type->is_unsigned ? (unsigned short) value : (short) value;
+    if (type->type == TYPE_INT)   return type->is_unsigned ? (long) (unsigned int) value : (long) (int) value;
+    return value;
 }
 
 Value *evaluate_const_unary_int_operation(int operation, Value *value) {
diff --git a/instrrules.c b/instrrules.c
index b22242a..8ec9bad 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1602,18 +1602,20 @@ void define_rules(void) {
     // Constants in pushed argument. pushq immediate can only be 32 bit
     r = add_rule(0, IR_ARG, CI4, XC1, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
     r = add_rule(0, IR_ARG, CI4, XC2, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
-    r = add_rule(0, IR_ARG, CI4, XC3, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
+    r = add_rule(0, IR_ARG, CI4, CI3, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
 
     // Stack management
     r = add_rule(0, IR_ALLOCATE_STACK, CI4, 0, 2); add_op(r, X_ALLOCATE_STACK, 0, SRC1, SRC2, "subq $%v1q, %%rsp"); fin_rule(r);
     r = add_rule(RI4, IR_MOVE_STACK_PTR, 0, 0, 2); add_op(r, X_MOVE_STACK_PTR, DST, 0, 0, "movq %%rsp, %vdq"); fin_rule(r);
 
-    // imm64 needs to be loaded into a register first
-    r = add_rule(0, IR_ARG, CI4, XC4, 2);
-    add_allocate_register_in_slot (r, 1, TYPE_LONG);   // Allocate quad register in slot 1
-    add_op(r, X_MOVC, SV1, SRC2, 0, "movabsq $%v1q, %vdq");
-    add_op(r, X_ARG,  SV1, 0,    0, "pushq %vdq");
-    fin_rule(r);
+    // imm64 needs to be loaded into a register first. This also goes for CU3s, which overflow if >= 0x80000000.
+    for (int i = 0; i < 2; i++) {
+        r = add_rule(0, IR_ARG, CI4, i == 0 ? CU3 : XC4, 2);
+        add_allocate_register_in_slot (r, 1, TYPE_LONG);   // Allocate quad register in slot 1
+        add_op(r, X_MOVC, SV1, SRC2, 0, "movabsq $%v1q, %vdq");
+        add_op(r, X_ARG,  0,   SRC1, SV1, "pushq %v2q");
+        fin_rule(r);
+    }
 
     // Long double constant arg
     r = add_rule(0, IR_ARG, CI4, CLD, 2);
diff --git a/parser.c b/parser.c
index c679907..b41e85b 100644
--- a/parser.c
+++ b/parser.c
@@ -1659,6 +1659,10 @@ Value *add_convert_type_if_needed(Value *src, Type *dst_type) {
                 return src2;
             }
 
+            else if (src_is_int && dst_is_int && src->type->type != TYPE_ENUM && dst_type->type != TYPE_ENUM)
+                // Convert between integer types
+                return integer_type_change(src, dup_type(dst_type));
+
             // No change
             return src;
         }
-- 
2.43.0


From 2115c00895bbc39494760cecff312b73d1eab7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 029/126] fix: conversions of floats and doubles to large
 unsigned integers

---
 instrrules.c | 64 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 8ec9bad..afb7405 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -443,6 +443,34 @@ static void add_sse_on_stack_to_int_in_register_move_rule(int dst, int src, int
     fin_rule(r);
 }
 
+// Values that don't fit in a signed long have 2^63 subtracted. In that case, the signed
+// conversion results in 0x8000000000000000 which is bitwise or-ed back in.
+static void add_sse_to_ulong_move_rule(int src, int type) {
+    int is_float = type == TYPE_FLOAT;
+    char *load_template    = is_float ? "movss %v1F, %vdF"       : "movsd %v1D, %vdD";
+    char *convert_template = is_float ? "cvttss2siq %v1F, %vdq"  : "cvttsd2siq %v1D, %vdq";
+
+    Rule *r = add_rule(RU4, IR_MOVE, src, 0, 5);
+    add_allocate_register_in_slot(r, 1, type);      // Value
+    add_allocate_register_in_slot(r, 2, TYPE_LONG); // Converted value
+    add_allocate_register_in_slot(r, 3, TYPE_LONG); // 2^63 and then the mask
+    add_allocate_register_in_slot(r, 4, type);      // 2^63
+    add_allocate_register_in_slot(r, 5, TYPE_LONG); // Converted (value - 2^63)
+
+    add_op(r, X_MOVC, SV1, SRC1, 0,   load_template);
+    add_op(r, X_MOVC, SV2, SV1,  0,   convert_template);
+    add_op(r, X_MOVC, SV3, 0,    0,   is_float ? "movabsq $0x5f000000, %vdq" : "movabsq $0x43e0000000000000, %vdq");
+    add_op(r, X_MOVC, SV4, SV3,  0,   is_float ? "movq %v1q, %vdF" : "movq %v1q, %vdD");
+    add_op(r, X_SUB,  SV1, SV4,  SV1, is_float ? "subss %v1F, %vdF" : "subsd %v1D, %vdD");
+    add_op(r, X_MOVC, SV5, SV1,  0,   convert_template);
+    add_op(r, X_MOVC, SV3, SV2,  0,   "movq %v1q, %vdq");
+    add_op(r, X_SHR,  SV3, SV3,  0,   "sarq $63, %vdq");
+    add_op(r, X_BAND, SV5, SV3,  SV5, "andq %v1q, %vdq");
+    add_op(r, X_BOR,  SV2, SV5,  SV2, "orq %v1q, %vdq");
+    add_op(r, X_MOVC, DST, SV2,  0,   "movq %v1q, %vdq");
+    fin_rule(r);
+}
+
 static void add_sse_in_register_to_long_double_move_rule(int src, int type, char *t1, char *t2) {
     Rule *r = add_rule(MLD5, IR_MOVE, src, 0, 1);
     add_allocate_stack_index_in_slot(r, 1, type);
@@ -558,13 +586,17 @@ static void add_float_and_double_move_rules(void) {
     // SSE Constant -> integer in register
     r = add_rule(XR1, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
+    r = add_rule(RU3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
+    add_sse_to_ulong_move_rule(CS3, TYPE_FLOAT);
 
     r = add_rule(XR1, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
+    r = add_rule(RU3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
+    add_sse_to_ulong_move_rule(CS4, TYPE_DOUBLE);
 
     // SSE Constant -> LD
     add_sse_constant_to_ld_move_rule(CS3, TYPE_FLOAT,  "movss %v1F, %%xmm14", "movss %%xmm14, %vd", "flds %v1");
@@ -573,24 +605,32 @@ static void add_float_and_double_move_rules(void) {
     // SSE in register -> integer in register
     r = add_rule(XR1, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
+    r = add_rule(RU3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
+    add_sse_to_ulong_move_rule(RS3, TYPE_FLOAT);
 
     r = add_rule(XR1, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
+    r = add_rule(RU3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
+    add_sse_to_ulong_move_rule(RS4, TYPE_DOUBLE);
 
     // SSE on stack -> integer in register
     add_sse_on_stack_to_int_in_register_move_rule(XR1, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR2, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR4, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
+    add_sse_on_stack_to_int_in_register_move_rule(RU3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI4, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
+    add_sse_to_ulong_move_rule(MS3, TYPE_FLOAT);
 
     add_sse_on_stack_to_int_in_register_move_rule(XR1, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR2, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR4, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
+    add_sse_on_stack_to_int_in_register_move_rule(RU3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI4, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+    add_sse_to_ulong_move_rule(MS4, TYPE_DOUBLE);
 
     // SSE in register -> long double
     add_sse_in_register_to_long_double_move_rule(RS3, TYPE_FLOAT, "movss %v1F, %vdl", "flds %v1F");
-- 
2.43.0


From 21f9f1c33c7659ce02917e0eea0b1c1edee27a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 030/126] fix: conversion of a spilled unsigned long to long
 double

---
 instrrules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index afb7405..abe50a7 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -690,8 +690,8 @@ static void add_long_double_move_rules(void)  {
     add_allocate_stack_index_in_slot(r, 1, TYPE_LONG);      // Allocate stack entry and put it in slot 1
     add_op(r, X_MOVC, 0,   SRC1, SV1,  "movq   %v1q, %v2");               // Move register to stack
     add_op(r, X_MOVC, 0,   0,    0,    "movq   $0, %%r10");               // Zero r10
-    add_op(r, X_MOVC, 0,   SRC1, 0,    "testq  %v1q, %v1q");              // Test & set flags
-    add_op(r, X_MOVC, DST, 0,    0,    "sets   %%r10b");                  // Store sign in r10 (0=unsigned, 1=signed)
+    add_op(r, X_MOVC, 0,   0,    SV1,  "cmpq   $0, %v2");                 // Set flags. Use the stack, since a spilled register would be loaded into r10
+    add_op(r, X_MOVC, 0,   0,    0,    "sets   %%r10b");                  // Store sign in r10 (0=unsigned, 1=signed)
     add_op(r, X_MOVC, 0,   SRC2, SV1,  "fildq  %v2L");                    // Load floating point from stack
     add_op(r, X_MOVC, 0,   0,    0,    "leaq   .RU4TOLD(%%rip), %%r11");  // Add constant, 0 for unsigned, something huge for signed
     add_op(r, X_MOVC, 0,   0,    0,    "fadds  (%%r11,%%r10,4)");
-- 
2.43.0


From 6ba71eab257db645189a6bf9aa718f84cefe79fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 031/126] fix: conversions between float and double could
 overwrite a live source register

---
 ssa.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ssa.c b/ssa.c
index 44df0eb..be2831b 100644
--- a/ssa.c
+++ b/ssa.c
@@ -1473,8 +1473,7 @@ void make_interference_graph(Function *function, int include_clobbers, int inclu
                         tac->operation == IR_MOVE ||
                         tac->operation == X_MOV ||
                         tac->operation == X_MOVZ ||
-                        tac->operation == X_MOVS ||
-                        tac->operation == X_MOVC
+                        tac->operation == X_MOVS
                        ) && tac->src1 && tac->src1->vreg && tac->src1->vreg == it_vreg) continue;
                     add_ig_edge(interference_graph, vreg_count, tac->dst->vreg, it_vreg);
                     if (debug_ssa_interference_graph) printf("added dst <-> lr %d <-> %d\n", tac->dst->vreg, it_vreg);
-- 
2.43.0


From a7f55e39030d25bec07545522d2cc27ea4542a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 032/126] fix: labelled statements as the body of if, else and
 loops

---
 parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index b41e85b..0fee1f1 100644
--- a/parser.c
+++ b/parser.c
@@ -3199,7 +3199,7 @@ static void parse_case_statement(void) {
     ir = org_ir;
 
     add_jmp_target_instruction(ldst);
-    if (cur_token != TOK_CASE && cur_token != TOK_RCURLY) parse_statement();
+    if (cur_token != TOK_RCURLY) parse_statement();
 }
 
 static void parse_default_statement() {
@@ -3281,6 +3281,9 @@ static void parse_label_statement(char *identifier) {
         Value *dst = strmap_get(cur_function_symbol->function->labels, identifier);
         if (dst) error("Duplicate label %s", identifier);
         strmap_put(cur_function_symbol->function->labels, parser_wstrdup(identifier), ldst);
+
+        // The label belongs to the statement that follows it
+        if (cur_token != TOK_RCURLY) parse_statement();
     }
     else {
         rewind_lexer();
-- 
2.43.0


From 442734fcdf2e5aaa6006fe9183b75e35196557cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 033/126] fix: member of the struct result of a ternary was
 rejected

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 0fee1f1..d7367f4 100644
--- a/parser.c
+++ b/parser.c
@@ -2450,7 +2450,7 @@ void parse_struct_dot_arrow_expression(void) {
 
     if (cur_token == TOK_DOT) {
         if (vtop()->type->type != TYPE_STRUCT_OR_UNION) error("Can only use . on a struct or union");
-        if (!vtop()->is_lvalue) error("Expected lvalue for struct . operation.");
+        if (!vtop()->is_lvalue && !vtop()->local_index) error("Expected lvalue for struct . operation.");
     }
     else {
         if (!is_pointer_type(vtop()->type)) error("Cannot use -> on a non-pointer");
-- 
2.43.0


From 84c6f0528f1a68f3d022e0fe0317656aeb957556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 034/126] fix: calls returning a struct through a function
 pointer or an incomplete prototype crashed

---
 parser.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/parser.c b/parser.c
index d7367f4..9c147bc 100644
--- a/parser.c
+++ b/parser.c
@@ -2233,6 +2233,16 @@ static void push_value_size_constant(Value *v) {
         push_integral_constant(TYPE_INT, size);
 }
 
+// Determine the registers or memory used for the return value of functions returning a struct/union
+static void set_function_return_value_fpa(Type *function_type, char *identifier) {
+    Type *return_type = function_type->target;
+    if (return_type->type != TYPE_STRUCT_OR_UNION || function_type->function->return_value_fpa || is_incomplete_type(return_type)) return;
+
+    FunctionParamAllocation *fpa = init_function_param_allocaton(identifier);
+    add_function_param_to_allocation(fpa, return_type);
+    function_type->function->return_value_fpa = fpa;
+}
+
 static void parse_function_call(void) {
     Value *popped_function = pl();
     if (popped_function->type->type != TYPE_FUNCTION && !is_pointer_to_function_type(popped_function->type))
@@ -2251,6 +2261,9 @@ static void parse_function_call(void) {
     // Allocate an integer slot if the function returns a slot in memory. The
     // RDI register must contain a pointer to the return value, set by the caller.
     int has_struct_or_union_return_value = 0;
+    if (is_incomplete_type(function_type->target) && function_type->target->type == TYPE_STRUCT_OR_UNION)
+        error("Function call returning an incomplete struct or union");
+    set_function_return_value_fpa(function_type, symbol ? symbol->global_identifier : "(anonymous)");
     FunctionParamAllocation *rv_fpa = function_type->function->return_value_fpa;
     if (rv_fpa) {
         FunctionParamLocations *rv_fpl = rv_fpa->param_locations->elements[0];
@@ -3448,12 +3461,6 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
         symbol->function->local_symbol_count = 0;
         symbol->function->labels = new_strmap();
         symbol->function->goto_backpatches = 0;
-
-        if (type->target->type == TYPE_STRUCT_OR_UNION) {
-            FunctionParamAllocation *fpa = init_function_param_allocaton(cur_type_identifier);
-            add_function_param_to_allocation(fpa, type->target);
-            type->function->return_value_fpa = fpa;
-        }
     }
     else
         symbol->function = original_symbol->function;
@@ -3498,6 +3505,10 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
     if (cur_token == TOK_LCURLY) {
         is_definition = 1;
 
+        if (is_incomplete_type(type->target) && type->target->type == TYPE_STRUCT_OR_UNION)
+            error("Function definition returning an incomplete struct or union");
+        set_function_return_value_fpa(symbol->function->type, cur_type_identifier);
+
         // Ensure parameters have identifiers
         for (int i = 0; i < symbol->function->type->function->param_count; i++)
             if (!symbol->function->type->function->param_identifiers->elements[i])
-- 
2.43.0


From 44a3722cf8ba1d2f666665c11bb4ea1c88d805d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 035/126] fix: pointers to long double could not be compared,
 tested, indexed, returned or passed on the stack

---
 instrrules.c | 34 ++++++++++++++++++++----
 wcc.h        | 74 ++++++++++++++++++++++++++--------------------------
 2 files changed, 66 insertions(+), 42 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index abe50a7..afc4133 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -883,9 +883,13 @@ static void add_pointer_rules(int *ntc) {
     r = add_rule(XRP, IR_ADDRESS_OF, RP2,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_ADDRESS_OF, RP3,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_ADDRESS_OF, RP4,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
-    r = add_rule(RP5, IR_ADDRESS_OF, RP5,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+    for (int i = RP1; i <= RP5; i++) {
+        r = add_rule(RP5, IR_ADDRESS_OF, i,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+    }
     r = add_rule(XRP, IR_ADDRESS_OF, RP5,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
 
+    r = add_rule(RPF, IR_ADDRESS_OF, RPF,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+
     // Common rules for IR_ADDRESS_OF and IR_ADDRESS_OF_FROM_GOT
     add_address_of_rule(XRP, XMI,  "%v1q, %vdq", 1);
     add_address_of_rule(XRP, XMU,  "%v1q, %vdq", 1);
@@ -893,6 +897,7 @@ static void add_pointer_rules(int *ntc) {
     add_address_of_rule(XRP, MS4,  "%v1q, %vdq", 1);
     add_address_of_rule(XRP, MPV,  "%v1q, %vdq", 1);
     add_address_of_rule(RP5, MLD5, "%v1L, %vdq", 0);
+    add_address_of_rule(RP5, MPV,  "%v1q, %vdq", 0);
     add_address_of_rule(RP1, MSA,  "%v1q, %vdq", 0);
     add_address_of_rule(RP2, MSA,  "%v1q, %vdq", 0);
     add_address_of_rule(RP3, MSA,  "%v1q, %vdq", 0);
@@ -1262,8 +1267,10 @@ static void add_pointer_add_rules(void) {
         add_pointer_plus_int_rule(i, RU4, 10, X_ADD, 0);
     }
 
-    for (int i = CI1; i <= CI4; i++)
+    for (int i = CI1; i <= CI4; i++) {
         add_bi_directional_commutative_operation_rules(IR_ADD, X_MOV, X_ADD, XRP, i, XRP, 10, "movq %v1q, %vdq", "addq $%v1q, %v2q");
+        add_bi_directional_commutative_operation_rules(IR_ADD, X_MOV, X_ADD, RP5, i, RP5, 10, "movq %v1q, %vdq", "addq $%v1q, %v2q");
+    }
 }
 
 static void add_sub_rule(int dst, int src1, int src2, int cost, char *mov_template, char *sign_extend_template, char *sub_template) {
@@ -1593,7 +1600,9 @@ void define_rules(void) {
     r = add_rule(RP3, IR_MOVE, STL,  0, 1); add_op(r, X_LEA, DST, SRC1, 0, "leaq %v1q, %vdq"); // For wchar_t
 
     r = add_rule(XRP, IR_MOVE, CI4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movq $%v1q, %vdq"); fin_rule(r);
+    r = add_rule(RP5, IR_MOVE, CI4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movq $%v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_MOVE, CU4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movq $%v1q, %vdq"); fin_rule(r);
+    r = add_rule(RP5, IR_MOVE, CU4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movq $%v1q, %vdq"); fin_rule(r);
 
     for (int dst = RP1; dst <= RP5; dst++) for (int src = RP1; src <= RP5; src++) add_mov_rule(dst, src, 0, 0);
     for (int dst = RI1; dst <= RI4; dst++) for (int src = RP1; src <= RP5; src++) add_mov_rule(dst, src, 0, 0);
@@ -1605,7 +1614,9 @@ void define_rules(void) {
     r = add_rule(MI4, IR_MOVE, XRP, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(MU4, IR_MOVE, XRP, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_MOVE, MPV, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+    r = add_rule(RP5, IR_MOVE, MPV, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(MPV, IR_MOVE, XRP, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+    r = add_rule(MPV, IR_MOVE, RP5, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(MPV, IR_MOVE, XRI, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(MPV, IR_MOVE, XRU, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
 
@@ -1620,6 +1631,7 @@ void define_rules(void) {
     r = add_rule(XRI,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRU,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RPF,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS3,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS4,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
@@ -1631,7 +1643,9 @@ void define_rules(void) {
     r = add_rule(XRU,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRU,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS3,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS3,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS4,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
@@ -1692,6 +1706,7 @@ void define_rules(void) {
     r = add_rule(0, IR_ARG, CI4, RP2, 2);                                                          add_int_function_call_arg_op(r);
     r = add_rule(0, IR_ARG, CI4, RP3, 2);                                                          add_int_function_call_arg_op(r);
     r = add_rule(0, IR_ARG, CI4, RP4, 2);                                                          add_int_function_call_arg_op(r);
+    r = add_rule(0, IR_ARG, CI4, RP5, 2);                                                          add_int_function_call_arg_op(r);
     r = add_rule(0, IR_ARG, CI4, RPF, 2);                                                          add_int_function_call_arg_op(r);
 
     // Long double return rules
@@ -1702,11 +1717,15 @@ void define_rules(void) {
     r = add_rule(XRI, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRU, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RPF, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, RP1, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, RP2, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, RP3, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, RP4, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
+    r = add_rule(RPF, IR_MOVE, RP5, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
+    r = add_rule(RPF, IR_MOVE, RI4, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
+    r = add_rule(RPF, IR_MOVE, RU4, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(MPF, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, MPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, FUN, 0, 2); add_op(r, X_LEA, DST, SRC1, 0, "leaq %v1q, %vdq");
@@ -1720,6 +1739,7 @@ void define_rules(void) {
 
     add_conditional_zero_jump_rule(IR_JZ,  XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
+    add_conditional_zero_jump_rule(IR_JZ,  RP5, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  MI1, LAB, 3, X_CMPZ, "cmpb $0, %v1",     "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  MI2, LAB, 3, X_CMPZ, "cmpw $0, %v1",     "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  MI3, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jz %v1",   1);
@@ -1727,6 +1747,7 @@ void define_rules(void) {
     add_conditional_zero_jump_rule(IR_JZ,  RPF, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JNZ, XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
+    add_conditional_zero_jump_rule(IR_JNZ, RP5, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, MI1, LAB, 3, X_CMPZ, "cmpb $0, %v1",     "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, MI2, LAB, 3, X_CMPZ, "cmpw $0, %v1",     "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, MI3, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jnz %v1",  1);
@@ -1747,9 +1768,9 @@ void define_rules(void) {
 
     // Comparision + conditional jump rules
     // Pointer comparisons are unsigned
-    for (int i = 0; i < 4; i++)
-        for (int j = 0; j < 4; j++)
-            add_int_comparison_rules(&ntc, 1, RP1 + i, RP1 + j, cmpq_vv);
+    for (int i = RP1; i <= RP5; i++)
+        for (int j = RP1; j <= RP5; j++)
+            add_int_comparison_rules(&ntc, 1, i, j, cmpq_vv);
 
     add_int_comparison_rules(&ntc, 1, RPF, RPF, "cmpq %v2q, %v1q");
 
@@ -1760,7 +1781,10 @@ void define_rules(void) {
     add_int_comparison_rules(&ntc, 0, XMI, XRI, cmp_vv);             add_int_comparison_rules(&ntc, 1, XMU, XRU, cmp_vv);
     add_int_comparison_rules(&ntc, 1, RI4, XRP, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RU4, XRP, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, XRP, RI4, cmpq_vv);            add_int_comparison_rules(&ntc, 1, XRP, RU4, cmpq_vv);
+    add_int_comparison_rules(&ntc, 1, RI4, RP5, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RU4, RP5, cmpq_vv);
+    add_int_comparison_rules(&ntc, 1, RP5, RI4, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RP5, RU4, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, XRP, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, XRP, XCU, cmpq_vc);
+    add_int_comparison_rules(&ntc, 1, RP5, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, RP5, XCU, cmpq_vc);
     add_int_comparison_rules(&ntc, 1, RPF, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, RPF, XCU, cmpq_vc);
     add_int_comparison_rules(&ntc, 1, MPF, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, MPF, XCU, cmpq_vc);
     add_int_comparison_rules(&ntc, 1, XRP, XMI, cmpq_vv);            add_int_comparison_rules(&ntc, 1, XRP, XMU, cmpq_vv);
diff --git a/wcc.h b/wcc.h
index 78c3c7f..d454c63 100644
--- a/wcc.h
+++ b/wcc.h
@@ -1212,43 +1212,43 @@ enum {
     MSA,                         // Struct or array in memory
 
     AUTO_NON_TERMINAL_START,
-    AUTO_NON_TERMINAL_END = 0x200, // Must match next line
-
-    EXP_SIZE     = 0x00200,
-    EXP_SIGN     = 0x00400,
-    EXP_SIZE_1   = 0x00800,
-    EXP_SIZE_2   = 0x01000,
-    EXP_SIZE_3   = 0x01800,
-    EXP_SIZE_4   = 0x02000,
-    EXP_C        = 0x04000,
-    EXP_R        = 0x08000,
-    EXP_M        = 0x0c000,
-    EXP_RP       = 0x10000,
-    EXP_SIGNED   = 0x20000,
-    EXP_UNSIGNED = 0x40000,
-
-    XC           = 0x04600, // EXP_C  + EXP_SIZE + EXP_SIGN
-    XR           = 0x08600, // EXP_R  + EXP_SIZE + EXP_SIGN
-    XM           = 0x0c600, // EXP_M  + EXP_SIZE + EXP_SIGN
-    XCI          = 0x24200, // EXP_C  + EXP_SIGNED   + EXP_SIZE
-    XCU          = 0x44200, // EXP_C  + EXP_UNSIGNED + EXP_SIZE
-    XRI          = 0x28200, // EXP_R  + EXP_SIGNED   + EXP_SIZE
-    XRU          = 0x48200, // EXP_R  + EXP_UNSIGNED + EXP_SIZE
-    XMI          = 0x2c200, // EXP_M  + EXP_SIGNED   + EXP_SIZE
-    XMU          = 0x4c200, // EXP_M  + EXP_UNSIGNED + EXP_SIZE
-    XRP          = 0x10200, // EXP_RP + EXP_SIZE
-    XC1          = 0x04c00, // EXP_C  + EXP_SIZE_1 + EXP_SIGN
-    XC2          = 0x05400, // EXP_C  + EXP_SIZE_2 + EXP_SIGN
-    XC3          = 0x05c00, // EXP_C  + EXP_SIZE_3 + EXP_SIGN
-    XC4          = 0x06400, // EXP_C  + EXP_SIZE_4 + EXP_SIGN
-    XR1          = 0x08c00, // EXP_R  + EXP_SIZE_1 + EXP_SIGN
-    XR2          = 0x09400, // EXP_R  + EXP_SIZE_2 + EXP_SIGN
-    XR3          = 0x09c00, // EXP_R  + EXP_SIZE_3 + EXP_SIGN
-    XR4          = 0x0a400, // EXP_R  + EXP_SIZE_4 + EXP_SIGN
-    XM1          = 0x0cc00, // EXP_M  + EXP_SIZE_1 + EXP_SIGN
-    XM2          = 0x0d400, // EXP_M  + EXP_SIZE_2 + EXP_SIGN
-    XM3          = 0x0dc00, // EXP_M  + EXP_SIZE_3 + EXP_SIGN
-    XM4          = 0x0e400, // EXP_M  + EXP_SIZE_4 + EXP_SIGN
+    AUTO_NON_TERMINAL_END = 0x400, // Must match next line
+
+    EXP_SIZE     = 0x00400,
+    EXP_SIGN     = 0x00800,
+    EXP_SIZE_1   = 0x01000,
+    EXP_SIZE_2   = 0x02000,
+    EXP_SIZE_3   = 0x03000,
+    EXP_SIZE_4   = 0x04000,
+    EXP_C        = 0x08000,
+    EXP_R        = 0x10000,
+    EXP_M        = 0x18000,
+    EXP_RP       = 0x20000,
+    EXP_SIGNED   = 0x40000,
+    EXP_UNSIGNED = 0x80000,
+
+    XC           = 0x08c00, // EXP_C  + EXP_SIZE + EXP_SIGN
+    XR           = 0x10c00, // EXP_R  + EXP_SIZE + EXP_SIGN
+    XM           = 0x18c00, // EXP_M  + EXP_SIZE + EXP_SIGN
+    XCI          = 0x48400, // EXP_C  + EXP_SIGNED   + EXP_SIZE
+    XCU          = 0x88400, // EXP_C  + EXP_UNSIGNED + EXP_SIZE
+    XRI          = 0x50400, // EXP_R  + EXP_SIGNED   + EXP_SIZE
+    XRU          = 0x90400, // EXP_R  + EXP_UNSIGNED + EXP_SIZE
+    XMI          = 0x58400, // EXP_M  + EXP_SIGNED   + EXP_SIZE
+    XMU          = 0x98400, // EXP_M  + EXP_UNSIGNED + EXP_SIZE
+    XRP          = 0x20400, // EXP_RP + EXP_SIZE
+    XC1          = 0x09800, // EXP_C  + EXP_SIZE_1 + EXP_SIGN
+    XC2          = 0x0a800, // EXP_C  + EXP_SIZE_2 + EXP_SIGN
+    XC3          = 0x0b800, // EXP_C  + EXP_SIZE_3 + EXP_SIGN
+    XC4          = 0x0c800, // EXP_C  + EXP_SIZE_4 + EXP_SIGN
+    XR1          = 0x11800, // EXP_R  + EXP_SIZE_1 + EXP_SIGN
+    XR2          = 0x12800, // EXP_R  + EXP_SIZE_2 + EXP_SIGN
+    XR3          = 0x13800, // EXP_R  + EXP_SIZE_3 + EXP_SIGN
+    XR4          = 0x14800, // EXP_R  + EXP_SIZE_4 + EXP_SIGN
+    XM1          = 0x19800, // EXP_M  + EXP_SIZE_1 + EXP_SIGN
+    XM2          = 0x1a800, // EXP_M  + EXP_SIZE_2 + EXP_SIGN
+    XM3          = 0x1b800, // EXP_M  + EXP_SIZE_3 + EXP_SIGN
+    XM4          = 0x1c800, // EXP_M  + EXP_SIZE_4 + EXP_SIGN
 
     // Operands
     DST = 1,
-- 
2.43.0


From 34a97a99d29dbd739b14b58e44f4774a77e2d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:32 +0000
Subject: [PATCH 036/126] fix: 32-bit wide bit-fields, ++ and compound
 assignment to bit-fields, promotion of unsigned bit-fields

---
 ir.c     |  4 ++--
 parser.c | 36 ++++++++++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/ir.c b/ir.c
index 87f2c7d..e01e24e 100644
--- a/ir.c
+++ b/ir.c
@@ -1020,7 +1020,7 @@ static void add_load_bit_field(Function *function, Tac *ir) {
             shifted_value = loaded_value;
 
         // Apply mask
-        unsigned int mask = (1 << bit_size) - 1;
+        unsigned int mask = bit_size == 32 ? -1 : (1 << bit_size) - 1;
         ir = insert_instruction_after_from_operation(ir, IR_BAND, dst, shifted_value, new_integral_constant(TYPE_INT, mask));
     }
     else {
@@ -1039,7 +1039,7 @@ static void add_load_bit_field(Function *function, Tac *ir) {
         if (32 - bit_size)
             ir = insert_instruction_after_from_operation(ir, IR_ASHR, dst, shifted_value, new_integral_constant(TYPE_INT, 32 - bit_size));
         else
-            dst = shifted_value;
+            ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, shifted_value, 0);
     }
 }
 
diff --git a/parser.c b/parser.c
index 9c147bc..5519335 100644
--- a/parser.c
+++ b/parser.c
@@ -143,6 +143,11 @@ static void *pop_void(void) {
     vs++;
 }
 
+// An int can represent all values of an unsigned bit field of less than 32 bits, so it is promoted to an int
+static Type *bit_field_promote_type(Value *v) {
+    return (v->bit_field_size && v->bit_field_size < 32) ? new_type(TYPE_INT) : v->type;
+}
+
 static Value *load_bit_field(Value *src1) {
     Value *dst = new_value();
     dst->type = new_type(TYPE_INT);
@@ -150,6 +155,15 @@ static Value *load_bit_field(Value *src1) {
     dst->vreg = new_vreg();
     add_parser_instruction(IR_LOAD_BIT_FIELD, dst, src1, 0);
 
+    Type *promoted_type = bit_field_promote_type(src1);
+    if (dst->type->is_unsigned && !promoted_type->is_unsigned) {
+        Value *promoted_dst = new_value();
+        promoted_dst->type = promoted_type;
+        promoted_dst->vreg = new_vreg();
+        add_parser_instruction(IR_MOVE, promoted_dst, dst, 0);
+        return promoted_dst;
+    }
+
     return dst;
 }
 
@@ -290,8 +304,8 @@ static Tac *add_ir_op(int operation, Type *type, int vreg, Value *src1, Value *s
 // Returns destination type of an operation with two operands
 // https://en.cppreference.com/w/c/language/conversion
 Type *operation_type(Value *src1, Value *src2, int for_ternary) {
-    Type *src1_type = src1->type;
-    Type *src2_type = src2->type;
+    Type *src1_type = bit_field_promote_type(src1);
+    Type *src2_type = bit_field_promote_type(src2);
 
     // Decay arrays to pointers
     if (src1_type->type == TYPE_ARRAY) src1_type = decay_array_to_pointer(src1_type);
@@ -2040,8 +2054,16 @@ Value *prep_comp_assign(void) {
 
 // Finish compound assignment
 static void finish_comp_assign(Value *v1) {
-    push(add_convert_type_if_needed(pop(), v1->type));
-    add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+    Value *src1 = add_convert_type_if_needed(pop(), v1->type);
+
+    if (v1->bit_field_size) {
+        add_parser_instruction(IR_SAVE_BIT_FIELD, v1, src1, 0);
+        push(load_bit_field(dup_value(v1))); // The value is what has been stored in the bit field
+    }
+    else {
+        add_parser_instruction(IR_MOVE, v1, src1, 0);
+        push(src1);
+    }
 }
 
 static void parse_addition(int level, int for_array_subscript) {
@@ -2712,8 +2734,7 @@ static void parse_expression(int level) {
             push(src1);
             push_value_size_constant(src1);
             arithmetic_operation(org_token == TOK_INC ? IR_ADD : IR_SUB, 0);
-            push(add_convert_type_if_needed(pop(), v1->type));
-            add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+            finish_comp_assign(v1);
 
             break;
         }
@@ -2918,8 +2939,7 @@ static void parse_expression(int level) {
                 push(src1);
                 push_value_size_constant(src1);
                 arithmetic_operation(org_token == TOK_INC ? IR_ADD : IR_SUB, 0);
-                push(add_convert_type_if_needed(pop(), v1->type));
-                add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+                finish_comp_assign(v1);
                 pop(); // Pop the lvalue of the assignment off the stack
                 push(src1); // Push the original rvalue back on the value stack
                 break;
-- 
2.43.0


From de84df9042d9ed48175ee1743340e3f9558d00f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:44 +0000
Subject: [PATCH 037/126] fix: struct/union parameters with padding, unions or
 bit-fields were passed in the wrong registers

---
 functions.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/functions.c b/functions.c
index 7f8ed9e..72f49b1 100644
--- a/functions.c
+++ b/functions.c
@@ -13,6 +13,7 @@ static List *allocated_function_param_allocatons;
 typedef struct struct_or_union_scalar {
     Type *type;
     int offset;
+    int is_bit_field;
 } StructOrUnionScalar;
 
 // A list of StructOrUnionScalar
@@ -1544,19 +1545,20 @@ static void add_type_to_allocation(FunctionParamAllocation *fpa, FunctionParamLo
 }
 
 // Recurse through a type and make list of all scalars + their offsets
-static void flatten_type(Type *type, StructOrUnionScalars *scalars, int offset) {
+static void flatten_type(Type *type, StructOrUnionScalars *scalars, int offset, int is_bit_field) {
     if (type->type == TYPE_STRUCT_OR_UNION) {
         StructOrUnion *s = type->struct_or_union_desc;
         for (StructOrUnionMember **pmember = s->members; *pmember; pmember++) {
             StructOrUnionMember *member = *pmember;
-            flatten_type(member->type, scalars, offset + member->offset);
+            if (member->is_bit_field && !member->bit_field_size) continue;
+            flatten_type(member->type, scalars, offset + member->offset, member->is_bit_field);
         }
     }
 
     else if (type->type == TYPE_ARRAY) {
         int element_size = get_type_size(type->target);
         for (int i = 0; i < type->array_size; i++)
-            flatten_type(type->target, scalars, offset + element_size * i);
+            flatten_type(type->target, scalars, offset + element_size * i, 0);
     }
 
     else {
@@ -1565,6 +1567,7 @@ static void flatten_type(Type *type, StructOrUnionScalars *scalars, int offset)
         scalars->scalars[scalars->count++] = scalar;
         scalar->type = type;
         scalar->offset = offset;
+        scalar->is_bit_field = is_bit_field;
     }
 }
 
@@ -1600,7 +1603,7 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
             StructOrUnionScalars *scalars = wmalloc(sizeof(StructOrUnionScalars));
             scalars->scalars = wmalloc(sizeof(StructOrUnionScalar *) * MAX_STRUCT_OR_UNION_SCALARS);
             scalars->count = 0;
-            flatten_type(type, scalars, 0);
+            flatten_type(type, scalars, 0, 0);
 
             // Classify the eight bytes
             char *seen_integer = wcalloc(8, sizeof(char));
@@ -1610,10 +1613,16 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
 
             int unaligned = 0;
 
-            size = 0; // Needs recalculating to remove any paddding at the end
+            // Needs recalculating to remove any padding at the end. Padding between
+            // members is included and union members overlap.
+            int end = 0;
             for (int i = 0; i < scalars->count; i++) {
                 StructOrUnionScalar *scalar = scalars->scalars[i];
-                size +=  get_type_size(scalar->type);
+
+                int scalar_end = scalar->offset + get_type_size(scalar->type);
+                if (scalar->is_bit_field) scalar_end = (scalar->offset & ~3) + 4;
+                if (scalar_end > end) end = scalar_end;
+
                 int eight_byte = scalar->offset >> 3;
                 member_counts[eight_byte]++;
 
@@ -1626,10 +1635,12 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
                     seen_memory[eight_byte + 1] = 1;
                 }
 
-                if (scalar->offset & (get_type_alignment(scalar->type) - 1))
+                if (!scalar->is_bit_field && scalar->offset & (get_type_alignment(scalar->type) - 1))
                     unaligned = 1;
             }
 
+            if (end < size) size = end;
+
             // Determine number of 8-bytes & allocate memory
             int eight_bytes_count = (size + 7) / 8;
             FunctionParamLocations *fpl = wcalloc(1, sizeof(FunctionParamLocations));
-- 
2.43.0


From f61b8cdbedbad39b8cd85916a3aeabddc8ce4f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:09 +0000
Subject: [PATCH 038/126] fix: layout of unions, nested anonymous structs,
 packed alignment and unnamed bit-fields

---
 parser.c |  1 -
 types.c  | 76 ++++++++++++++++----------------------------------------
 2 files changed, 21 insertions(+), 56 deletions(-)

diff --git a/parser.c b/parser.c
index 5519335..545f480 100644
--- a/parser.c
+++ b/parser.c
@@ -886,7 +886,6 @@ static int parse_struct_or_union_attribute(void) {
 
         consume(TOK_RPAREN, ")");
         consume(TOK_RPAREN, ")");
-        is_packed = 1;
     }
 
     return is_packed;
diff --git a/types.c b/types.c
index ea8bc7c..fda9c00 100644
--- a/types.c
+++ b/types.c
@@ -300,26 +300,6 @@ static StructOrUnionMember *dup_struct_or_union_member(StructOrUnionMember *src)
     return dst;
 }
 
-static StructOrUnion *dup_struct_or_union(StructOrUnion *src) {
-    StructOrUnion *dst = wmalloc(sizeof(StructOrUnion));
-    append_to_list(all_structs_and_unions, dst);
-
-    dst->size          = src->size;
-    dst->is_incomplete = src->is_incomplete;
-    dst->is_packed     = src->is_packed;
-    dst->is_union      = src->is_union;
-
-    int len;
-    for (len = 0; src->members[len]; len++);
-
-    dst->members = wcalloc(len + 1, sizeof(StructOrUnionMember *));
-
-    for (int i = 0; src->members[i]; i++)
-        dst->members[i] = dup_struct_or_union_member(src->members[i]);
-
-    return dst;
-}
-
 Type *integer_promote_type(Type *type) {
     if (!is_integer_type(type)) error("Invalid operand, expected integer type");
 
@@ -461,6 +441,12 @@ int get_type_size(Type *type) {
     }
 }
 
+// Determine how much a member contributes to the alignment of a struct/union
+static int get_struct_or_union_member_alignment(StructOrUnion *s, StructOrUnionMember *member) {
+    if (member->is_bit_field) return member->identifier ? 4 : 1;
+    return s->is_packed ? 1 : get_type_alignment(member->type);
+}
+
 int get_type_alignment(Type *type) {
     int t;
 
@@ -489,9 +475,9 @@ int get_type_alignment(Type *type) {
             return get_type_alignment(type->target);
         case TYPE_STRUCT_OR_UNION: {
             // The alignment of a struct is the max alignment of all members
-            int max = 0;
+            int max = 1;
             for (StructOrUnionMember **pmember = type->struct_or_union_desc->members; *pmember; pmember++) {
-                int alignment = get_type_alignment((*pmember)->type);
+                int alignment = get_struct_or_union_member_alignment(type->struct_or_union_desc, *pmember);
                 if (alignment > max) max = alignment;
             }
             return max;
@@ -815,14 +801,12 @@ Type *make_struct_or_union_type(StructOrUnion *s) {
     return type;
 }
 
-// Recurse through all struct members and determine offsets
+// Loop through all struct members and determine offsets
 // Bit fields are only implemented for integers (32 bits size) according to the C89 spec.
-int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
-    bit_offset = 0;
-
-    int initial_bit_offset = bit_offset;
+static void lay_out_struct_or_union(StructOrUnion *s) {
+    int bit_offset = 0;
     int max_size = 0;
-    int max_alignment = 0;
+    int max_alignment = 8;
 
     for (StructOrUnionMember **pmember = s->members; *pmember; pmember++) {
         StructOrUnionMember *member = *pmember;
@@ -839,26 +823,17 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
                 int new_bit_offset = (bit_offset + member->bit_field_size - 1) & ~31;
                 if (new_bit_offset != (bit_offset & ~31)) bit_offset = ((bit_offset + 31) & ~31);
             }
-
-            // Ensure the alignment is at least 4 bytes
-            if (max_alignment < 32) max_alignment = 32;
         }
         else {
             int alignment = s->is_packed ? 8 : get_type_alignment(member->type) * 8;
-            if (alignment > max_alignment) max_alignment = alignment;
             bit_offset = ((bit_offset + alignment - 1) & (~(alignment - 1)));
-
-            if (member->type->type == TYPE_STRUCT_OR_UNION) {
-                // Duplicate the structs, since the bit_offset will be set and otherwise
-                // would end up to a reused struct having invalid bit_offsets
-                member->type->struct_or_union_desc = dup_struct_or_union(member->type->struct_or_union_desc);
-                size = recursive_complete_struct_or_union(member->type->struct_or_union_desc, bit_offset);
-            }
-            else {
-                size = get_type_size(member->type) * 8;
-            }
+            size = get_type_size(member->type) * 8;
         }
 
+        // Bit fields have an alignment of 4, except unnamed ones, which don't affect the alignment.
+        int alignment = get_struct_or_union_member_alignment(s, member) * 8;
+        if (alignment > max_alignment) max_alignment = alignment;
+
         member->offset = bit_offset >> 3;
         member->bit_field_offset = bit_offset;
 
@@ -869,17 +844,8 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
 
     s->is_incomplete = 0;
 
-    int size;
-    if (s->is_union)
-        size = max_size;
-    else {
-        bit_offset = ((bit_offset + max_alignment  - 1) & (~(max_alignment - 1)));
-        size = bit_offset - initial_bit_offset;
-    }
-
-    s->size = size >> 3;
-
-    return size;
+    int size = s->is_union ? max_size : bit_offset;
+    s->size = ((size + max_alignment - 1) & (~(max_alignment - 1))) >> 3;
 }
 
 // Recursively flatten anonymous structs, .e.g.
@@ -924,8 +890,8 @@ void flatten_anonymous_structs(StructOrUnion *s) {
 
             // Copy the sub struct members
             for (int i = 0; i < sub_member_count; i++) {
-                sub->members[i]->offset += member->offset;
                 s->members[member_index + i] = dup_struct_or_union_member(sub->members[i]);
+                s->members[member_index + i]->offset += member->offset;
             }
 
             member_count += sub_member_count;
@@ -940,7 +906,7 @@ void flatten_anonymous_structs(StructOrUnion *s) {
 }
 
 void complete_struct_or_union(StructOrUnion *s) {
-    recursive_complete_struct_or_union(s, 0);
+    lay_out_struct_or_union(s);
     flatten_anonymous_structs(s);
 }
 
-- 
2.43.0


From 52261fb643176f5c2628575c18e8ba34c4ea0d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:33 +0000
Subject: [PATCH 039/126] fix: dereferenced function pointers as values and
 functions/arrays as conditions

---
 parser.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index 545f480..70bade2 100644
--- a/parser.c
+++ b/parser.c
@@ -42,6 +42,7 @@ static Type *parse_struct_or_union_type_specifier(void);
 static Type *parse_enum_type_specifier(void);
 static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *expression);
 void check_and_or_operation_type(Value *src1, Value *src2);
+static void decay_vtop(void);
 Value *parse_expression_and_pop(int level);
 static void parse_statement(void);
 static void parse_expression(int level);
@@ -173,6 +174,13 @@ static Value *load(Value *src1) {
     if (src1->is_constant) return src1;
     if (src1->vreg && !src1->is_lvalue) return src1;
     if (src1->type->type == TYPE_STRUCT_OR_UNION) return src1;
+    if (src1->type->type == TYPE_FUNCTION && src1->vreg) {
+        // A dereferenced pointer to a function decays back to the pointer
+        Value *dst = dup_value(src1);
+        dst->is_lvalue = 0;
+        dst->type = make_pointer(src1->type);
+        return dst;
+    }
     if (src1->type->type == TYPE_FUNCTION) return src1;
     if (src1->bit_field_size) return load_bit_field(src1);
 
@@ -1156,6 +1164,7 @@ static void add_conditional_jump(int operation, Value *dst) {
 
 // Add instructions for && and || operators
 static void and_or_expr(int is_and, int level) {
+    decay_vtop();
     Value *src1 = vtop();
 
     Value *ldst1 = new_label_dst(); // Store zero
@@ -1179,6 +1188,7 @@ static void and_or_expr(int is_and, int level) {
     // Test second operand
     add_jmp_target_instruction(ldst2);
     parse_expression(level);
+    decay_vtop();
     Value *src2 = vtop();
     check_and_or_operation_type(src1, src2);
     add_conditional_jump(is_and ? IR_JZ : IR_JNZ, ldst1); // Store zero & end
@@ -1462,7 +1472,7 @@ void check_bitwise_shift_operation_type(Value *src1, Value *src2) {
 }
 
 void check_and_or_operation_type(Value *src1, Value *src2) {
-    if (!is_scalar_type(src2->type)) error("Invalid operands to &&/||");
+    if (!is_scalar_type(src1->type)) error("Invalid operands to &&/||");
     if (!is_scalar_type(src2->type)) error("Invalid operands to &&/||");
 }
 
@@ -1546,8 +1556,11 @@ void check_binary_operation_types(int operation, Value *src1, Value *src2) {
 }
 
 static void parse_arithmetic_operation(int level, int operation, Type *type) {
+    int is_equality = operation == IR_EQ || operation == IR_NE;
+    if (is_equality && vtop()->type->type == TYPE_FUNCTION) decay_vtop();
     Value *src1 = vtop();
     parse_expression(level);
+    if (is_equality && vtop()->type->type == TYPE_FUNCTION) decay_vtop();
     Value *src2 = vtop();
     check_binary_operation_types(operation, src1, src2);
 
@@ -1624,6 +1637,16 @@ Value *load_function(Value *src, Type *dst_type) {
     return src;
 }
 
+// Convert an array or function on top of the stack to a pointer
+static void decay_vtop(void) {
+    if (vtop()->type->type == TYPE_ARRAY)
+        push(pl());
+    else if (vtop()->type->type == TYPE_FUNCTION) {
+        Value *v = pl();
+        push(load_function(v, v->type));
+    }
+}
+
 // Add type change move if necessary and return the dst value
 Value *add_convert_type_if_needed(Value *src, Type *dst_type) {
     if (dst_type->type == TYPE_FUNCTION) error("Function type mismatch");
@@ -2519,7 +2542,7 @@ void parse_struct_dot_arrow_expression(void) {
 }
 
 void check_ternary_operation_types(Value *switcher, Value *src1, Value *src2) {
-    if (switcher->type->type != TYPE_ARRAY && !is_scalar_type(switcher->type))
+    if (!is_scalar_type(switcher->type))
         error("Expected scalar type for first operand of ternary operator");
 
     int src1_is_arithmetic = is_arithmetic_type(src1->type);
@@ -2559,6 +2582,7 @@ void check_ternary_operation_types(Value *switcher, Value *src1, Value *src2) {
 }
 
 void parse_ternary_expression(void) {
+    decay_vtop();
     Value *switcher = vtop();
 
     // Destination register
@@ -2664,6 +2688,7 @@ static void parse_expression(int level) {
         case TOK_LOGICAL_NOT:
             next();
             parse_expression(TOK_INC);
+            decay_vtop();
             check_unary_operation_type(IR_LNOT, vtop());
 
             if (vtop()->is_constant) {
@@ -3005,6 +3030,7 @@ static void parse_iteration_conditional_expression(Value **lcond, Value **cur_lo
     add_jmp_target_instruction(*lcond);
 
     parse_expression(TOK_COMMA);
+    decay_vtop();
     if (!is_scalar_type(vtop()->type))
         error("Expected scalar type for loop controlling expression");
 
@@ -3254,8 +3280,9 @@ static void parse_if_statement(void) {
 
     consume(TOK_LPAREN, "(");
     parse_expression(TOK_COMMA);
+    decay_vtop();
 
-    if (vtop()->type->type != TYPE_ARRAY && !is_scalar_type(vtop()->type))
+    if (!is_scalar_type(vtop()->type))
         error("The controlling statement of an if statement must be a scalar");
 
     consume(TOK_RPAREN, ")");
-- 
2.43.0


From c0beaff6063215b85383cd197cc1bd8c73233e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:59 +0000
Subject: [PATCH 040/126] fix: address of dereferenced pointer to array held in
 memory

---
 instrsel.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/instrsel.c b/instrsel.c
index 4482d98..d172aa1 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -510,7 +510,13 @@ static void recursive_simplify_igraph(IGraph *src, IGraph *dst, int src_node_id,
     // recurse, with dst moved further down the tree
     int operation;
     if (tac) operation = tac->operation; else operation = 0;
-    if (operation == IR_MOVE && src_node_id != 0 && type_eq(tac->dst->type, tac->src1->type)) {
+
+    // A load of a pointer from memory must be kept if an address-of uses the pointer as
+    // an lvalue. Otherwise, the address of the memory would be taken.
+    Tac *parent_tac = dst_parent_node_id == -1 ? 0 : dst->nodes[dst_parent_node_id].tac;
+    int is_address_of_load = parent_tac && parent_tac->operation == IR_ADDRESS_OF && operation == IR_MOVE && !tac->src1->vreg;
+
+    if (operation == IR_MOVE && src_node_id != 0 && !is_address_of_load && type_eq(tac->dst->type, tac->src1->type)) {
         recursive_simplify_igraph(src, dst, e->to->id, dst_parent_node_id, dst_child_node_id);
         return;
     }
-- 
2.43.0


From 67f4f8223c1d76b91799efc539eaee2df53ac718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:42 +0000
Subject: [PATCH 041/126] fix: functions with large struct parameters on the
 stack

---
 functions.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/functions.c b/functions.c
index 72f49b1..442e9aa 100644
--- a/functions.c
+++ b/functions.c
@@ -1330,9 +1330,10 @@ void add_function_param_moves(Function *function, char *identifier) {
 
     int *has_address_of = wcalloc(function->type->function->param_count, sizeof(int));
 
-    // The stack is never bigger than function->type->function->param_count * 2 & starts at 2
-    int *stack_param_vregs = wmalloc(sizeof(int) * (function->type->function->param_count * 2 + 2));
-    memset(stack_param_vregs, -1, sizeof(int) * (function->type->function->param_count * 2 + 2));
+    // One entry per eight bytes of pushed params. A struct can take up any amount.
+    int stack_param_vregs_count = (fpa->size >> 3) + function->type->function->param_count + 2;
+    int *stack_param_vregs = wmalloc(sizeof(int) * stack_param_vregs_count);
+    memset(stack_param_vregs, -1, sizeof(int) * stack_param_vregs_count);
 
     // Determine which parameters in registers are used in IR_ADDRESS_OF instructions
     for (Tac *ir = function->ir; ir; ir = ir->next) {
-- 
2.43.0


From 7be4fc4b23bf3c3c64722fc1647d907eb85689ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:07 +0000
Subject: [PATCH 042/126] fix: copies of large structs from a register address
 with an offset; undersized temporaries for returned structs

---
 ir.c | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/ir.c b/ir.c
index e01e24e..9395062 100644
--- a/ir.c
+++ b/ir.c
@@ -408,10 +408,9 @@ void reverse_function_argument_order(Function *function) {
 
     // First index, function_id, second index arg_id
     TacInterval *function_args;
-    function_args = wmalloc(sizeof(TacInterval) * function_call_count * MAX_ARGS);
+    function_args = wmalloc(sizeof(TacInterval) * (function_call_count * MAX_ARGS + 1));
 
     int *arg_counts = wcalloc(function_call_count, sizeof(int));
-    Tac **calls = wcalloc(function_call_count, sizeof(Tac *));
     Tac **call_starts = wcalloc(function_call_count, sizeof(Tac *));
 
     ir = function->ir;
@@ -426,11 +425,6 @@ void reverse_function_argument_order(Function *function) {
             tac = tac->next;
             args[arg_counts[func]].start = tac;
         }
-        else if (tac->operation == IR_END_CALL) {
-            int func = tac->src1->int_value;
-            calls[func] = tac->prev;
-            tac = tac->next;
-        }
         else if (tac->operation == IR_ARG) {
             int func = tac->src1->int_value;
             TacInterval *args = &(function_args[func * MAX_ARGS]);
@@ -453,12 +447,13 @@ void reverse_function_argument_order(Function *function) {
     for (int i = 0; i < function_call_count; i++) {
         TacInterval *args = &(function_args[i * MAX_ARGS]);
         int arg_count = arg_counts[i];
-        Tac *call = calls[i];
         Tac *call_start = call_starts[i];
 
         if (arg_count > 1) {
             call_start->next = args[arg_count - 1].start;
             args[arg_count - 1].start->prev = call_start;
+            // Keep everything from the last arg up to and including the call
+            Tac *call = args[arg_count].start;
             args[0].end->next = call;
             call->prev = args[0].end;
 
@@ -478,7 +473,6 @@ void reverse_function_argument_order(Function *function) {
     wfree(function_args);
 
     wfree(arg_counts);
-    wfree(calls);
     wfree(call_starts);
 }
 
@@ -861,6 +855,27 @@ static Tac *insert_function_call_instructions_after(Tac *ir, Value *call_value,
 
     // Add end call instruction
     ir = insert_instruction_after_from_operation(ir, IR_END_CALL, 0, call_value, 0);
+
+    return ir;
+}
+
+// Make the address of a struct/union that's part of a memory copy
+static Value *insert_memory_copy_address_after(Function *function, Tac **ir, Value *v) {
+    if (!v->is_lvalue || !v->vreg) return insert_address_of_instruction_after(function, ir, v);
+    if (!v->offset) return v;
+
+    // The address is in a register, add the offset to it
+    Value *address = dup_value(v);
+    address->is_lvalue = 0;
+    address->offset = 0;
+    address->type = make_pointer_to_void();
+
+    Value *result = new_value();
+    result->vreg = ++function->vreg_count;
+    result->type = make_pointer_to_void();
+    *ir = insert_instruction_after_from_operation(*ir, IR_ADD, result, address, new_integral_constant(TYPE_LONG, v->offset));
+
+    return result;
 }
 
 // Add memcpy calls for struct/union -> struct/union copies
@@ -872,18 +887,8 @@ Tac *add_memory_copy_with_memcpy(Function *function, Tac *ir, Value *dst, Value
     ir = insert_instruction_after_from_operation(ir, IR_START_CALL, 0, call_value, 0);
 
     // Load of addresses of src1, dst & make size value
-    Value *src1_value;
-    if (src1->is_lvalue && src1->vreg)
-        src1_value = src1;
-    else
-        src1_value = insert_address_of_instruction_after(function, &ir, src1);
-
-    Value *dst_value;
-    if (dst->is_lvalue && dst->vreg)
-        dst_value = dst;
-    else
-        dst_value = insert_address_of_instruction_after(function, &ir, dst);
-
+    Value *src1_value = insert_memory_copy_address_after(function, &ir, src1);
+    Value *dst_value = insert_memory_copy_address_after(function, &ir, dst);
     Value *size_value = new_integral_constant(TYPE_LONG, size);
 
     // Add arg instructions
-- 
2.43.0


From 31e33b600ae3f7bd2cccbebdc09f5ca6e9a59df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:49 +0000
Subject: [PATCH 043/126] fix: initializers of bit-fields, unions, partially
 initialized objects, anonymous structs and arrays of strings

---
 codegen.c |  15 ++-
 ir.c      |   1 +
 parser.c  | 316 +++++++++++++++++++++++++++---------------------------
 types.c   | 105 ++++++++++--------
 wcc.h     |   6 +-
 5 files changed, 227 insertions(+), 216 deletions(-)

diff --git a/codegen.c b/codegen.c
index 762175f..eee2540 100644
--- a/codegen.c
+++ b/codegen.c
@@ -801,27 +801,27 @@ static void output_symbol(Symbol *symbol) {
         fprintf(f, "    .size    %s, %d\n", symbol->global_identifier, size);
         fprintf(f, "%s:\n", symbol->global_identifier);
 
+        int offset = 0; // The position in the object, anything that isn't initialized is zero
         for (int i = 0; i < symbol->initializers->length; i++) {
-
             Initializer *in = (Initializer *) symbol->initializers->elements[i];
 
+            if (in->offset > offset) fprintf(f,"    .zero    %d\n", in->offset - offset);
+            offset = in->offset + in->size;
+
             if (in->is_address_of || in->symbol) {
                 if (in->address_of_offset)
                     fprintf(f,"    .quad    %s + %d\n", in->symbol->global_identifier, in->address_of_offset);
                 else
                     fprintf(f,"    .quad    %s\n", in->symbol->global_identifier);
-                size -= 8;
             }
             else if (in->is_string_literal) {
                 if (in->address_of_offset)
                     fprintf(f,"    .quad    .SL%d + %d\n", in->string_literal_index, in->address_of_offset);
                 else
                     fprintf(f,"    .quad    .SL%d\n", in->string_literal_index);
-                size -= 8;
             }
             else {
-                if (!in->data) fprintf(f,"    .zero    %d\n", in->size);
-                else if (in->size == 1) fprintf(f,"    .byte    %d\n", *((char *) in->data));
+                if (in->size == 1) fprintf(f,"    .byte    %d\n", *((char *) in->data));
                 else if (in->size == 2) fprintf(f,"    .word    %d\n", *((short *) in->data));
                 else if (in->size == 4) fprintf(f,"    .long    %d\n", *((int *) in->data));
                 else if (in->size == 8) fprintf(f,"    .quad    %ld\n", *((long *) in->data));
@@ -832,12 +832,11 @@ static void output_symbol(Symbol *symbol) {
                     fprintf(f, "    .long   0\n");
                 }
                 else panic("Unknown initializer size=%d data=%p\n", in->size, in->data);
-                size -= in->size;
             }
         }
 
-        // Add padding for structs that have padding at the end
-        if (size) fprintf(f,"    .zero    %d\n", size);
+        // Add anything uninitialized at the end, including padding
+        if (offset < size) fprintf(f,"    .zero    %d\n", size - offset);
     }
 }
 
diff --git a/ir.c b/ir.c
index 9395062..9902211 100644
--- a/ir.c
+++ b/ir.c
@@ -1177,6 +1177,7 @@ void add_zero_memory_instructions(Function *function) {
         }
         else {
             // Call memset
+            Tac *ir = tac;
             int function_call_count = make_function_call_count(function);
 
             // Add start call instruction
diff --git a/parser.c b/parser.c
index 70bade2..a7dab9b 100644
--- a/parser.c
+++ b/parser.c
@@ -41,6 +41,7 @@ static List *allocated_sets;  // Allocated Set instances
 static Type *parse_struct_or_union_type_specifier(void);
 static Type *parse_enum_type_specifier(void);
 static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *expression);
+static int initializer_needs_zeroes; // The object being initialized isn't initialized entirely by stores
 void check_and_or_operation_type(Value *src1, Value *src2);
 static void decay_vtop(void);
 Value *parse_expression_and_pop(int level);
@@ -1788,139 +1789,149 @@ static void parse_simple_assignment(int enforce_const) {
     add_simple_assignment_instruction(dst, src1, enforce_const);
 }
 
-static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
-    Symbol *s = dst->global_symbol;
-    if (!s) error("Attempt to add an initializer to value without a global_symbol");
-
-    if (!s->initializers) s->initializers = new_list(INITIAL_INITALIZERS_COUNT);
+static Initializer *new_initializer(List *initializers, int offset, int size) {
+    Initializer *in = wcalloc(1, sizeof(Initializer));
+    in->offset = offset;
+    in->size = size;
+    append_to_list(initializers, in);
+    return in;
+}
 
-    int bf_offset;
-    int bf_bit_offset;
-    int bf_bit_size;
-    determine_bit_field_params(dst, &bf_offset, &bf_bit_offset, &bf_bit_size);
-    if (dst->bit_field_size) offset += bf_offset;
+// Add an initializer for a bit field, one byte at a time. A byte is shared by all bit fields that have bits in it.
+static void add_bit_field_initializer(Value *dst, Value *scalar) {
+    List *initializers = dst->global_symbol->initializers;
 
-    Initializer *in;
-    if (dst->bit_field_size && s->initializers->length && ((Initializer *) s->initializers->elements[s->initializers->length - 1])->offset == offset)
-        // Amend previous initializer for bit field
-        in = (Initializer *) s->initializers->elements[s->initializers->length - 1];
+    for (int i = 0; i < dst->bit_field_size; i++) {
+        int bit_offset = dst->bit_field_offset + i;
+        int offset = bit_offset >> 3;
 
+        Initializer *in = 0;
+        for (int j = initializers->length - 1; j >= 0 && !in; j--) {
+            Initializer *previous = (Initializer *) initializers->elements[j];
+            if (previous->offset < offset) break;
+            if (previous->is_bit_field && previous->offset == offset) in = previous;
+        }
 
-    else {
-        if (!dst->bit_field_size && s->initializers->length) {
-            Initializer *prev = (Initializer *) s->initializers->elements[s->initializers->length - 1];
-            if (prev->offset + prev->size != offset) {
-                Initializer *zero = wcalloc(1, sizeof(Initializer));
-                zero->offset = prev->offset + prev->size;
-                zero->size = offset - prev->offset - prev->size;
-                append_to_list(s->initializers, zero);
-            }
+        if (!in) {
+            in = new_initializer(initializers, offset, 1);
+            in->is_bit_field = 1;
+            in->data = wcalloc(1, 1);
         }
 
-        in = wcalloc(1, sizeof(Initializer));
-        append_to_list(s->initializers, in);
+        if ((scalar->int_value >> i) & 1) *((unsigned char *) in->data) |= 1 << (bit_offset & 7);
     }
+}
 
-    if (scalar) {
-        if (!scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of && !scalar->type->type == TYPE_ARRAY)
-            error("An initializer for an object with static storage duration must be a constant expression");
+static void add_initializer(Value *dst, Value *scalar) {
+    Symbol *s = dst->global_symbol;
+    if (!s) error("Attempt to add an initializer to value without a global_symbol");
 
-        if (!scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY) scalar = cast_constant_value(scalar, dst->type);
+    if (!s->initializers) s->initializers = new_list(INITIAL_INITALIZERS_COUNT);
 
-        size = get_type_size(dst->type);
+    if (!scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY)
+        error("An initializer for an object with static storage duration must be a constant expression");
 
-        if (scalar->type->type == TYPE_FLOAT) {
-            in->data = wmalloc(sizeof(float));
-            *((float *) in->data) = scalar->fp_value;
-        }
-        else if (scalar->type->type == TYPE_DOUBLE) {
-            in->data = wmalloc(sizeof(double));
-            *((double *) in->data) = scalar->fp_value;
-        }
-        else if (scalar->type->type == TYPE_LONG_DOUBLE) {
-            in->data = wmalloc(sizeof(long double));
-            *((long double *) in->data) = scalar->fp_value;
-        }
-        else if (dst->bit_field_size) {
-            // Bit field
-            if (!in->data) {
-                in->data = wmalloc(sizeof(int));
-                *((unsigned int *) in->data) = 0;
-            }
+    if (!scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY) scalar = cast_constant_value(scalar, dst->type);
 
-            unsigned int *pi = (unsigned int *) in->data;
-            unsigned int mask = bf_bit_size == 32 ? -1 : (1 << bf_bit_size) - 1;
-            unsigned int inverted_shifted_mask = ~(mask << bf_bit_offset);
-            (*pi) &= inverted_shifted_mask;
-            (*pi) |= ((scalar->int_value & mask) << bf_bit_offset);
-        }
-        else if (scalar->is_address_of) {
-            in->is_address_of = 1;
-            in->address_of_offset = scalar->address_of_offset;
-            in->is_string_literal = scalar->is_string_literal;
-            in->string_literal_index = scalar->string_literal_index;
-            in->symbol = scalar->global_symbol;
-        }
-        else if (scalar->is_string_literal) {
-            in->is_string_literal = 1;
-            in->string_literal_index = scalar->string_literal_index;
-            in->address_of_offset = scalar->address_of_offset;
-        }
-        else if (scalar->type->type == TYPE_ARRAY) {
-            in->symbol = scalar->global_symbol;
-        }
-        else {
-            in->data = wmalloc(sizeof(long));
-            *((long *) in->data) = scalar->int_value;
-        }
+    if (dst->bit_field_size) {
+        add_bit_field_initializer(dst, scalar);
+        return;
     }
 
-    in->size = size;
-    in->offset = offset;
-}
+    Initializer *in = new_initializer(s->initializers, dst->offset, get_type_size(dst->type));
 
-// Initialize value with zeroes starting with offset & size.
-// Do it in increments of 8, 4, 2, 1, to minimize the amount of instructions
-static void initialize_with_zeroes(Value *value, int offset, int size) {
-    if (value->global_symbol)
-        add_initializer(value, offset, size, 0);
+    if (scalar->type->type == TYPE_FLOAT) {
+        in->data = wmalloc(sizeof(float));
+        *((float *) in->data) = scalar->fp_value;
+    }
+    else if (scalar->type->type == TYPE_DOUBLE) {
+        in->data = wmalloc(sizeof(double));
+        *((double *) in->data) = scalar->fp_value;
+    }
+    else if (scalar->type->type == TYPE_LONG_DOUBLE) {
+        in->data = wmalloc(sizeof(long double));
+        *((long double *) in->data) = scalar->fp_value;
+    }
+    else if (scalar->is_address_of) {
+        in->is_address_of = 1;
+        in->address_of_offset = scalar->address_of_offset;
+        in->is_string_literal = scalar->is_string_literal;
+        in->string_literal_index = scalar->string_literal_index;
+        in->symbol = scalar->global_symbol;
+    }
+    else if (scalar->is_string_literal) {
+        in->is_string_literal = 1;
+        in->string_literal_index = scalar->string_literal_index;
+        in->address_of_offset = scalar->address_of_offset;
+    }
+    else if (scalar->type->type == TYPE_ARRAY) {
+        in->symbol = scalar->global_symbol;
+    }
     else {
-        Value *src1 = new_integral_constant(TYPE_INT, size);
-        Value *dst = dup_value(value);
-        dst->offset += offset;
-        add_parser_instruction(IR_ZERO, dst, src1, 0);
+        in->data = wmalloc(sizeof(long));
+        *((long *) in->data) = scalar->int_value;
     }
 }
 
-// The first member of the union is going to get initialized. If the union size is
-// larger than the size of the first member, zero the upper remainder
-static void initialize_union_with_zeroes(Value *value, int offset) {
-    int union_size = get_type_size(value->type);
-    int first_member_size = get_type_size(value->type->struct_or_union_desc->members[0]->type);
-    if (first_member_size < union_size) initialize_with_zeroes(value, offset + first_member_size, union_size - first_member_size);
+// Some of the value isn't going to be initialized explicitly and must be zero.
+// Objects with static storage duration are zero by default.
+static void initialize_with_zeroes(Value *value) {
+    if (value->global_symbol) {
+        if (!value->global_symbol->initializers) value->global_symbol->initializers = new_list(INITIAL_INITALIZERS_COUNT);
+    }
+    else
+        initializer_needs_zeroes = 1;
+}
+
+// Go down one level in the initialization of value. Only the first member of a union is
+// going to be initialized, the others may be larger.
+static TypeIterator *descend_in_initializer(TypeIterator *it, Value *value) {
+    if (it->type->type == TYPE_STRUCT_OR_UNION && it->type->struct_or_union_desc->is_union) initialize_with_zeroes(value);
+    return type_iterator_descend(it);
+}
+
+static int is_array_for_string_literal(Type *type, Value *string_literal) {
+    if (type->type != TYPE_ARRAY) return 0;
+    int is_wide_char = string_literals[string_literal->string_literal_index].is_wide_char;
+    return type->target->type == (is_wide_char ? TYPE_INT : TYPE_CHAR);
+}
+
+// Add instructions to initialize an object with automatic storage duration
+static void parse_automatic_initializer(Value *value) {
+    int old_initializer_needs_zeroes = initializer_needs_zeroes;
+    initializer_needs_zeroes = 0;
+
+    // Reserve an instruction for zeroing out the entire object before storing anything in it
+    Tac *tac = add_parser_instruction(IR_NOP, 0, 0, 0);
+
+    parse_initializer(type_iterator(value->type), value, 0);
+
+    if (initializer_needs_zeroes) {
+        tac->operation = IR_ZERO;
+        tac->dst = dup_value(value);
+        tac->src1 = new_integral_constant(TYPE_INT, get_type_size(value->type));
+    }
+
+    initializer_needs_zeroes = old_initializer_needs_zeroes;
 }
 
 // Initialize an array of chars or wchar_t with a string literal
 static TypeIterator *initialize_with_string_literal(TypeIterator *it, Value *value, Value *string_literal) {
     StringLiteral *sl = &(string_literals[string_literal->string_literal_index]);
+    Type *type = it->type;
 
-    if (sl->is_wide_char) {
-        int *int_data = (int *) sl->data;
-        int size = sl->size;
+    if (!type->array_size) type->array_size = sl->size;
+    int size = type->array_size;
+    if (sl->size < size) initialize_with_zeroes(value);
 
-        for (int i = 0; i < size; i++) {
-            Value *v = new_integral_constant(TYPE_INT, int_data[i]);
-            it = parse_initializer(it, value, v);
-        }
-    }
-    else {
-        for (int i = 0; i < sl->size; i++) {
-            Value *v = new_integral_constant(TYPE_INT, sl->data[i]);
-            it = parse_initializer(it, value, v);
-        }
+    TypeIterator *element = it;
+    for (int i = 0; i < size && i < sl->size; i++) {
+        Value *v = new_integral_constant(TYPE_INT, sl->is_wide_char ? ((int *) sl->data)[i] : sl->data[i]);
+        element = parse_initializer(element, value, v);
     }
 
-    return it;
+    // The iterator has already gone up if the entire array has been initialized
+    return sl->size < size ? type_iterator_end(it) : element;
 }
 
 // Parse an initializer for a variable with automatic storage. If expression is set, it
@@ -1930,7 +1941,6 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
         ? parse_constant_expression : parse_expression_and_pop;
 
     TypeIterator *outer_it = it;
-    int initial_outer_offset = it->offset;
 
     if (cur_token == TOK_LCURLY) {
         // Parse {...} initializer
@@ -1950,7 +1960,7 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
                     // When encountering a {} in a sub initializer, descend down
                     // one level from wherever the iterator currently is, and recurse.
                     TypeIterator *child;
-                    child = type_iterator_descend(it);
+                    child = descend_in_initializer(it, value);
                     child->parent = 0;
                     parse_initializer(child, value, 0);
                     it = type_iterator_next(it); // Advance the top level iterator
@@ -1985,64 +1995,55 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
             parsed_expression = parse_expr(TOK_EQ);
 
             if (parsed_expression->is_string_literal) {
-                it = type_iterator_dig_for_string_literal(it);
-
-                initialize_string_literal =
-                    it->type->type == TYPE_ARRAY &&
-                    (it->type->target->type == TYPE_CHAR || it->type->target->type == TYPE_INT);
-                }
-        }
+                while (!is_scalar_type(it->type) && !is_array_for_string_literal(it->type, parsed_expression))
+                    it = descend_in_initializer(it, value);
 
-        if (initialize_string_literal) {
-            it = initialize_with_string_literal(it, value, parsed_expression);
-            // Falls through to array size setting code
+                initialize_string_literal = is_array_for_string_literal(it->type, parsed_expression);
+            }
         }
 
-        else {
-            if (!expression) {
-                if (value->global_symbol) src = parsed_expression;
-                else src = load(parsed_expression);
-            }
+        if (initialize_string_literal) return initialize_with_string_literal(it, value, parsed_expression);
 
-            // Recurse to deepest scalar unless the expression is a struct, which
-            // can be assigned directly.
-            if (src->type->type != TYPE_STRUCT_OR_UNION) it = type_iterator_dig(it);
+        if (!expression) {
+            if (value->global_symbol) src = parsed_expression;
+            else src = load(parsed_expression);
+        }
 
-            // For unions, ensure that the whole union is initialized, even if the
-            // first member is smaller than the others.
-            if (value->type->type == TYPE_STRUCT_OR_UNION && value->type->struct_or_union_desc->is_union)
-                initialize_union_with_zeroes(value, it->offset);
+        // Recurse to deepest scalar unless the expression is a struct. A struct can be
+        // assigned directly to the first struct that has a compatible type.
+        int is_struct = 0;
+        while (!is_scalar_type(it->type)) {
+            is_struct = src->type->type == TYPE_STRUCT_OR_UNION && it->offset == it->start_offset
+                && types_are_compatible_ignore_qualifiers(it->type, src->type);
+            if (is_struct) break;
+            it = descend_in_initializer(it, value);
+        }
 
-            Value *child = dup_value(value);
-            child->global_symbol = value->global_symbol;
-            child->offset = it->offset;
-            child->bit_field_offset = it->bit_field_offset;
-            child->bit_field_size = it->bit_field_size;
-            child->type = it->type;
-            child->is_lvalue = 1;
+        // Other bits that share storage with a bit field may not be initialized
+        if (it->bit_field_size) initialize_with_zeroes(value);
 
-            if (value->global_symbol)
-                add_initializer(child, it->offset, 0, src);
+        Value *child = dup_value(value);
+        child->global_symbol = value->global_symbol;
+        child->offset = it->offset;
+        child->bit_field_offset = it->bit_field_offset;
+        child->bit_field_size = it->bit_field_size;
+        child->type = it->type;
+        child->is_lvalue = 1;
 
-            else
-                add_simple_assignment_instruction(child, src, 0);
+        if (value->global_symbol)
+            add_initializer(child, src);
+        else
+            add_simple_assignment_instruction(child, src, 0);
 
-            return type_iterator_next(it);
-        }
+        return is_struct ? type_iterator_end(it) : type_iterator_next(it);
     }
 
     // Complete incomplete arrays
     if (outer_it->type->type == TYPE_ARRAY && outer_it->type->array_size == 0) {
+        // An array was descended into, but not completed. Advance the index since the
+        // half-initialized element counts towards the array size
         if (outer_it != it) {
-            // An array was descended into, but not completed. Zero the elements first.
-            int array_element_size = get_type_size(outer_it->type->target);
-            int zeroes = array_element_size - ((it->offset - initial_outer_offset) % array_element_size);
-            if (zeroes < 0) panic_with_line_number("Got negative zeroes");
-            if (zeroes)
-                initialize_with_zeroes(value, it->offset, zeroes);
-
-            // Advance the index since the half-initialized element counts towards
-            // the array size
+            initialize_with_zeroes(value);
             outer_it->index++;
         }
 
@@ -2051,13 +2052,7 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
     }
 
     // If not all values where reached, set the remainder with zeroes
-    if (!type_iterator_done(it)) {
-        int outer_size = get_type_size((outer_it->type));
-        int zeroes = initial_outer_offset + outer_size - it->offset;
-        if (zeroes < 0) panic_with_line_number("Got negative zeroes");
-        if (zeroes)
-            initialize_with_zeroes(value, it->offset, zeroes);
-    }
+    else if (!type_iterator_done(it)) initialize_with_zeroes(value);
 
     return it;
 }
@@ -2223,7 +2218,10 @@ static void parse_declaration(void) {
         if (v->type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(v->type))
             error("Attempt to use an incomplete struct or union in an initializer");
 
-        parse_initializer(type_iterator(v->type), v, 0);
+        if (v->global_symbol)
+            parse_initializer(type_iterator(v->type), v, 0);
+        else
+            parse_automatic_initializer(v);
         symbol->type = v->type;
         if (array_declaration) array_declaration->type = v->type;
         base_type = old_base_type;
diff --git a/types.c b/types.c
index fda9c00..aa00bdf 100644
--- a/types.c
+++ b/types.c
@@ -210,6 +210,7 @@ void free_types(void) {
     for (int i = 0; i < all_structs_and_unions->length; i++) {
         StructOrUnion *s = all_structs_and_unions->elements[i];
         wfree(s->members);
+        if (s->nested_members) wfree(s->nested_members);
         wfree(s);
     }
     free_list(all_structs_and_unions);
@@ -881,6 +882,12 @@ void flatten_anonymous_structs(StructOrUnion *s) {
             for (StructOrUnionMember **sub_pmember = sub->members; *sub_pmember; sub_pmember++)
                 sub_member_count++;
 
+            // Keep the unflattened members for use in initializers
+            if (!s->nested_members) {
+                s->nested_members = wcalloc(MAX_STRUCT_MEMBERS, sizeof(StructOrUnionMember *));
+                for (int i = 0; s->members[i]; i++) s->nested_members[i] = s->members[i];
+            }
+
             if (member_count + sub_member_count == MAX_STRUCT_MEMBERS)
                 panic("Exceeded max struct/union members %d", MAX_STRUCT_MEMBERS);
 
@@ -936,16 +943,38 @@ int type_is_modifiable(Type *type) {
     return 1;
 }
 
-// Create a new type iterator instance. A type iterator can be used to recurse
-// through all scalars either depth first, or by iterating at a single level.
-TypeIterator *type_iterator(Type *type) {
+// Get the members a type iterator goes through. Anonymous structs/unions are members.
+static StructOrUnionMember **type_iterator_members(TypeIterator *it) {
+    StructOrUnion *s = it->type->struct_or_union_desc;
+    return s->nested_members ? s->nested_members : s->members;
+}
+
+// If the iterator is at a struct/union member, skip unnamed bit fields and set the offset
+static void type_iterator_set_member(TypeIterator *it) {
+    StructOrUnionMember **members = type_iterator_members(it);
+
+    while (members[it->index] && members[it->index]->is_bit_field && !members[it->index]->identifier) it->index++;
+    if (members[it->index]) it->offset = it->start_offset + members[it->index]->offset;
+}
+
+// Create a type iterator that starts at an offset
+static TypeIterator *type_iterator_at_offset(Type *type, int offset) {
     TypeIterator *it = wcalloc(1, sizeof(TypeIterator));
     append_to_list(allocated_type_iterators, it);
     it->type = type;
+    it->offset = offset;
+    it->start_offset = offset;
+    if (type->type == TYPE_STRUCT_OR_UNION) type_iterator_set_member(it);
 
     return it;
 }
 
+// Create a new type iterator instance. A type iterator can be used to recurse
+// through all scalars either depth first, or by iterating at a single level.
+TypeIterator *type_iterator(Type *type) {
+    return type_iterator_at_offset(type, 0);
+}
+
 // Are there any scalars left?
 int type_iterator_done(TypeIterator *it) {
     return (it->index == -1);
@@ -958,6 +987,12 @@ static TypeIterator *type_iterator_recurse_upwards(TypeIterator *it) {
     return type_iterator_next(it->parent);
 }
 
+// Skip everything that's left in the iterator and go back up
+TypeIterator *type_iterator_end(TypeIterator *it) {
+    it->offset = it->start_offset + get_type_size(it->type);
+    return type_iterator_recurse_upwards(it);
+}
+
 // Go to the next element, staying at the same level if there are any left elements and
 // going back up if the elements run out.
 TypeIterator *type_iterator_next(TypeIterator *it) {
@@ -976,17 +1011,9 @@ TypeIterator *type_iterator_next(TypeIterator *it) {
     }
     else if (it->type->type == TYPE_STRUCT_OR_UNION) {
         it->index++;
-        int is_union = it->type->struct_or_union_desc->is_union;
-        if (is_union || !it->type->struct_or_union_desc->members[it->index]) {
-            it->offset = it->start_offset + get_type_size(it->type);
-            return type_iterator_recurse_upwards(it);
-        }
-
-        it->offset = it->start_offset + it->type->struct_or_union_desc->members[it->index]->offset;
-
-        // Skip over zero size bit fields
-        StructOrUnionMember *member = it->type->struct_or_union_desc->members[it->index];
-        if (member->is_bit_field && !member->bit_field_size) return type_iterator_next(it);
+        if (it->type->struct_or_union_desc->is_union) return type_iterator_end(it);
+        type_iterator_set_member(it);
+        if (!type_iterator_members(it)[it->index]) return type_iterator_end(it);
 
         return it;
     }
@@ -999,30 +1026,29 @@ TypeIterator *type_iterator_descend(TypeIterator *it) {
     if (type_iterator_done(it))
         panic("Attempt to call descend on a done type iterator");
 
+    TypeIterator *child;
+
     if (is_scalar_type(it->type)) {
-        TypeIterator *child = type_iterator(it->type);
-        child->offset = it->offset;
-        child->parent = it;
-        return child;
-    }
-    if (it->type->type == TYPE_ARRAY) {
-        TypeIterator *child = type_iterator(it->type->target);
-        child->offset = it->offset;
-        child->start_offset = it->offset;
-        child->parent = it;
-        return child;;
+        child = type_iterator_at_offset(it->type, it->offset);
+        child->bit_field_offset = it->bit_field_offset;
+        child->bit_field_size = it->bit_field_size;
     }
+    else if (it->type->type == TYPE_ARRAY)
+        child = type_iterator_at_offset(it->type->target, it->offset);
     else if (it->type->type == TYPE_STRUCT_OR_UNION) {
-        TypeIterator *child = type_iterator(it->type->struct_or_union_desc->members[it->index]->type);
-        child->bit_field_offset = it->type->struct_or_union_desc->members[it->index]->bit_field_offset;
-        child->bit_field_size = it->type->struct_or_union_desc->members[it->index]->bit_field_size;
-        child->offset = it->offset;
-        child->start_offset = it->offset;
-        child->parent = it;
-        return child;
+        StructOrUnionMember *member = type_iterator_members(it)[it->index];
+        if (!member) error("Attempt to initialize a struct or union without members");
+        child = type_iterator_at_offset(member->type, it->offset);
+        if (member->bit_field_size) {
+            child->bit_field_offset = it->offset * 8 + (member->bit_field_offset & 7);
+            child->bit_field_size = member->bit_field_size;
+        }
     }
     else
         panic("Unhandled type in type_iterator_descend");
+
+    child->parent = it;
+    return child;
 }
 
 // Go to the first scalar in a depth first walk.
@@ -1037,18 +1063,3 @@ TypeIterator *type_iterator_dig(TypeIterator *it) {
         panic("Unhandled type in type_iterator_dig");
 
 }
-
-// Go to the first scalar in a depth first walk.
-TypeIterator *type_iterator_dig_for_string_literal(TypeIterator *it) {
-    if (type_iterator_done(it))
-        panic("Attempt to call dig on a done type iterator");
-    else if (is_scalar_type(it->type))
-        return it;
-    else if (it->type->type == TYPE_ARRAY && (it->type->target->type == TYPE_CHAR || it->type->target->type == TYPE_INT))
-        return it;
-    else if (it->type->type == TYPE_ARRAY || it->type->type == TYPE_STRUCT_OR_UNION)
-        return type_iterator_dig_for_string_literal(type_iterator_descend(it));
-    else
-        panic("Unhandled type in type_iterator_dig");
-
-}
diff --git a/wcc.h b/wcc.h
index d454c63..c12f5bd 100644
--- a/wcc.h
+++ b/wcc.h
@@ -183,7 +183,8 @@ typedef struct type_iterator {
 typedef struct initializer {
     int offset;                 // Offset of the initializer
     int size;                   // Size of the initializer
-    void *data;                 // Pointer to the data, or zero if it's a block of zeroes
+    void *data;                 // Pointer to the data
+    int is_bit_field;           // The initializer is a byte that contains bit fields
     int is_string_literal;      //
     int string_literal_index;   // If it's a string literal, an index in string_literals
     int is_address_of;          // When set, the initializer must also be either a string literal or have a symbol
@@ -373,6 +374,7 @@ typedef struct struct_or_union_desc {
     int is_packed;
     int is_union;
     struct struct_or_union_member **members;
+    struct struct_or_union_member **nested_members; // The members before flattening, if there are any anonymous structs/unions
 } StructOrUnion;
 
 typedef struct typedef_desc {
@@ -1051,8 +1053,8 @@ int type_is_modifiable(Type *type);
 TypeIterator *type_iterator(Type *type);
 int type_iterator_done(TypeIterator *it);
 TypeIterator *type_iterator_next(TypeIterator *it);
+TypeIterator *type_iterator_end(TypeIterator *it);
 TypeIterator *type_iterator_dig(TypeIterator *it);
-TypeIterator *type_iterator_dig_for_string_literal(TypeIterator *it);
 TypeIterator *type_iterator_descend(TypeIterator *it);
 
 // ir.c
-- 
2.43.0


From 2ae3a958bbb999722c4d0dc40ba6a5f0c6a06d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 044/126] fix: address constants with offsets in static
 initializers; non constant expressions accepted as constant

---
 codegen.c   |  15 ++-
 constexpr.c | 355 +++++++++++++++++++++++++++++++++++++---------------
 parser.c    |  22 ++--
 wcc.h       |   1 +
 4 files changed, 271 insertions(+), 122 deletions(-)

diff --git a/codegen.c b/codegen.c
index eee2540..f3a1f15 100644
--- a/codegen.c
+++ b/codegen.c
@@ -808,17 +808,16 @@ static void output_symbol(Symbol *symbol) {
             if (in->offset > offset) fprintf(f,"    .zero    %d\n", in->offset - offset);
             offset = in->offset + in->size;
 
-            if (in->is_address_of || in->symbol) {
-                if (in->address_of_offset)
-                    fprintf(f,"    .quad    %s + %d\n", in->symbol->global_identifier, in->address_of_offset);
+            if (in->is_address_of) {
+                if (in->is_string_literal)
+                    fprintf(f,"    .quad    .SL%d", in->string_literal_index);
                 else
-                    fprintf(f,"    .quad    %s\n", in->symbol->global_identifier);
-            }
-            else if (in->is_string_literal) {
+                    fprintf(f,"    .quad    %s", in->symbol->global_identifier);
+
                 if (in->address_of_offset)
-                    fprintf(f,"    .quad    .SL%d + %d\n", in->string_literal_index, in->address_of_offset);
+                    fprintf(f," + %d\n", in->address_of_offset);
                 else
-                    fprintf(f,"    .quad    .SL%d\n", in->string_literal_index);
+                    fprintf(f,"\n");
             }
             else {
                 if (in->size == 1) fprintf(f,"    .byte    %d\n", *((char *) in->data));
diff --git a/constexpr.c b/constexpr.c
index 74fdf79..a6bd398 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -6,10 +6,90 @@
 
 static int integers_are_longs;
 
+// The expression being parsed isn't evaluated, e.g. it's the operand of a sizeof or it's
+// the right hand side of 0 && ... Only the type matters.
+static int unevaluated;
+
+static Value *parse_expression_level(int level);
+
+static Value *parse_unevaluated_expression(int level) {
+    unevaluated++;
+    Value *value = parse_expression_level(level);
+    unevaluated--;
+    return value;
+}
+
+// Constant values are one of
+// - An arithmetic or pointer constant, with is_constant set
+// - The address of an object or string literal + address_of_offset, with is_address_of set
+// - An lvalue. It's either an object or string literal + address_of_offset, or memory at a
+//   constant address, with is_constant set.
+//
+// Convert any of these to something that isn't an lvalue. Arrays & functions become pointers.
+static Value *make_rvalue(Value *value) {
+    if (value->type->type == TYPE_ARRAY) {
+        value = dup_value(value);
+        value->type = decay_array_to_pointer(value->type);
+        value->is_lvalue = 0;
+        if (value->is_constant) {
+            value->int_value += value->address_of_offset;
+            value->address_of_offset = 0;
+        }
+        else
+            value->is_address_of = 1;
+    }
+    else if (value->type->type == TYPE_FUNCTION) {
+        value = dup_value(value);
+        value->type = make_pointer(value->type);
+        value->is_lvalue = 0;
+        value->is_address_of = 1;
+    }
+    else if (value->is_lvalue) {
+        value = dup_value(value);
+        value->is_not_constant = 1;
+        value->is_lvalue = 0;
+        if (is_pointer_type(value->type))
+            // The value of the pointer is unknown, but differences of addresses relative to it are
+            value->is_address_of = 1;
+        else {
+            value->is_constant = 1;
+            value->int_value = 0;
+            value->fp_value = 0;
+        }
+    }
+
+    return value;
+}
+
 static Value *indirect(Value *value) {
+    value = make_rvalue(value);
     if (!is_pointer_type(value->type)) error("Cannot dereference a non-pointer");
 
+    value = dup_value(value);
     value->type = deref_pointer(value->type);
+    value->is_address_of = 0;
+    value->is_lvalue = 1;
+
+    return value;
+}
+
+static Value *address_of(Value *value) {
+    if (value->bit_field_size) error("Cannot take an address of a bit-field");
+
+    // Functions are already pointers
+    if (is_pointer_to_function_type(value->type) && value->is_address_of) return value;
+
+    if (!value->is_lvalue && value->type->type != TYPE_ARRAY) error("Illegal operand to & in constant expression");
+
+    value = dup_value(value);
+    value->type = make_pointer(value->type);
+    value->is_lvalue = 0;
+    if (value->is_constant) {
+        value->int_value += value->address_of_offset;
+        value->address_of_offset = 0;
+    }
+    else
+        value->is_address_of = 1;
 
     return value;
 }
@@ -96,6 +176,11 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
     // truncated afterwards.
     unsigned long r = 0;
 
+    if (unevaluated && (operation == IR_DIV || operation == IR_MOD)) {
+        // The value doesn't matter and the divisor may be zero
+        s2ui = s2ul = s2si = s2sl = 1;
+    }
+
     if (operation == IR_DIV || operation == IR_MOD) {
         int divisor_is_zero = is_long ? s2ul == 0 : s2ui == 0;
         if (operation == IR_DIV && divisor_is_zero) error("Division by zero");
@@ -174,15 +259,19 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
 
     Type *src_type = src->type;
 
+    if (src->is_address_of) {
+        // The value of the address is not known, so it can only be kept as it is
+        if (!unevaluated && dst_type->type != TYPE_PTR && dst_type->type != TYPE_LONG)
+            error("An address cannot be converted in a constant expression");
+        Value *address = dup_value(src);
+        address->type = dst_type;
+        return address;
+    }
+
     Value *dst = new_value();
     dst->is_constant = 1;
-    dst->address_of_offset = src->address_of_offset;
     dst->int_value = src->int_value;
     dst->type = dst_type;
-    dst->global_symbol = src->global_symbol;
-    dst->is_address_of = src->is_address_of;
-    dst->is_string_literal = src->is_string_literal;
-    dst->string_literal_index = src->string_literal_index;
 
     // FP -> FP
     if (is_floating_point_type(src_type) && is_floating_point_type(dst_type)) {
@@ -236,86 +325,105 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     return dst;
 }
 
-static Value *parse_unary_expression(int operation) {
-    next();
-    Value *value = parse_constant_expression(TOK_INC);
-    check_unary_operation_type(operation, value);
-    if (is_floating_point_type(value->type))
+// The value of an address is unknown, but it's never zero
+static int constant_is_true(Value *value) {
+    if (value->is_address_of) return 1;
+    return is_floating_point_type(value->type) ? !!value->fp_value : !!value->int_value;
+}
+
+static Value *evaluate_unary_expression(int operation, Value *value) {
+    if (value->is_address_of) {
+        if (operation != IR_LNOT) error("Invalid operation on an address in a constant expression");
+        return new_integral_constant(TYPE_INT, 0);
+    }
+    else if (is_floating_point_type(value->type))
         return evaluate_const_unary_fp_operation(operation, value);
     else
         return evaluate_const_unary_int_operation(operation, value);
 }
 
-static Value *parse_address_plus_minus(int operation, Value *value1, Value *value2) {
-    if (value1->is_string_literal) value1->type = decay_array_to_pointer(value1->type);
-    if (value2->is_string_literal) value2->type = decay_array_to_pointer(value2->type);
-
-    if (operation == IR_ADD) check_plus_operation_type(value1, value2, 0);
-    else if (operation == IR_SUB) check_minus_operation_type(value1, value2);
+static Value *parse_unary_expression(int operation) {
+    next();
+    Value *value = make_rvalue(parse_expression_level(TOK_INC));
+    check_unary_operation_type(operation, value);
+    Value *result = evaluate_unary_expression(operation, value);
+    result->is_not_constant = value->is_not_constant;
 
-    Value *result;
+    return result;
+}
 
-    if (operation == IR_ADD) {
-        int arithmetic_value;
-        if (is_pointer_type(value1->type)) {
-            result = dup_value(value1);
-            arithmetic_value = value2->int_value;
-        }
-        else {
-            result = dup_value(value2);
-            arithmetic_value = value1->int_value;
-        }
+static int have_same_base(Value *value1, Value *value2) {
+    if (value1->is_address_of != value2->is_address_of) return 0;
+    if (!value1->is_address_of) return 1;
+    if (value1->is_not_constant != value2->is_not_constant) return 0;
+    if (value1->is_string_literal || value2->is_string_literal)
+        return value1->is_string_literal && value2->is_string_literal && value1->string_literal_index == value2->string_literal_index;
+    return value1->global_symbol == value2->global_symbol && value1->local_index == value2->local_index;
+}
 
-        int size = arithmetic_value * get_type_size(result->type->target);
+// Add size bytes to an address or constant
+static Value *add_to_address(Value *value, long size) {
+    Value *result = dup_value(value);
+    if (result->is_address_of)
+        result->address_of_offset += size;
+    else
+        result->int_value += size;
+    return result;
+}
 
-        if (result->is_address_of || result->is_string_literal)
-            result->address_of_offset += size;
-        else
-            result->int_value += size;
+// Evaluate a + or - of pointers or addresses that have been cast to an integer.
+static Value *evaluate_address_plus_minus(int operation, Value *value1, Value *value2) {
+    if (operation == IR_ADD && !is_pointer_type(value1->type) && (is_pointer_type(value2->type) || value2->is_address_of)) {
+        Value *tmp = value1;
+        value1 = value2;
+        value2 = tmp;
     }
-    else {
-        if (is_pointer_type(value2->type)) {
-            // Pointer-pointer subtraction
-            int size =  get_type_size(value1->type->target);
 
-            if (value1->global_symbol != value2->global_symbol)
-                error("Operand mismatch in constant pointer subtraction");
+    int size = is_pointer_type(value1->type) ? get_type_size(value1->type->target) : 1;
 
-            int difference = value1->address_of_offset + value1->int_value - value2->address_of_offset - value2->int_value;
-            result = new_integral_constant(TYPE_LONG, difference / size);
+    if (operation == IR_SUB && (is_pointer_type(value2->type) || value2->is_address_of)) {
+        // Pointer-pointer subtraction
+        if (!have_same_base(value1, value2) && !unevaluated)
+            error("Operand mismatch in constant pointer subtraction");
 
-        }
-        else {
-            result = dup_value(value1);
-            int size =  value2->int_value * get_type_size(result->type->target);
-            if (result->is_address_of || result->is_string_literal)
-                result->address_of_offset -= size;
-            else
-                result->int_value -= size;
-        }
+        long difference = value1->address_of_offset + value1->int_value - value2->address_of_offset - value2->int_value;
+        return new_integral_constant(TYPE_LONG, difference / size);
     }
 
-    return result;
-}
+    if (value2->is_address_of) error("Invalid operation on an address in a constant expression");
 
-static int constant_is_true(Value *value) {
-    return is_floating_point_type(value->type) ? !!value->fp_value : !!value->int_value;
+    return add_to_address(value1, operation == IR_ADD ? value2->int_value * size : -value2->int_value * size);
 }
 
-static Value *parse_binary_expression(int operation, int second_level, Value *value1) {
-    next();
-    Value *value2 = parse_constant_expression(second_level);
-    check_binary_operation_types(operation, value1, value2);
+// Evaluate a comparison where one of the operands is an address
+static Value *evaluate_address_comparison(int operation, Value *value1, Value *value2) {
+    int is_null = !value1->is_address_of && !value1->int_value || !value2->is_address_of && !value2->int_value;
 
-    if ((operation == IR_ADD || operation == IR_SUB) && (is_pointer_type(value1->type) || is_pointer_type(value2->type)) || value1->is_string_literal || value2->is_string_literal)
-        return parse_address_plus_minus(operation, value1, value2);
+    if (is_null && operation == IR_EQ) return new_integral_constant(TYPE_INT, 0);
+    if (is_null && operation == IR_NE) return new_integral_constant(TYPE_INT, 1);
+    if (!have_same_base(value1, value2) && !unevaluated) error("Invalid operation on an address in a constant expression");
 
+    Value *result = evaluate_const_binary_int_operation(operation,
+        new_integral_constant(TYPE_LONG, value1->address_of_offset), new_integral_constant(TYPE_LONG, value2->address_of_offset));
+    if (!result || result->type->type != TYPE_INT) error("Invalid operation on an address in a constant expression");
+    return result;
+}
+
+static Value *evaluate_binary_expression(int operation, Value *value1, Value *value2) {
     if (operation == IR_LAND || operation == IR_LOR) {
         int truth1 = constant_is_true(value1);
         int truth2 = constant_is_true(value2);
         return new_integral_constant(TYPE_INT, operation == IR_LAND ? truth1 && truth2 : truth1 || truth2);
     }
 
+    int is_pointer = is_pointer_type(value1->type) || is_pointer_type(value2->type);
+    int is_address = value1->is_address_of || value2->is_address_of;
+
+    if ((is_pointer || is_address) && (operation == IR_ADD || operation == IR_SUB))
+        return evaluate_address_plus_minus(operation, value1, value2);
+
+    if (is_address) return evaluate_address_comparison(operation, value1, value2);
+
     Type *result_type = operation_type(value1, value2, 0);
     if (is_floating_point_type(result_type))
         return evaluate_const_binary_fp_operation(operation, value1, value2, result_type);
@@ -323,15 +431,57 @@ static Value *parse_binary_expression(int operation, int second_level, Value *va
         return evaluate_const_binary_int_operation(operation, value1, value2);
 }
 
+static Value *parse_binary_expression(int operation, int second_level, Value *value1) {
+    next();
+
+    value1 = make_rvalue(value1);
+
+    // The right hand side of && and || is not evaluated if the left hand side determines the result
+    int is_short_circuit =
+        operation == IR_LAND && !constant_is_true(value1) ||
+        operation == IR_LOR && constant_is_true(value1);
+
+    if (is_short_circuit) unevaluated++;
+    Value *value2 = make_rvalue(parse_expression_level(second_level));
+    check_binary_operation_types(operation, value1, value2);
+    if (is_short_circuit) unevaluated--;
+
+    int are_addresses = value1->is_address_of && value2->is_address_of;
+    if (operation == IR_SUB && are_addresses && !have_same_base(value1, value2) && !unevaluated)
+        error("Operand mismatch in constant pointer subtraction");
+
+    int is_not_constant = !is_short_circuit && (value1->is_not_constant || value2->is_not_constant);
+
+    if (is_not_constant) unevaluated++;
+    Value *result = evaluate_binary_expression(operation, value1, value2);
+    if (is_not_constant) unevaluated--;
+
+    // Differences between addresses are always constant
+    int is_difference = operation == IR_SUB && are_addresses && have_same_base(value1, value2);
+    if (is_not_constant && !is_difference) result->is_not_constant = 1;
+
+    return result;
+}
+
 static Value *parse_ternary(Value *value) {
     next();
+    value = make_rvalue(value);
     int which = constant_is_true(value);
-    Value *value1 = parse_constant_expression(TOK_TERNARY);
+
+    if (!which) unevaluated++;
+    Value *value1 = make_rvalue(parse_expression_level(TOK_TERNARY));
+    if (!which) unevaluated--;
+
     consume(TOK_COLON, ":");
-    Value *value2 = parse_constant_expression(TOK_TERNARY);
+
+    if (which) unevaluated++;
+    Value *value2 = make_rvalue(parse_expression_level(TOK_TERNARY));
+    if (which) unevaluated--;
+
     check_ternary_operation_types(value, value1, value2);
 
-    Value *result = which ? value1 : value2;
+    Value *result = dup_value(which ? value1 : value2);
+    if (value->is_not_constant) result->is_not_constant = 1;
     if (is_arithmetic_type(value1->type) && is_arithmetic_type(value2->type))
         result = cast_constant_value(result, operation_type(value1, value2, 1));
     return result;
@@ -340,7 +490,7 @@ static Value *parse_ternary(Value *value) {
 // Parse a constant expression using top-down precedence climbing parsing
 // https://en.cppreference.com/w/c/language/operator_precedence
 // https://en.wikipedia.org/wiki/Operator-precedence_parser#Precedence_climbing_method
-Value *parse_constant_expression(int level) {
+static Value *parse_expression_level(int level) {
     Value *value;
 
     switch(cur_token) {
@@ -350,8 +500,7 @@ Value *parse_constant_expression(int level) {
         case TOK_MULTIPLY:
             // Indirect
             next();
-            value = parse_constant_expression(TOK_INC);
-            value = indirect(value);
+            value = indirect(parse_expression_level(TOK_INC));
 
             break;
 
@@ -359,22 +508,7 @@ Value *parse_constant_expression(int level) {
             // Address of
 
             next();
-            value = parse_constant_expression(TOK_INC);
-            if (value->bit_field_size) error("Cannot take an address of a bit-field");
-
-            if (!value->is_string_literal && !value->global_symbol && !value->is_constant)
-                error("Illegal operand to & in constant expression");
-
-            if (value->is_constant) {
-                value->int_value += value->address_of_offset;
-                value->is_constant = 0;
-            }
-
-            value->is_address_of = 1;
-
-            // Hacky horror, only create a pointer unless it's already a pointer to a function
-            if (!is_pointer_to_function_type(value->type))
-                value->type = make_pointer(value->type);
+            value = address_of(parse_expression_level(TOK_INC));
 
             break;
 
@@ -387,12 +521,11 @@ Value *parse_constant_expression(int level) {
                 // Cast
                 Type *type = parse_type_name();
                 consume(TOK_RPAREN, ")");
-                value = parse_constant_expression(TOK_INC);
-                value = cast_constant_value(value, type);
+                value = cast_constant_value(make_rvalue(parse_expression_level(TOK_INC)), type);
             }
             else {
                 // (sub expression)
-                value = parse_constant_expression(TOK_COMMA);
+                value = parse_expression_level(TOK_COMMA);
                 consume(TOK_RPAREN, ")");
             }
             break;
@@ -421,22 +554,26 @@ Value *parse_constant_expression(int level) {
 
             if (symbol->is_enum_value)
                 value = new_integral_constant(TYPE_INT, symbol->value);
-            else if (symbol->type->type == TYPE_FUNCTION) {
-                // Convert a function to a &function
-                value = make_symbol_value(symbol);
-                value->type = make_pointer(value->type);
-                value->is_address_of = 1;
-            }
-            else
+            else {
                 value = make_symbol_value(symbol);
 
-            value->global_symbol = symbol;
+                if (symbol->type->type == TYPE_FUNCTION) {
+                    // Convert a function to a &function
+                    value->type = make_pointer(value->type);
+                    value->is_address_of = 1;
+                }
+                else
+                    value->is_lvalue = 1;
+
+                // The address of an object with automatic storage duration isn't constant
+                if (!value->global_symbol) value->is_not_constant = 1;
+            }
 
             break;
         }
 
         case TOK_SIZEOF: {
-            int size = parse_sizeof(parse_constant_expression);
+            int size = parse_sizeof(parse_unevaluated_expression);
             value = new_integral_constant(TYPE_LONG, size);
             value->type->is_unsigned = 1;
             break;
@@ -453,17 +590,17 @@ Value *parse_constant_expression(int level) {
             case TOK_LBRACKET:
                 next();
 
-                if (value->type->type != TYPE_PTR && value->type->type != TYPE_ARRAY)
-                    error("Invalid operator [] on a non-pointer and non-array");
-
-                Value *subscript_value = parse_constant_expression(TOK_COMMA);
+                value = make_rvalue(value);
+                Value *subscript_value = make_rvalue(parse_expression_level(TOK_COMMA));
                 consume(TOK_RBRACKET, "]");
 
-                if (!subscript_value->is_constant || !is_integer_type(subscript_value->type))
+                if (!is_pointer_type(value->type) && !is_pointer_type(subscript_value->type))
+                    error("Invalid operator [] on a non-pointer and non-array");
+
+                if (!is_integer_type(value->type) && !is_integer_type(subscript_value->type))
                     error("Expected an integer constant integer expression in []");
 
-                value->address_of_offset += get_type_size(value->type->target) * subscript_value->int_value;
-                value->type = value->type->target;
+                value = indirect(evaluate_address_plus_minus(IR_ADD, value, subscript_value));
 
                 break;
 
@@ -472,14 +609,15 @@ Value *parse_constant_expression(int level) {
                 if (cur_token == TOK_DOT && value->type->type != TYPE_STRUCT_OR_UNION)
                     error("Can only use . on a struct or union");
 
-                if (cur_token != TOK_DOT) {
+                int is_dot = cur_token == TOK_DOT;
+
+                if (!is_dot) {
+                    value = make_rvalue(value);
                     if (!is_pointer_type(value->type)) error("Cannot use -> on a non-pointer");
                     if (value->type->target->type != TYPE_STRUCT_OR_UNION) error("Can only use -> on a pointer to a struct or union");
                     if (is_incomplete_type(value->type->target)) error("Dereferencing a pointer to incomplete struct or union");
                 }
 
-                int is_dot = cur_token == TOK_DOT;
-
                 next();
                 consume(TOK_IDENTIFIER, "identifier");
 
@@ -487,6 +625,7 @@ Value *parse_constant_expression(int level) {
 
                 StructOrUnionMember *member = lookup_struct_or_union_member(value->type, cur_identifier);
 
+                value = dup_value(value);
                 value->address_of_offset += member->offset;
                 value->bit_field_size = member->bit_field_size;
                 value->type = dup_type(member->type);
@@ -525,6 +664,16 @@ Value *parse_constant_expression(int level) {
     return value;
 }
 
+// Parse a constant expression. String literals are left as they are, since they may be
+// used to initialize an array.
+Value *parse_constant_expression(int level) {
+    Value *value = parse_expression_level(level);
+    if (value->is_string_literal && value->type->type == TYPE_ARRAY) return value;
+    value = make_rvalue(value);
+    if (value->is_not_constant) error("Expected a constant expression");
+    return value;
+}
+
 Value *parse_constant_integer_expression(int all_longs) {
     integers_are_longs = all_longs;
 
diff --git a/parser.c b/parser.c
index a7dab9b..7e58bcb 100644
--- a/parser.c
+++ b/parser.c
@@ -1828,10 +1828,18 @@ static void add_initializer(Value *dst, Value *scalar) {
 
     if (!s->initializers) s->initializers = new_list(INITIAL_INITALIZERS_COUNT);
 
-    if (!scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY)
+    if (scalar->is_string_literal && scalar->type->type == TYPE_ARRAY) {
+        scalar->type = decay_array_to_pointer(scalar->type);
+        scalar->is_address_of = 1;
+    }
+
+    if (!scalar->is_constant && !scalar->is_address_of)
         error("An initializer for an object with static storage duration must be a constant expression");
 
-    if (!scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY) scalar = cast_constant_value(scalar, dst->type);
+    scalar = cast_constant_value(scalar, dst->type);
+
+    if (scalar->is_address_of && (dst->bit_field_size || get_type_size(dst->type) != 8))
+        error("An initializer for an object with static storage duration must be a constant expression");
 
     if (dst->bit_field_size) {
         add_bit_field_initializer(dst, scalar);
@@ -1859,14 +1867,6 @@ static void add_initializer(Value *dst, Value *scalar) {
         in->string_literal_index = scalar->string_literal_index;
         in->symbol = scalar->global_symbol;
     }
-    else if (scalar->is_string_literal) {
-        in->is_string_literal = 1;
-        in->string_literal_index = scalar->string_literal_index;
-        in->address_of_offset = scalar->address_of_offset;
-    }
-    else if (scalar->type->type == TYPE_ARRAY) {
-        in->symbol = scalar->global_symbol;
-    }
     else {
         in->data = wmalloc(sizeof(long));
         *((long *) in->data) = scalar->int_value;
@@ -1994,7 +1994,7 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
         else {
             parsed_expression = parse_expr(TOK_EQ);
 
-            if (parsed_expression->is_string_literal) {
+            if (parsed_expression->is_string_literal && parsed_expression->type->type == TYPE_ARRAY) {
                 while (!is_scalar_type(it->type) && !is_array_for_string_literal(it->type, parsed_expression))
                     it = descend_in_initializer(it, value);
 
diff --git a/wcc.h b/wcc.h
index c12f5bd..947d41c 100644
--- a/wcc.h
+++ b/wcc.h
@@ -305,6 +305,7 @@ typedef struct value {
     unsigned int is_string_literal:1;                    // Is the value a string literal?
     unsigned int has_been_renamed:1;                     // Used in renaming and stack renumbering code
     unsigned int is_address_of:1;                        // Is an address of a constant expression.
+    unsigned int is_not_constant:1;                      // Is part of a constant expression, but isn't constant
     unsigned int has_struct_or_union_return_value:1;     // Is it a function call that returns a struct/union?
     unsigned int load_from_got:1;                        // Load from Global Offset Table (GOT)
     int local_index;                                     // Used by parser for local variable and temporaries and function arguments
-- 
2.43.0


From d4f7075203c7cda934a4d4199c4c1a3fa0f92f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:06 +0000
Subject: [PATCH 045/126] fix: subtraction from an array

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index 7e58bcb..0de098a 100644
--- a/parser.c
+++ b/parser.c
@@ -2116,11 +2116,13 @@ static void parse_addition(int level, int for_array_subscript) {
 }
 
 static void parse_subtraction(int level) {
+    if (vtop()->type->type == TYPE_ARRAY) push(decay_array_value(pl()));
     Value *src1 = vtop();
 
     int factor = get_type_inc_dec_size(vtop()->type);
 
     parse_expression(level);
+    if (vtop()->type->type == TYPE_ARRAY) push(decay_array_value(pl()));
     Value *src2 = vtop();
 
     check_minus_operation_type(src1, src2);
-- 
2.43.0


From f09a0354dea2c406a31c5a0b3c14d3a74679900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:34 +0000
Subject: [PATCH 046/126] fix: structs as initializers for structs that start
 with an unnamed bit field

---
 parser.c | 4 ++--
 types.c  | 1 +
 wcc.h    | 1 +
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 0de098a..bd11f87 100644
--- a/parser.c
+++ b/parser.c
@@ -2013,7 +2013,7 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
         // assigned directly to the first struct that has a compatible type.
         int is_struct = 0;
         while (!is_scalar_type(it->type)) {
-            is_struct = src->type->type == TYPE_STRUCT_OR_UNION && it->offset == it->start_offset
+            is_struct = src->type->type == TYPE_STRUCT_OR_UNION && it->index == it->start_index
                 && types_are_compatible_ignore_qualifiers(it->type, src->type);
             if (is_struct) break;
             it = descend_in_initializer(it, value);
@@ -2024,7 +2024,7 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
 
         Value *child = dup_value(value);
         child->global_symbol = value->global_symbol;
-        child->offset = it->offset;
+        child->offset = is_struct ? it->start_offset : it->offset;
         child->bit_field_offset = it->bit_field_offset;
         child->bit_field_size = it->bit_field_size;
         child->type = it->type;
diff --git a/types.c b/types.c
index aa00bdf..0501f0f 100644
--- a/types.c
+++ b/types.c
@@ -965,6 +965,7 @@ static TypeIterator *type_iterator_at_offset(Type *type, int offset) {
     it->offset = offset;
     it->start_offset = offset;
     if (type->type == TYPE_STRUCT_OR_UNION) type_iterator_set_member(it);
+    it->start_index = it->index;
 
     return it;
 }
diff --git a/wcc.h b/wcc.h
index 947d41c..267e1a2 100644
--- a/wcc.h
+++ b/wcc.h
@@ -175,6 +175,7 @@ typedef struct type_iterator {
     int index;                      // The index within the type. -1 if the end has been reached
     int offset;                     // Offset at the position of the iterator
     int start_offset;               // Offset when the iterator started on an array or struct/union
+    int start_index;                // Index when the iterator started
     int bit_field_offset;           // Bit field offset if the scalar is a bit field
     int bit_field_size;             // Bit field size if the scalar is a bit field
     struct type_iterator *parent;   // Parent to recurse back to
-- 
2.43.0


From c2abdfcfa51e43e39f63468423b8ec9b7c254a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:23 +0000
Subject: [PATCH 047/126] fix: enum parameters passed on the stack and old
 style redeclarations of functions

---
 functions.c |  1 +
 types.c     | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/functions.c b/functions.c
index 442e9aa..98b099e 100644
--- a/functions.c
+++ b/functions.c
@@ -1414,6 +1414,7 @@ void add_function_param_moves(Function *function, char *identifier) {
         if (fpa_pl(fpa, fpa_start + i).locations[0].stack_offset == -1) continue;
 
         Type *type = function->type->function->param_types->elements[i];
+        if (type->type == TYPE_ENUM) type = new_type(TYPE_INT);
 
         int stack_index = (fpa_pl(fpa, fpa_start + i).locations[0].stack_offset + 16) >> 3;
 
diff --git a/types.c b/types.c
index 0501f0f..f8372eb 100644
--- a/types.c
+++ b/types.c
@@ -598,6 +598,9 @@ static int struct_or_unions_are_compatible(StructOrUnion *s1, StructOrUnion *s2,
 static int functions_are_compatible(Type *type1, Type *type2, StrMap *seen_tags) {
     if (!recursive_types_are_compatible(type1->target, type2->target, seen_tags, 1)) return 0;
 
+    // If both have an old style parameter list then there is nothing to check
+    if (type1->function->is_paramless && type2->function->is_paramless) return 1;
+
     // Both are non variadic and one of them has an old style parameter list
     if (!type1->function->is_variadic && !type2->function->is_variadic && type1->function->is_paramless != type2->function->is_paramless) {
         // Swap so that type1 is paramless, type2 is not
@@ -728,7 +731,12 @@ Type *composite_type(Type *type1, Type *type2) {
         return make_pointer(composite_type(type1->target, type2->target));
 
     if (type1->type == TYPE_FUNCTION) {
-        if (type1->function->param_count == 0 && type2->function->param_count != 0)
+        // If one has an old style parameter list, the other prototype determines the type
+        if (type1->function->is_paramless && !type2->function->is_paramless)
+            return type2;
+        else if (type2->function->is_paramless && !type1->function->is_paramless)
+            return type1;
+        else if (type1->function->param_count == 0 && type2->function->param_count != 0)
             return type2;
         else if (type2->function->param_count == 0 && type1->function->param_count != 0)
             return type1;
-- 
2.43.0


From 240648a41ff5a61c6accd93a58d82a199561922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:19 +0000
Subject: [PATCH 048/126] fix: array parameters passed on the stack and casts
 of functions to integers

---
 functions.c | 1 +
 parser.c    | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/functions.c b/functions.c
index 98b099e..0a1f9c0 100644
--- a/functions.c
+++ b/functions.c
@@ -1414,6 +1414,7 @@ void add_function_param_moves(Function *function, char *identifier) {
         if (fpa_pl(fpa, fpa_start + i).locations[0].stack_offset == -1) continue;
 
         Type *type = function->type->function->param_types->elements[i];
+        if (type->type == TYPE_ARRAY) type = decay_array_to_pointer(type);
         if (type->type == TYPE_ENUM) type = new_type(TYPE_INT);
 
         int stack_index = (fpa_pl(fpa, fpa_start + i).locations[0].stack_offset + 16) >> 3;
diff --git a/parser.c b/parser.c
index bd11f87..16d802b 100644
--- a/parser.c
+++ b/parser.c
@@ -2854,7 +2854,7 @@ static void parse_expression(int level) {
                             push(cast_constant_value(v1, dst_type));
                     }
                     else if (dst_type->type != TYPE_VOID && v1->type != dst_type) {
-                        if (v1->type->type == TYPE_FUNCTION) v1 = load_function(v1, dst_type);
+                        if (v1->type->type == TYPE_FUNCTION) v1 = load_function(v1, v1->type);
 
                         // Add move instruction
                         Value *dst = new_value();
-- 
2.43.0


From d7236b832ffb04ac8afbcab9546615b66a34af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:25 +0000
Subject: [PATCH 049/126] fix: conversions of function pointers to integers
 without a coalesced register

---
 instrrules.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index afc4133..6108ba7 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1714,10 +1714,10 @@ void define_rules(void) {
     r = add_rule(0, IR_LOAD_LONG_DOUBLE, MLD5, 0, 1); add_op(r, X_MOVC, DST, SRC1, 0, "fldt %v1L");
 
     // Function pointers
-    r = add_rule(XRI, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
-    r = add_rule(XRU, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
-    r = add_rule(XRP, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
-    r = add_rule(RP5, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(XRI, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "mov%s %v1, %vd"); fin_rule(r);
+    r = add_rule(XRU, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "mov%s %v1, %vd"); fin_rule(r);
+    r = add_rule(XRP, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+    r = add_rule(RP5, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(RPF, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, RP1, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, RP2, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
-- 
2.43.0


From aabc14556c36fbd6872bfa283ac7a52121b8df5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 050/126] fix: structs of one register size passed on the stack

---
 instrsel.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instrsel.c b/instrsel.c
index d172aa1..5c96d93 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -416,10 +416,11 @@ static void make_igraphs(Function *function, int block_id) {
         // If dst is only used once and it's not in liveout, merge it.
         // Also, don't merge IR_CALLs. The IR_START_CALL and IR_END_CALL constraints don't permit
         // rearranging function calls without dire dowmstream side effects.
+        // IR_MOVE_STACK_PTR has no operands, and so can only be the root of a tree.
         // IR_CALL_ARG_REG is also off limits, since it's a placeholder for function
         // arg registers and no code is actually emitted.
         if (vreg_igraphs[dst].count == 1 && vreg_igraphs[dst].igraph_id != -1 &&
-            tac->operation != IR_CALL && tac->operation != IR_MOVE_TO_PTR &&
+            tac->operation != IR_CALL && tac->operation != IR_MOVE_TO_PTR && tac->operation != IR_MOVE_STACK_PTR &&
             igraphs[g1_igraph_id].nodes[0].tac->operation != IR_CALL_ARG_REG &&
             tac->operation != IR_CALL_ARG_REG &&
             igraphs_are_neighbors(igraphs, i, g1_igraph_id)
-- 
2.43.0


From 0d128e85e3f8272bedbb5d5c90b8bd86f4f04538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 051/126] fix: old style parameters of types that get promoted

---
 parser.c | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 16d802b..6fa0fe1 100644
--- a/parser.c
+++ b/parser.c
@@ -48,6 +48,7 @@ Value *parse_expression_and_pop(int level);
 static void parse_statement(void);
 static void parse_expression(int level);
 static void parse_compound_statement(void);
+static void add_simple_assignment_instruction(Value *dst, Value *src1, int enforce_const);
 
 static BaseType *base_type;
 
@@ -759,7 +760,8 @@ static void parse_function_paramless_declaration_list(Function *function) {
             int found_identifier = 0;
             for (int i = 0; i < function->type->function->param_count; i++) {
                 if (!strcmp(function->type->function->param_identifiers->elements[i], cur_type_identifier)) {
-                    function->type->function->param_types->elements[i] = type;
+                    // The caller passes the argument after applying the default argument promotions
+                    function->type->function->param_types->elements[i] = apply_default_function_call_argument_promotions(type);
                     found_identifier = 1;
                     break;
                 }
@@ -776,6 +778,34 @@ static void parse_function_paramless_declaration_list(Function *function) {
     }
 }
 
+// Old style parameters are passed with their promoted type. Narrow the ones that have been declared with
+// a type that gets promoted by storing them in a local variable.
+static void add_paramless_parameter_conversions(Function *function) {
+    FunctionType *function_type = function->type->function;
+
+    vs = vs_start; // Reset value stack
+
+    for (int i = 0; i < function_type->param_count; i++) {
+        Symbol *symbol = lookup_symbol(function_type->param_identifiers->elements[i], function_type->scope, 0);
+        Type *promoted_type = function_type->param_types->elements[i];
+        if (symbol->type->type == promoted_type->type) continue;
+
+        Value *src = new_value();
+        src->type = dup_type(promoted_type);
+        src->is_lvalue = 1;
+        src->local_index = i + 2;
+
+        Value *dst = new_value();
+        dst->type = dup_type(symbol->type);
+        dst->is_lvalue = 1;
+        dst->local_index = symbol->local_index = new_local_index();
+
+        push(src);
+        add_simple_assignment_instruction(dst, pl(), 0);
+        pop();
+    }
+}
+
 Type *parse_direct_declarator(void) {
     Type *type = 0;
 
@@ -3570,6 +3600,8 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
 
         cur_function_symbol->function->static_symbols = new_list(128);
 
+        if (type->function->is_paramless) add_paramless_parameter_conversions(symbol->function);
+
         parse_compound_statement();
 
         cur_function_symbol->function->is_defined = 1;
-- 
2.43.0


From d343a87c36ad1ca3743fdd9487b5c092e722fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 052/126] fix: struct arguments clobbering argument registers
 and unions of long doubles and integers

---
 functions.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/functions.c b/functions.c
index 0a1f9c0..5071947 100644
--- a/functions.c
+++ b/functions.c
@@ -642,6 +642,15 @@ void add_function_call_arg_moves_for_preg_class(Function *function, int preg_cla
             // Allocated registers that hold the argument value
             Value **function_call_values = wcalloc(register_count, sizeof(Value *));
 
+            // The pointer to the struct/union return value is already in RDI, it must not be clobbered by the moves.
+            if (preg_class == PC_INT && ir->prev && ir->prev->dst && ir->prev->dst->live_range_preg == LIVE_RANGE_PREG_RDI_INDEX)
+                function_call_values[0] = dup_value(ir->prev->dst);
+
+            // The moves must come before the IR_CALL_ARG_REG instructions of the other preg class, so that they
+            // don't clobber the registers.
+            Tac *moves_ir = ir;
+            while (moves_ir->prev && moves_ir->prev->operation == IR_CALL_ARG_REG && moves_ir->prev->src1) moves_ir = moves_ir->prev;
+
             // Add the moves backwards so that arg 0 (rsi) is last.
             int i = 0;
 
@@ -682,13 +691,13 @@ void add_function_call_arg_moves_for_preg_class(Function *function, int preg_cla
                 Type *function_call_vreg_type;
                 if (type->type == TYPE_STRUCT_OR_UNION) {
                     FunctionParamLocation *location = lookup_location(preg_class, i, *pls);
-                    function_call_vreg = make_struct_or_union_arg_move_instructions(function, ir, *call_arg, preg_class, i, location, &arg_register_set);
+                    function_call_vreg = make_struct_or_union_arg_move_instructions(function, moves_ir, *call_arg, preg_class, i, location, &arg_register_set);
                     function_call_vreg_type = preg_class == PC_INT ? new_type(TYPE_LONG) : new_type(TYPE_DOUBLE);
                 }
                 else {
                     if (type->type == TYPE_ARRAY) type = decay_array_to_pointer(type);
                     if (type->type == TYPE_ENUM) type = new_type(TYPE_INT);
-                    function_call_vreg = add_arg_move_to_register(function, ir, type, *call_arg, preg_class, i, &arg_register_set);
+                    function_call_vreg = add_arg_move_to_register(function, moves_ir, type, *call_arg, preg_class, i, &arg_register_set);
                     function_call_vreg_type = (*call_arg)->type;
                 }
 
@@ -1651,8 +1660,9 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
             fpl->count = eight_bytes_count;
 
             // If one of the classes is MEMORY, the whole argument is passed in memory.
+            // An eight byte of a long double that's shared with an integer in a union is an INTEGER.
             int in_memory = 0;
-            for (int i = 0; i < eight_bytes_count; i++) in_memory |= seen_memory[i];
+            for (int i = 0; i < eight_bytes_count; i++) in_memory |= seen_memory[i] && !seen_integer[i];
 
             if  (in_memory || unaligned) {
                 // The entire thing is on the stack
-- 
2.43.0


From 9a832ed4b839501b5b9d2c887cb04cedf0617bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 053/126] fix: allocate vregs that need a specific physical
 register first

---
 regalloc.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/regalloc.c b/regalloc.c
index 023db49..0ffedba 100644
--- a/regalloc.c
+++ b/regalloc.c
@@ -146,6 +146,19 @@ exit_color_vreg:;
     free_set(neighbor_colors);
 }
 
+// Make a map of vregs that must be in a specific physical register
+static char *make_forced_vregs(Function *function) {
+    char *result = wcalloc(function->vreg_count + 1, sizeof(char));
+
+    for (Tac *tac = function->ir; tac; tac = tac->next) {
+        if (tac->dst  && tac->dst ->vreg && tac->dst ->live_range_preg) result[tac->dst ->vreg] = 1;
+        if (tac->src1 && tac->src1->vreg && tac->src1->live_range_preg) result[tac->src1->vreg] = 1;
+        if (tac->src2 && tac->src2->vreg && tac->src2->live_range_preg) result[tac->src2->vreg] = 1;
+    }
+
+    return result;
+}
+
 // Allocate/spill registers for all vregs of class preg_class.
 void allocate_registers_top_down(Function *function, int live_range_start, int physical_register_count, int preg_class) {
     char *interference_graph = function->interference_graph;
@@ -211,7 +224,21 @@ void allocate_registers_top_down(Function *function, int live_range_start, int p
             printf("%-2d -> %-2d: %s\n", i, vreg_locations[i].preg, register_name(preg_map[vreg_locations[i].preg]));
     }
 
-    // Color constrained nodes first
+    // Color nodes that must be in a specific physical register, before a neighbor gets it.
+    char *forced_vregs = make_forced_vregs(function);
+    for (int i = 1; i <= vreg_count; i++) {
+        int vreg = ordered_nodes[i].vreg;
+        if (!forced_vregs[vreg]) continue;
+        if (live_range_reserved_pregs_offset > 0 && vreg <= live_range_reserved_pregs_offset) continue;
+        if (!constrained->elements[vreg] && !preferred_pregs->elements[vreg] && !unconstrained->elements[vreg]) continue;
+        color_vreg(interference_graph, vreg_count, vreg_locations, physical_register_count, &stack_register_count, vreg, original_stack_indexes, 0, live_range_start, live_range_end);
+        constrained->elements[vreg] = 0;
+        preferred_pregs->elements[vreg] = 0;
+        unconstrained->elements[vreg] = 0;
+    }
+    wfree(forced_vregs);
+
+    // Color constrained nodes next
     for (int i = 1; i <= vreg_count; i++) {
         int vreg = ordered_nodes[i].vreg;
         if (!constrained->elements[vreg]) continue;
-- 
2.43.0


From fa02672665308f62b4986113fca23abd73fc7447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 054/126] fix: classification of unions with long doubles,
 floats and integers

---
 functions.c | 84 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 70 insertions(+), 14 deletions(-)

diff --git a/functions.c b/functions.c
index 5071947..bba559f 100644
--- a/functions.c
+++ b/functions.c
@@ -22,6 +22,16 @@ typedef struct struct_or_union_scalars {
     int count;
 } StructOrUnionScalars;
 
+// Classes of an eight byte of a function parameter
+enum {
+    PARAMETER_CLASS_NONE,
+    PARAMETER_CLASS_INTEGER,
+    PARAMETER_CLASS_SSE,
+    PARAMETER_CLASS_X87,
+    PARAMETER_CLASS_X87UP,
+    PARAMETER_CLASS_MEMORY,
+};
+
 void init_function_allocations(void) {
     allocated_functions = new_longset();
     allocated_function_param_allocatons = new_list(128);
@@ -1583,6 +1593,63 @@ static void flatten_type(Type *type, StructOrUnionScalars *scalars, int offset,
     }
 }
 
+// Merge the classes of two members in an eight byte, as described in the ABI. The result depends on the order.
+static int merge_parameter_classes(int class1, int class2) {
+    if (class1 == class2) return class1;
+    if (class1 == PARAMETER_CLASS_NONE) return class2;
+    if (class2 == PARAMETER_CLASS_NONE) return class1;
+    if (class1 == PARAMETER_CLASS_MEMORY || class2 == PARAMETER_CLASS_MEMORY) return PARAMETER_CLASS_MEMORY;
+    if (class1 == PARAMETER_CLASS_INTEGER || class2 == PARAMETER_CLASS_INTEGER) return PARAMETER_CLASS_INTEGER;
+    return PARAMETER_CLASS_MEMORY; // One is a long double, the other a float, double or another part of a long double
+}
+
+// Classify the eight bytes of a type of at most 16 bytes that's at offset. Returns zero if it's passed in memory.
+static int classify_parameter(Type *type, int offset, int *classes) {
+    if (type->type == TYPE_STRUCT_OR_UNION || type->type == TYPE_ARRAY) {
+        int is_array = type->type == TYPE_ARRAY;
+        int count = is_array ? type->array_size : 0;
+        StructOrUnionMember **pmember = 0;
+
+        if (!is_array)
+            for (pmember = type->struct_or_union_desc->members; pmember[count]; count++);
+
+        int element_size = is_array ? get_type_size(type->target) : 0;
+
+        for (int i = 0; i < count; i++) {
+            int member_classes[2] = { PARAMETER_CLASS_NONE, PARAMETER_CLASS_NONE };
+
+            if (is_array) {
+                if (!classify_parameter(type->target, offset + element_size * i, member_classes)) return 0;
+            }
+            else {
+                StructOrUnionMember *member = pmember[i];
+                if (member->is_bit_field && !member->bit_field_size) continue;
+                if (!classify_parameter(member->type, offset + member->offset, member_classes)) return 0;
+            }
+
+            for (int j = 0; j < 2; j++) classes[j] = merge_parameter_classes(classes[j], member_classes[j]);
+        }
+
+        for (int j = 0; j < 2; j++) {
+            if (classes[j] == PARAMETER_CLASS_MEMORY) return 0;
+            if (classes[j] == PARAMETER_CLASS_X87UP && (!j || classes[j - 1] != PARAMETER_CLASS_X87)) return 0;
+        }
+
+        return 1;
+    }
+
+    int eight_byte = (offset >> 3) & 1;
+
+    if (type->type == TYPE_LONG_DOUBLE) {
+        classes[0] = PARAMETER_CLASS_X87;
+        classes[1] = PARAMETER_CLASS_X87UP;
+    }
+    else
+        classes[eight_byte] = is_sse_floating_point_type(type) ? PARAMETER_CLASS_SSE : PARAMETER_CLASS_INTEGER;
+
+    return 1;
+}
+
 static void add_single_stack_function_param_location(FunctionParamAllocation *fpa, Type *type) {
     FunctionParamLocations *fpl = wcalloc(1, sizeof(FunctionParamLocations));
     append_to_list(fpa->param_locations, fpl);
@@ -1619,8 +1686,6 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
 
             // Classify the eight bytes
             char *seen_integer = wcalloc(8, sizeof(char));
-            char *seen_sse = wcalloc(8, sizeof(char));
-            char *seen_memory = wcalloc(8, sizeof(char));
             char *member_counts = wcalloc(8, sizeof(char));
 
             int unaligned = 0;
@@ -1640,12 +1705,6 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
 
                 if (type_fits_in_single_int_register(scalar->type))
                     seen_integer[eight_byte] = 1;
-                else if (is_sse_floating_point_type(scalar->type))
-                    seen_sse[eight_byte] = 1;
-                else {
-                    seen_memory[eight_byte] = 1;
-                    seen_memory[eight_byte + 1] = 1;
-                }
 
                 if (!scalar->is_bit_field && scalar->offset & (get_type_alignment(scalar->type) - 1))
                     unaligned = 1;
@@ -1659,10 +1718,9 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
             fpl->locations = wmalloc(sizeof(FunctionParamLocation) * eight_bytes_count);
             fpl->count = eight_bytes_count;
 
-            // If one of the classes is MEMORY, the whole argument is passed in memory.
-            // An eight byte of a long double that's shared with an integer in a union is an INTEGER.
-            int in_memory = 0;
-            for (int i = 0; i < eight_bytes_count; i++) in_memory |= seen_memory[i] && !seen_integer[i];
+            // If one of the classes is MEMORY or a long double, the whole argument is passed in memory.
+            int classes[2] = { PARAMETER_CLASS_NONE, PARAMETER_CLASS_NONE };
+            int in_memory = !classify_parameter(type, 0, classes) || classes[0] == PARAMETER_CLASS_X87;
 
             if  (in_memory || unaligned) {
                 // The entire thing is on the stack
@@ -1706,8 +1764,6 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
             }
 
             wfree(seen_integer);
-            wfree(seen_sse);
-            wfree(seen_memory);
             wfree(member_counts);
 
             for (int i = 0; i < scalars->count; i++) wfree(scalars->scalars[i]);
-- 
2.43.0


From fa10aad6e5d1b90210504b198139ea5513ab01ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 055/126] fix: stack parameter at stack index 256 and varargs
 after an aligned stack parameter

---
 codegen.c   | 9 +--------
 functions.c | 3 ++-
 wcc.h       | 4 ----
 3 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/codegen.c b/codegen.c
index f3a1f15..5faed12 100644
--- a/codegen.c
+++ b/codegen.c
@@ -162,14 +162,7 @@ void make_stack_offsets(Function *function, char *function_name) {
 
     // Assign stack_offsets
     for (Tac *tac = function->ir; tac; tac = tac->next) {
-        // Special case for functions with a va_list. A src1 with stack_index OVERFLOW_AREA_ADDRESS_MAGIC_STACK_INDEX
-        // needs to be reassigned with address where the pushed varargs start
-        if (tac->src1 && tac->src1->stack_index == OVERFLOW_AREA_ADDRESS_MAGIC_STACK_INDEX) {
-            tac->src1->stack_index = 2 + (function->fpa->size >> 3);
-        }
-        else
-            if (tac->src1 && tac->src1->stack_index < 0) tac->src1->stack_offset = stack_offsets[-tac->src1->stack_index];
-
+        if (tac->src1 && tac->src1->stack_index < 0) tac->src1->stack_offset = stack_offsets[-tac->src1->stack_index];
         if (tac ->dst && tac ->dst->stack_index < 0) tac ->dst->stack_offset = stack_offsets[-tac ->dst->stack_index];
         if (tac->src2 && tac->src2->stack_index < 0) tac->src2->stack_offset = stack_offsets[-tac->src2->stack_index];
     }
diff --git a/functions.c b/functions.c
index bba559f..736f75c 100644
--- a/functions.c
+++ b/functions.c
@@ -1021,7 +1021,8 @@ static void process_function_va_start(Function *function, Tac *ir) {
     overflow->type = make_pointer_to_void();
     overflow->vreg = 0;
     overflow->offset = 0;
-    overflow->stack_index = OVERFLOW_AREA_ADDRESS_MAGIC_STACK_INDEX;
+    // The varargs start in the first eight bytes after the last named parameter on the stack
+    overflow->stack_index = 2 + ((function->fpa->offset + 7) >> 3);
     ir = insert_instruction_after_from_operation(ir, IR_ADDRESS_OF, tmp_dst, overflow, 0);
 
     dst = dup_value(dst);
diff --git a/wcc.h b/wcc.h
index 267e1a2..ac72d5a 100644
--- a/wcc.h
+++ b/wcc.h
@@ -594,10 +594,6 @@ enum {
     REG_XMM15,
 };
 
-enum {
-    OVERFLOW_AREA_ADDRESS_MAGIC_STACK_INDEX = 256
-};
-
 typedef struct string_literal {
     char *data;
     int size;
-- 
2.43.0


From 49aee066b07f9185792617178d3f2e85a6d39320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 056/126] fix: va_list operands that are members, array
 elements or dereferenced pointers

---
 functions.c      | 78 ++++++++++++++++++++----------------------------
 include/stdarg.h |  2 +-
 parser.c         |  3 ++
 3 files changed, 37 insertions(+), 46 deletions(-)

diff --git a/functions.c b/functions.c
index 736f75c..980997d 100644
--- a/functions.c
+++ b/functions.c
@@ -986,6 +986,31 @@ static void add_function_vararg_param_moves(Function *function, FunctionParamAll
     ir->label = ldone->label;
 }
 
+// Write a value to va_list. This could be either directly from the stack or from
+// an lvalue in a register.
+static Tac *write_to_va_list(Function *function, Tac *ir, Value *va_list, Value *value, int offset) {
+    Value *dst = dup_value(va_list);
+
+    if (va_list->vreg) {
+        // va_list is a pointer in a register. Load it, add the offset to it, then
+        // write to the pointer.
+
+        Value *tmp = dup_value(dst);
+        tmp->is_lvalue = 1;
+        tmp->offset = offset;
+        tmp->type = value->type;
+        ir = insert_instruction_after_from_operation(ir, IR_MOVE, tmp, value, 0);
+    }
+    else {
+        // Write to the stack
+        dst->type = value->type;
+        dst->offset = offset;
+        ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, value, 0);
+    }
+
+    return ir;
+}
+
 // Add code for a va_start() call. The va_list struct, present in src1, has to be
 // populated.
 static void process_function_va_start(Function *function, Tac *ir) {
@@ -1000,45 +1025,31 @@ static void process_function_va_start(Function *function, Tac *ir) {
     fp_offset_value->is_constant = 1;
     fp_offset_value->int_value = function->fpa->single_int_register_arg_count * 8;
 
-    Value *dst = dup_value(va_list);
-    dst->type = new_type(TYPE_INT);
-    dst->type->is_unsigned = 1;
-    ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, fp_offset_value, 0);
+    ir = write_to_va_list(function, ir, va_list, fp_offset_value, 0);
 
     // Set va_list.gp_offset, the offset of the first vararg SSE register
     Value *gp_offset_value = dup_value(fp_offset_value);
     gp_offset_value->int_value = 48 + function->fpa->single_sse_register_arg_count * 16;
-    dst = dup_value(dst);
-    dst->offset = 4;
-    ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, gp_offset_value, 0);
+    ir = write_to_va_list(function, ir, va_list, gp_offset_value, 4);
 
     // Set va_list.overflow_arg_area, the address of the first vararg pushed on the stack
-    Value *tmp_dst = dup_value(dst);
+    Value *tmp_dst = new_value();
     tmp_dst->type = make_pointer_to_void();
     tmp_dst->vreg = ++function->vreg_count;
 
-    Value *overflow = dup_value(dst);
-    overflow->type = make_pointer_to_void();
-    overflow->vreg = 0;
-    overflow->offset = 0;
     // The varargs start in the first eight bytes after the last named parameter on the stack
+    Value *overflow = new_value();
+    overflow->type = make_pointer_to_void();
+    overflow->is_lvalue = 1;
     overflow->stack_index = 2 + ((function->fpa->offset + 7) >> 3);
     ir = insert_instruction_after_from_operation(ir, IR_ADDRESS_OF, tmp_dst, overflow, 0);
-
-    dst = dup_value(dst);
-    dst->type = make_pointer_to_void();
-    dst->offset = 8;
-    ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, tmp_dst, 0);
+    ir = write_to_va_list(function, ir, va_list, tmp_dst, 8);
 
     // Set va_list.reg_save_area, the address of the register save area
     tmp_dst = dup_value(tmp_dst);
     tmp_dst->vreg = ++function->vreg_count;
     ir = insert_instruction_after_from_operation(ir, IR_ADDRESS_OF, tmp_dst, function->register_save_area, 0);
-
-    dst = dup_value(dst);
-    dst->type = make_pointer_to_void();
-    dst->offset = 16;
-    ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, tmp_dst, 0);
+    ir = write_to_va_list(function, ir, va_list, tmp_dst, 16);
 }
 
 // Read a value from va_list. This could be either directly from the stack or from
@@ -1072,29 +1083,6 @@ static Tac *read_from_va_list(Function *function, Tac *ir, Value *va_list, Type
     return ir;
 }
 
-// Write a value to va_list. This could be either directly from the stack or from
-// an lvalue in a register.
-static Tac *write_to_va_list(Function *function, Tac *ir, Value *va_list, Value *value, int offset) {
-    Value *dst = dup_value(va_list);
-
-    if (va_list->vreg) {
-        // va_list is a pointer in a register. Load it, add the offset to it, then
-        // write to the pointer.
-
-        Value *tmp = dup_value(dst);
-        tmp->is_lvalue = 1;
-        tmp->offset = offset;
-        tmp->type = value->type;
-        ir = insert_instruction_after_from_operation(ir, IR_MOVE, tmp, value, 0);
-    }
-    else {
-        // Write to the stack
-    dst->type = value->type;
-        dst->offset = offset;
-        ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, value, 0);
-    }
-}
-
 // Add instructions that read the FP or GP offset, determine if the type can fit
 // in a register, and if not, jmp to the stack read label fetch_from_stack.
 static Tac *add_function_va_arg_in_register_check(Function *function, Tac *ir, Type *type, Value *va_list, int gp_count, int fp_count, Value *fetch_from_stack, Value **result_gp_fp_offset) {
diff --git a/include/stdarg.h b/include/stdarg.h
index 34b9370..aa217dc 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -8,7 +8,7 @@ typedef struct __va_list {
     void *reg_save_area;
 } va_list[1];
 
-#define va_copy(dst, src) *dst = *src
+#define va_copy(dst, src) (*(dst) = *(src))
 
 #define va_end(ap)
 
diff --git a/parser.c b/parser.c
index 6fa0fe1..6801da6 100644
--- a/parser.c
+++ b/parser.c
@@ -2463,6 +2463,9 @@ static Value *parse_va_list() {
     if (!types_are_compatible(va_list->type, wcc_va_list_array_type) && !types_are_compatible(va_list->type, wcc_va_list_pointer_type))
         error("Expected va_list type as first argument to va_start");
 
+    // A pointer, or an array that isn't simply a variable, needs its address in a register
+    if (va_list->type->type != TYPE_ARRAY || va_list->vreg || va_list->offset) va_list = load(va_list);
+
     return va_list;
 }
 
-- 
2.43.0


From c4698d079faa8f52a066d0697277da816e03f64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 057/126] fix: va_arg of structs and unions with mixed classes,
 partial eight bytes and 16 byte alignment

---
 functions.c | 114 +++++++++++++++++++++++++++++++++-------------------
 ir.c        |  10 ++---
 wcc.h       |   2 +-
 3 files changed, 76 insertions(+), 50 deletions(-)

diff --git a/functions.c b/functions.c
index 980997d..29ba106 100644
--- a/functions.c
+++ b/functions.c
@@ -1083,23 +1083,21 @@ static Tac *read_from_va_list(Function *function, Tac *ir, Value *va_list, Type
     return ir;
 }
 
-// Add instructions that read the FP or GP offset, determine if the type can fit
-// in a register, and if not, jmp to the stack read label fetch_from_stack.
-static Tac *add_function_va_arg_in_register_check(Function *function, Tac *ir, Type *type, Value *va_list, int gp_count, int fp_count, Value *fetch_from_stack, Value **result_gp_fp_offset) {
+// Add instructions that read the GP or FP offset at the given offset in the va_list. If the
+// amount of register save area left after it isn't enough, jmp to the stack read label fetch_from_stack.
+static Tac *add_function_va_arg_in_register_check(Function *function, Tac *ir, Value *va_list, int va_list_offset, int last_offset, Value *fetch_from_stack, Value **result_gp_fp_offset) {
     // Read gp_offset or fp_offset into gp_fp_offset register
     Type *gp_fp_offset_type = new_type(TYPE_INT);
     gp_fp_offset_type->is_unsigned = 1;
-    int gp_fp_offset_offset = gp_count ? 0 : 4; // gp_offset or fp_offset
     Value *gp_fp_offset;
-    ir = read_from_va_list(function, ir, va_list, gp_fp_offset_type, gp_fp_offset_type, gp_fp_offset_offset, &gp_fp_offset);
+    ir = read_from_va_list(function, ir, va_list, gp_fp_offset_type, gp_fp_offset_type, va_list_offset, &gp_fp_offset);
 
-    // Check if gp_fp_offset >= 48, and if so jump to the stack fetching code
+    // Check if gp_fp_offset > last_offset, and if so jump to the stack fetching code
     Value *gp_fp_offset_ge_result = new_value();
     gp_fp_offset_ge_result->type = new_type(TYPE_INT);
     gp_fp_offset_ge_result->type->is_unsigned = 1;
     gp_fp_offset_ge_result->vreg = ++function->vreg_count;
 
-    int last_offset = gp_count ? 48 - gp_count * 8 : 176 - fp_count * 16;
     Value *last_offset_value = new_integral_constant(TYPE_INT, last_offset);
     last_offset_value->type->is_unsigned = 1;
 
@@ -1123,40 +1121,67 @@ static int va_arg_size(Type *type) {
         return 8;
 }
 
-// Add instructions to read a vararg from the register save area
-static Tac *add_function_va_arg_register_save_area_read(Function *function, Tac *ir, Type *type, Value *va_list, int gp_count, int fp_count, Value *gp_fp_offset, Value *dst) {
+// Add instructions that add an offset register to the register save area
+static Tac *add_register_save_area_pointer(Function *function, Tac *ir, Type *type, Value *register_save_area, Value *gp_fp_offset, Value **result) {
+    *result = new_value();
+    (*result)->type = make_pointer(type);
+    (*result)->vreg = ++function->vreg_count;
+    return insert_instruction_after_from_operation(ir, IR_ADD, *result, register_save_area, gp_fp_offset);
+}
+
+// Add instructions that write the increased gp_offset or fp_offset back to the va_list
+static Tac *add_gp_fp_offset_increment(Function *function, Tac *ir, Value *va_list, int va_list_offset, Value *gp_fp_offset, int increment) {
+    Value *new_gp_fp_offset = dup_value(gp_fp_offset);
+    new_gp_fp_offset->vreg = ++function->vreg_count;
+    Value *size = new_integral_constant(TYPE_INT, increment);
+    size->type->is_unsigned = 1;
+    ir = insert_instruction_after_from_operation(ir, IR_ADD, new_gp_fp_offset, gp_fp_offset, size);
+    return write_to_va_list(function, ir, va_list, new_gp_fp_offset, va_list_offset);
+}
+
+// Add instructions to read a vararg from the register save area. fpl has the eight bytes
+// of a struct/union, otherwise it's zero.
+static Tac *add_function_va_arg_register_save_area_read(Function *function, Tac *ir, Type *type, Value *va_list, FunctionParamLocations *fpl, int gp_count, int fp_count, Value *gp_offset, Value *fp_offset, Value *dst) {
     // Read register_save_area into register_save_area register
     Value *register_save_area;
     ir = read_from_va_list(function, ir, va_list, make_pointer_to_void(), make_pointer(dst->type), 16, &register_save_area);
 
-    // Add gp_fp_offset to register_save_area
-    Value *ptr = new_value();
-    ptr->type = make_pointer(dst->type);
-    ptr->vreg = ++function->vreg_count;
-    ir = insert_instruction_after_from_operation(ir, IR_ADD, ptr, register_save_area, gp_fp_offset);
+    // Add the offsets to register_save_area
+    Value *gp_ptr = 0;
+    Value *fp_ptr = 0;
+    if (gp_count) ir = add_register_save_area_pointer(function, ir, dst->type, register_save_area, gp_offset, &gp_ptr);
+    if (fp_count) ir = add_register_save_area_pointer(function, ir, dst->type, register_save_area, fp_offset, &fp_ptr);
 
-    if (type->type == TYPE_STRUCT_OR_UNION) {
-        // Copy memory for struct/union
-        Value *memcpy_ptr = dup_value(ptr);
-        memcpy_ptr->is_lvalue = 1;
-        int size = va_arg_size(type);
-        int splay_offsets = fp_count > 0; // Splay offsets if it's an SSE struct
-        ir = add_memory_copy_with_registers(function, ir, dst, memcpy_ptr, size, splay_offsets);
+    if (fpl) {
+        // Copy the eight bytes of a struct/union. Integers are 8 bytes apart in the
+        // register save area and SSE values 16.
+        int size = get_type_size(type);
+        int gp_index = 0;
+        int fp_index = 0;
+
+        for (int i = 0; i < fpl->count; i++) {
+            FunctionParamLocation *location = &(fpl->locations[i]);
+            int is_gp = location->int_register != -1;
+            int offset = location->stru_offset & ~7;
+
+            Value *eight_byte_src = dup_value(is_gp ? gp_ptr : fp_ptr);
+            eight_byte_src->is_lvalue = 1;
+            eight_byte_src->offset = is_gp ? 8 * gp_index++ : 16 * fp_index++;
+
+            Value *eight_byte_dst = dup_value(dst);
+            eight_byte_dst->offset += offset;
+
+            int eight_byte_size = size - offset < 8 ? size - offset : 8;
+            ir = add_memory_copy_with_registers(function, ir, eight_byte_dst, eight_byte_src, eight_byte_size);
+        }
     }
     else
         // Read a scalar value from a pointer
-        ir = insert_instruction_after_from_operation(ir, IR_INDIRECT, dst, ptr, 0);
-
-    // Add 8 or 16 to gp_fp_offset register
-    Value *new_gp_fp_offset = dup_value(gp_fp_offset);
-    new_gp_fp_offset->vreg = ++function->vreg_count;
-    Value *size = new_integral_constant(TYPE_INT, gp_count * 8 + fp_count * 16);
-    size->type->is_unsigned = 1;
-    ir = insert_instruction_after_from_operation(ir, IR_ADD, new_gp_fp_offset, gp_fp_offset, size);
+        ir = insert_instruction_after_from_operation(ir, IR_INDIRECT, dst, gp_count ? gp_ptr : fp_ptr, 0);
 
-    // Write new gp offset back to va_list
-    int offset = gp_count ? 0 : 4; // gp_offset or fp_offset
-    ir = write_to_va_list(function, ir, va_list, new_gp_fp_offset, offset);
+    // Write new offsets back to va_list
+    if (gp_count) ir = add_gp_fp_offset_increment(function, ir, va_list, 0, gp_offset, gp_count * 8);
+    if (fp_count) ir = add_gp_fp_offset_increment(function, ir, va_list, 4, fp_offset, fp_count * 16);
 
     return ir;
 }
@@ -1171,7 +1196,7 @@ static Tac *add_function_va_arg_stack_read(Function *function, Tac *ir, Type *ty
     Value *overflow_arg_area;
     ir = read_from_va_list(function, ir, va_list, make_pointer_to_void(), make_pointer(dst->type), 8, &overflow_arg_area);
 
-    if (type->type == TYPE_LONG_DOUBLE) {
+    if (get_type_alignment(type) > 8) {
         // Align overflow arg area to 16 byte boundary, by adding 15 then anding with ~15
 
         Value *long_overflow_arg_area = dup_value(overflow_arg_area);
@@ -1194,7 +1219,7 @@ static Tac *add_function_va_arg_stack_read(Function *function, Tac *ir, Type *ty
         // Copy memory for struct/union
         Value *memcpy_overflow_arg_area = dup_value(overflow_arg_area);
         memcpy_overflow_arg_area->is_lvalue = 1;
-        ir = add_memory_copy(function, ir, dst, memcpy_overflow_arg_area, size);
+        ir = add_memory_copy(function, ir, dst, memcpy_overflow_arg_area, get_type_size(type));
     }
     else
         // Read a scalar value from a pointer
@@ -1233,11 +1258,12 @@ static void process_function_va_arg(Function *function, Tac *ir) {
     // Determine how many gp and fp registers are needed
     int gp_count = 0; // Integer registers
     int fp_count = 0; // SSE registers
+    FunctionParamLocations *fpl = 0; // The eight bytes of a struct/union
 
     if (type->type == TYPE_STRUCT_OR_UNION) {
         FunctionParamAllocation *fpa = init_function_param_allocaton("vararg struct");
         add_function_param_to_allocation(fpa, type);
-        FunctionParamLocations *fpl = fpa->param_locations->elements[0];
+        fpl = fpa->param_locations->elements[0];
 
         if (fpl->locations[0].stack_offset != -1) {
             // It's on the stack
@@ -1247,10 +1273,12 @@ static void process_function_va_arg(Function *function, Tac *ir) {
 
         // The arg can be in registers. Although it might end up on the stack
         // if registers have run out.
-        else if (fpl->locations[0].int_register != -1)
-            gp_count = fpl->count;
-        else
-            fp_count = fpl->count;
+        for (int i = 0; i < fpl->count; i++) {
+            if (fpl->locations[i].int_register != -1)
+                gp_count++;
+            else
+                fp_count++;
+        }
     }
     else {
         // A scalar arg is either in int (gp) or sse (fp) registers
@@ -1262,11 +1290,13 @@ static void process_function_va_arg(Function *function, Tac *ir) {
     Value *fetch_from_stack = new_label_dst();
 
     // Check if the arg is in the register save area or on stack
-    Value *gp_fp_offset;
-    ir = add_function_va_arg_in_register_check(function, ir, type, va_list, gp_count, fp_count, fetch_from_stack, &gp_fp_offset);
+    Value *gp_offset = 0;
+    Value *fp_offset = 0;
+    if (gp_count) ir = add_function_va_arg_in_register_check(function, ir, va_list, 0, 48 - gp_count * 8, fetch_from_stack, &gp_offset);
+    if (fp_count) ir = add_function_va_arg_in_register_check(function, ir, va_list, 4, 176 - fp_count * 16, fetch_from_stack, &fp_offset);
 
     // Read from register save area & jump to the done label
-    ir = add_function_va_arg_register_save_area_read(function, ir, type, va_list, gp_count, fp_count, gp_fp_offset, dst);
+    ir = add_function_va_arg_register_save_area_read(function, ir, type, va_list, fpl, gp_count, fp_count, gp_offset, fp_offset, dst);
     ir = insert_instruction_after_from_operation(ir, IR_JMP, 0, ldone, 0);
 
     // Add fetch_from_stack label
diff --git a/ir.c b/ir.c
index 9902211..4e3132a 100644
--- a/ir.c
+++ b/ir.c
@@ -903,10 +903,7 @@ Tac *add_memory_copy_with_memcpy(Function *function, Tac *ir, Value *dst, Value
 }
 
 // Copy struct/unions using registers
-//
-// splay_offsets is used when copying a struct with SSE values from the vararg register
-// save area. The SSE registers are saved with an annoying offset of 16 instead of 8.
-Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Value *src1, int size, int splay_offsets) {
+Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Value *src1, int size) {
     int dst_offset = dst->offset;
     int src1_offset = src1->offset;
 
@@ -923,8 +920,7 @@ Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Val
             offsetted_dst->offset = dst_offset;
             offsetted_dst->type = temp_value->type;
             Value *offsetted_src1 = dup_value(src1);
-            int splayed_offset = (splay_offsets && src1_offset >= 8) ? src1_offset + 8 : src1_offset;
-            offsetted_src1->offset = splayed_offset;
+            offsetted_src1->offset = src1_offset;
             offsetted_src1->type = temp_value->type;
 
             if (src1->is_lvalue && src1->vreg) {
@@ -953,7 +949,7 @@ Tac *add_memory_copy(Function *function, Tac *ir, Value *dst, Value *src1, int s
     if (size > 32)
         ir = add_memory_copy_with_memcpy(function, ir, dst, src1, size);
     else
-        ir = add_memory_copy_with_registers(function, ir, dst, src1, size, 0);
+        ir = add_memory_copy_with_registers(function, ir, dst, src1, size);
 
     return ir;
 }
diff --git a/wcc.h b/wcc.h
index ac72d5a..055987d 100644
--- a/wcc.h
+++ b/wcc.h
@@ -1094,7 +1094,7 @@ void determine_bit_field_params(Value *v, int *offset, int *bit_offset, int *bit
 void process_bit_fields(Function *function);
 void remove_unused_function_call_results(Function *function);
 void process_struct_and_union_copies(Function *function);
-Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Value *src1, int size, int splay_offsets);
+Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Value *src1, int size);
 Tac *add_memory_copy(Function *function, Tac *ir, Value *dst, Value *src1, int size);
 void convert_enums(Function *function);
 void add_PIC_load_and_saves(Function *function);
-- 
2.43.0


From f844b4a2e99e0bcdb6d81c865aa0d7d73abd5a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 058/126] fix: variadic calls through a spilled function
 pointer

---
 instrsel.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/instrsel.c b/instrsel.c
index 5c96d93..ab3b4e3 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -1479,8 +1479,10 @@ static void add_spill_load(Tac *ir, int src, int preg) {
 
     // Codegen needs to know if this is a function; in all other cases the spill is
     // done on a full 64 bit register.
-    if (v->type->type == TYPE_FUNCTION)
-        tac->dst->type = new_type(TYPE_FUNCTION);
+    if (v->type->type == TYPE_FUNCTION) {
+        tac->dst->type = v->type;
+        tac->dst->function_call_sse_register_arg_count = v->function_call_sse_register_arg_count;
+    }
     else
         tac->dst->type = new_type(TYPE_LONG);
 
-- 
2.43.0


From c5d60760522146d4c3e463e98bd605d232279eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 059/126] fix: instruction selection of large expressions no
 longer limited by fixed graph sizes

---
 graph.c    | 36 +++++++++++++++++++++++++++++++++++-
 instrsel.c | 34 ++++++++++++++++++++++------------
 wcc.h      |  1 +
 3 files changed, 58 insertions(+), 13 deletions(-)

diff --git a/graph.c b/graph.c
index 93b3502..8853fc1 100644
--- a/graph.c
+++ b/graph.c
@@ -53,8 +53,42 @@ void dump_graph(Graph *g) {
     printf("\n");
 }
 
+// Replace the storage of a graph with a larger one. The nodes and edges point at each other.
+static void grow_graph(Graph *g, int node_count, int max_edge_count) {
+    GraphNode *old_nodes = g->nodes;
+    GraphEdge *old_edges = g->edges;
+    int old_node_count = g->node_count;
+
+    g->node_count = node_count;
+    g->max_edge_count = max_edge_count;
+    allocate_graph_storage(g);
+
+    for (int i = 0; i < node_count; i++) {
+        g->nodes[i].id = i;
+        if (i >= old_node_count) continue;
+        if (old_nodes[i].succ) g->nodes[i].succ = &g->edges[old_nodes[i].succ->id];
+        if (old_nodes[i].pred) g->nodes[i].pred = &g->edges[old_nodes[i].pred->id];
+    }
+
+    for (int i = 0; i < g->edge_count; i++) {
+        GraphEdge *e = &g->edges[i];
+        e->id = i;
+        e->from = &g->nodes[old_edges[i].from->id];
+        e->to = &g->nodes[old_edges[i].to->id];
+        if (old_edges[i].next_succ) e->next_succ = &g->edges[old_edges[i].next_succ->id];
+        if (old_edges[i].next_pred) e->next_pred = &g->edges[old_edges[i].next_pred->id];
+    }
+
+    wfree(old_nodes);
+    wfree(old_edges);
+}
+
+void add_graph_nodes(Graph *g, int count) {
+    grow_graph(g, g->node_count + count, g->max_edge_count);
+}
+
 GraphEdge *add_graph_edge(Graph *g, int from, int to) {
-    if (g->edge_count == g->max_edge_count) panic("Exceeded max graph edge count %d", g->max_edge_count);
+    if (g->edge_count == g->max_edge_count) grow_graph(g, g->node_count, g->max_edge_count * 2);
     if (to < 0 || to >= g->node_count) panic("Node %d out of range %d", to, g->node_count);
     if (from < 0 || from >= g->node_count) panic("Node %d out of range %d", from, g->node_count);
 
diff --git a/instrsel.c b/instrsel.c
index ab3b4e3..cbf33fc 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -5,9 +5,9 @@
 #include "wcc.h"
 
 enum {
-    MAX_INSTRUCTION_GRAPH_EDGE_COUNT = 128,
-    MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT = 1024,
-    MAX_INSTRUCTION_GRAPH_CHOICE_EDGE_COUNT = 1024,
+    INSTRUCTION_GRAPH_EDGE_COUNT = 128,
+    INSTRUCTION_GRAPH_CHOICE_NODE_COUNT = 1024,
+    INSTRUCTION_GRAPH_CHOICE_EDGE_COUNT = 1024,
     MAX_CHOICE_TRAIL_COUNT = 32,
     MAX_SAVED_REGISTERS = 8,
 };
@@ -189,7 +189,7 @@ static IGraph *merge_igraphs(IGraph *g1, IGraph *g2, int vreg) {
     append_to_list(allocated_igraph_nodes, inodes);
 
     g->nodes = inodes;
-    g->graph = new_graph(node_count, MAX_INSTRUCTION_GRAPH_EDGE_COUNT);
+    g->graph = new_graph(node_count, INSTRUCTION_GRAPH_EDGE_COUNT);
     append_to_list(allocated_graphs, g->graph);
     g->node_count = node_count;
     int join_from = -1;
@@ -342,7 +342,7 @@ static void make_igraphs(Function *function, int block_id) {
         IGraphNode *nodes = wcalloc(node_count, sizeof(IGraphNode));
         append_to_list(allocated_igraph_nodes, nodes);
 
-        Graph *graph = new_graph(node_count, MAX_INSTRUCTION_GRAPH_EDGE_COUNT);
+        Graph *graph = new_graph(node_count, INSTRUCTION_GRAPH_EDGE_COUNT);
         append_to_list(allocated_graphs, graph);
 
         nodes[0].tac = tac;
@@ -550,7 +550,7 @@ static IGraph *simplify_igraph(IGraph *src) {
     append_to_list(allocated_igraph_nodes, inodes);
 
     dst->nodes = inodes;
-    dst->graph = new_graph(node_count, MAX_INSTRUCTION_GRAPH_EDGE_COUNT);
+    dst->graph = new_graph(node_count, INSTRUCTION_GRAPH_EDGE_COUNT);
     append_to_list(allocated_graphs, dst->graph);
     dst->node_count = node_count;
 
@@ -741,8 +741,18 @@ static void print_cost_graph(Graph *cost_graph, int *cost_rules, int *accumulate
 }
 
 static int new_cost_graph_node(void) {
-    if (cost_graph_node_count == MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT)
-        panic("MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT");
+    int count = cost_graph->node_count;
+
+    if (cost_graph_node_count == count) {
+        add_graph_nodes(cost_graph, count);
+        cost_rules = wrealloc(cost_rules, 2 * count * sizeof(int));
+        accumulated_cost = wrealloc(accumulated_cost, 2 * count * sizeof(int));
+        cost_to_igraph_map = wrealloc(cost_to_igraph_map, 2 * count * sizeof(int));
+        memset(cost_rules + count, 0, count * sizeof(int));
+        memset(accumulated_cost + count, 0, count * sizeof(int));
+        memset(cost_to_igraph_map + count, 0, count * sizeof(int));
+    }
+
     return cost_graph_node_count++;
 }
 
@@ -1323,12 +1333,12 @@ static void tile_igraphs(Function *function) {
         if (debug_instsel_tiling)
             printf("\nTiling\n-----------------------------------------------------\n");
 
-        cost_graph = new_graph(MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, MAX_INSTRUCTION_GRAPH_CHOICE_EDGE_COUNT);
-        cost_rules = wcalloc(MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, sizeof(int));
-        accumulated_cost = wcalloc(MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, sizeof(int));
+        cost_graph = new_graph(INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, INSTRUCTION_GRAPH_CHOICE_EDGE_COUNT);
+        cost_rules = wcalloc(INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, sizeof(int));
+        accumulated_cost = wcalloc(INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, sizeof(int));
 
         cost_graph_node_count = 0;
-        cost_to_igraph_map = wcalloc(MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, sizeof(int));
+        cost_to_igraph_map = wcalloc(INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, sizeof(int));
 
         recursive_tile_igraphs(&(igraphs[i]), 0);
         if (debug_instsel_cost_graph) print_cost_graph(cost_graph, cost_rules, accumulated_cost);
diff --git a/wcc.h b/wcc.h
index 055987d..b4020c4 100644
--- a/wcc.h
+++ b/wcc.h
@@ -887,6 +887,7 @@ void append_to_list(List *l, void *element);
 Graph *new_graph(int node_count, int edge_count);
 void free_graph(Graph *g);
 void dump_graph(Graph *g);
+void add_graph_nodes(Graph *g, int count);
 GraphEdge *add_graph_edge(Graph *g, int from, int to);
 
 // utils.c
-- 
2.43.0


From ce43dcb8b6091e292b21d3e04c45ed577dd00f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 060/126] fix: offsets of global bit-fields in position
 independent code

---
 ir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir.c b/ir.c
index 4e3132a..6a7ac04 100644
--- a/ir.c
+++ b/ir.c
@@ -1205,7 +1205,6 @@ static Value *add_load_from_got(Function *function, Tac *tac, Value *src) {
     insert_instruction_from_operation(tac, IR_LOAD_FROM_GOT, dst, got_src, 0, 0);
 
     dst->offset = src->offset;
-    src->offset = 0;
     got_src->offset = 0;
 
     return dst;
@@ -1255,6 +1254,7 @@ void add_PIC_load_and_saves(Function *function) {
 
         else if (tac->src1 && tac->src1->global_symbol && tac->operation == IR_ADDRESS_OF) {
             tac->operation = IR_ADDRESS_OF_FROM_GOT;
+            tac->src1 = dup_value(tac->src1);
             tac->src1->load_from_got = 1;
             if (tac->src1->offset) {
                 int offset = tac->src1->offset;
-- 
2.43.0


From 8e7347b04f3eb4333cb20a8a2d13d896132048d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 061/126] fix: long white space, unterminated comments and
 literals in the preprocessor's lexer

---
 cpp.c | 88 +++++++++++++++++++++++++----------------------------------
 1 file changed, 37 insertions(+), 51 deletions(-)

diff --git a/cpp.c b/cpp.c
index eea0b5a..d88a291 100644
--- a/cpp.c
+++ b/cpp.c
@@ -429,6 +429,7 @@ void strip_backslash_newlines(void) {
 
     if (state.input_size == 0) {
         wfree(state.input);
+        output[0] = 0;
         state.input = output;
         return;
     }
@@ -582,9 +583,12 @@ static void advance_ip_by_count(int count) {
         advance_ip();
 }
 
+// Add a character to the whitespace. One byte is always kept free for a terminating zero.
+// The allocated size is doubled every time whitespace_pos + 1 is a power of two >= 16.
 static void add_to_whitespace(char **whitespace, int *whitespace_pos, char c) {
-    if (!*whitespace) *whitespace = wmalloc(1024);
-    if (*whitespace_pos == 1024) panic("Ran out of whitespace buffer");
+    int size = *whitespace_pos + 1;
+    if (!*whitespace) *whitespace = wmalloc(16);
+    else if (size >= 16 && !(size & (size - 1))) *whitespace = wrealloc(*whitespace, size * 2);
     (*whitespace)[(*whitespace_pos)++] = c;
 }
 
@@ -605,7 +609,7 @@ static char *lex_whitespace(void) {
 
         // Process // comment
         if (state.input_size - state.ip >= 2 && state.input[state.ip] == '/' && state.input[state.ip + 1] == '/') {
-            while (state.input[state.ip] != '\n') advance_ip();
+            while (state.ip < state.input_size && state.input[state.ip] != '\n') advance_ip();
             add_to_whitespace(&whitespace, &whitespace_pos, ' ');
             continue;
         }
@@ -618,6 +622,8 @@ static char *lex_whitespace(void) {
             while (state.input_size - state.ip >= 2 && (state.input[state.ip] != '*' || state.input[state.ip + 1] != '/'))
                 advance_ip();
 
+            if (state.input_size - state.ip < 2) error("Unterminated comment");
+
             advance_ip();
             advance_ip();
 
@@ -635,49 +641,32 @@ static char *lex_whitespace(void) {
 
 }
 
-static void lex_string_and_char_literal(char delimiter) {
+// Lex a string literal, character constant or, if the delimiter is '>', a header name.
+// If it isn't terminated on the same line, nothing is lexed and zero is returned.
+static int lex_string_and_char_literal(char delimiter) {
     char *i = state.input;
-    int data_offset = 0;
-
-    char *data = wmalloc(MAX_STRING_LITERAL_SIZE + 2);
+    int start = state.ip;
+    int size = (i[start] == 'L') ? 2 : 1; // The size including delimiters
 
-    if (i[state.ip] == 'L') {
-        advance_ip();
-        data_offset = 1;
-        data[0] = 'L';
+    while (start + size < state.input_size && i[start + size] != delimiter && i[start + size] != '\n') {
+        // Skip the character after the backslash
+        if (i[start + size] == '\\' && delimiter != '>' && start + size + 1 < state.input_size && i[start + size + 1] != '\n') size++;
+        size++;
     }
 
-    advance_ip();
-
-    data[data_offset] = delimiter == '>' ? '<' : delimiter;
-    int size = 0;
-
-    while (state.ip < state.input_size) {
-        if (i[state.ip] == delimiter) {
-            advance_ip();
-            break;
-        }
+    if (start + size >= state.input_size || i[start + size] != delimiter) return 0;
+    size++;
 
-        if (state.input_size - state.ip >= 2 && i[state.ip] == '\\') {
-            if (size + 1 >= MAX_STRING_LITERAL_SIZE) panic("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
-            data[data_offset + 1 + size++] = '\\';
-            data[data_offset + 1 + size++] = i[state.ip + 1];
-            advance_ip();
-            advance_ip();
-        }
+    if (size - 2 - (i[start] == 'L') > MAX_STRING_LITERAL_SIZE) panic("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
 
-        else {
-            if (size >= MAX_STRING_LITERAL_SIZE) panic("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
-            data[data_offset + 1 + size++] = i[state.ip];
-            advance_ip();
-        }
-    }
+    state.token = new_cpp_token(CPP_TOK_STRING_LITERAL);
+    state.token->str = wmalloc(size + 1);
+    memcpy(state.token->str, &i[start], size);
+    state.token->str[size] = 0;
 
-    data[data_offset + size + 1] = delimiter;
-    data[data_offset + size + 2] = 0;
+    for (int j = 0; j < size; j++) advance_ip();
 
-    state.token = new_cpp_token(CPP_TOK_STRING_LITERAL);
-    state.token->str = data;
+    return 1;
 }
 
 #define is_pp_number(c1, c2) (c1 >= '0' && c1 <= '9') || (state.input_size - state.ip >= 2 && c1 == '.' && (c2 >= '0' && c2 <= '9'))
@@ -756,20 +745,17 @@ static void cpp_next() {
         else if (             c1 == ')'                          )  { make_token(CPP_TOK_RPAREN, 1); }
         else if (             c1 == ','                          )  { make_token(CPP_TOK_COMMA, 1); }
 
-        else if ((c1 == '"') || (state.input_size - state.ip >= 2 && c1 == 'L' && c2 == '"'))
-            lex_string_and_char_literal('"');
+        else if (((c1 == '"') || (left >= 2 && c1 == 'L' && c2 == '"')) && lex_string_and_char_literal('"'))
+            ;
 
-        else if ((c1 == '\'') || (state.input_size - state.ip >= 2 && c1 == 'L' && c2 == '\''))
-            lex_string_and_char_literal('\'');
+        else if (((c1 == '\'') || (left >= 2 && c1 == 'L' && c2 == '\'')) && lex_string_and_char_literal('\''))
+            ;
 
-        else if (c1 == '<' && state.hchar_lex_state == HLS_SEEN_INCLUDE) {
-            lex_string_and_char_literal('>');
+        else if (c1 == '<' && state.hchar_lex_state == HLS_SEEN_INCLUDE && lex_string_and_char_literal('>'))
             state.token->kind = CPP_TOK_HCHAR_STRING_LITERAL;
-            state.hchar_lex_state = HLS_OTHER;
-        }
 
         else if ((c1 >= 'a' && c1 <= 'z') || (c1 >= 'A' && c1 <= 'Z') || c1 == '_') {
-            char *identifier = wmalloc(1024);
+            char *identifier = wmalloc(MAX_IDENTIFIER_SIZE + 1);
             int j = 0;
             while (((i[state.ip] >= 'a' && i[state.ip] <= 'z') || (i[state.ip] >= 'A' && i[state.ip] <= 'Z') || (i[state.ip] >= '0' && i[state.ip] <= '9') || (i[state.ip] == '_')) && state.ip < state.input_size) {
                 if (j == MAX_IDENTIFIER_SIZE) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
@@ -846,10 +832,10 @@ static void cpp_next() {
 
     state.token->whitespace = whitespace;
 
-    if (state.hchar_lex_state == HLS_START_OF_LINE && state.token->kind == CPP_TOK_HASH   ) state.hchar_lex_state = HLS_SEEN_HASH;
-    if (state.hchar_lex_state == HLS_SEEN_HASH     && state.token->kind == CPP_TOK_INCLUDE) state.hchar_lex_state = HLS_SEEN_INCLUDE;
-
-    return;
+         if (state.token->kind == CPP_TOK_EOL) state.hchar_lex_state = HLS_START_OF_LINE;
+    else if (state.hchar_lex_state == HLS_START_OF_LINE && state.token->kind == CPP_TOK_HASH   ) state.hchar_lex_state = HLS_SEEN_HASH;
+    else if (state.hchar_lex_state == HLS_SEEN_HASH     && state.token->kind == CPP_TOK_INCLUDE) state.hchar_lex_state = HLS_SEEN_INCLUDE;
+    else state.hchar_lex_state = HLS_OTHER;
 }
 
 // Set line number on all tokens in ts
-- 
2.43.0


From 5b785c8a951d6f9c4f7e2e3b1e449d49ff066c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 062/126] fix: macro expansion: argument counts, unterminated
 calls, empty operands of ##, escapes in stringized literals, pasted names

---
 cpp.c | 384 ++++++++++++++++++++++++----------------------------------
 1 file changed, 156 insertions(+), 228 deletions(-)

diff --git a/cpp.c b/cpp.c
index d88a291..aff6370 100644
--- a/cpp.c
+++ b/cpp.c
@@ -54,7 +54,7 @@ StringBuffer *output;          // Output string buffer;
 
 static void cpp_next();
 static void cpp_parse();
-static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppToken *os);
+static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs);
 static CppToken *hsadd(StrSet *hs, CppToken *ts);
 
 const char *months[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
@@ -839,24 +839,45 @@ static void cpp_next() {
 }
 
 // Set line number on all tokens in ts
-static void set_line_number_on_token_sequence(CppToken *ts, int line_number) {
+static void set_line_number_on_token_sequence(CppToken *ts, CppToken *line_number_token) {
     CppToken *tail = ts;
     ts = ts->next;
     do {
-        ts->line_number = line_number;
+        ts->line_number = line_number_token->line_number;
+        ts->line_number_offset = line_number_token->line_number_offset;
         ts = ts->next;
     } while (ts != tail);
 }
 
 #define add_token_to_actuals() current_actual = cll_append_token(current_actual, dup_cpp_token(token));
 
-// Parse function-like macro call, starting with the '('
-// Loop over ts; ts is advanced up to the enclosing ')'
+// Duplicate a token sequence without the newlines in it, they become whitespace
+static CppToken *dup_cll_without_eols(CppToken *src) {
+    CppToken *dst = 0;
+    int seen_eol = 0;
+
+    for (CppToken *token = src ? src->next : 0; token; token = cll_next(src, token)) {
+        if (token->kind == CPP_TOK_EOL) {
+            seen_eol = 1;
+            continue;
+        }
+
+        dst = cll_append_token(dst, dup_cpp_token(token));
+        if (seen_eol && !dst->whitespace) dst->whitespace = " ";
+        seen_eol = 0;
+    }
+
+    return dst;
+}
+
+// Parse function-like macro call, starting with the token after the '('
+// Loop over ts until the end of the is token sequence; ts is advanced up to the enclosing ')'
 // Returns a ptr to the token sequences for each actual parameter.
 // Nested () are taken into account, for cases like f((1, 2), 3), which
 // results in (1, 2) and 3 for the actual parameters.
-CppToken **make_function_actual_parameters(CppToken **ts) {
-    CppToken **result = wcalloc(MAX_CPP_MACRO_PARAM_COUNT, sizeof(CppToken *));
+static CppToken **make_function_actual_parameters(CppToken *is, CppToken **ts, Directive *directive) {
+    int max_count = directive->param_count ? directive->param_count : 1;
+    CppToken **result = wcalloc(max_count, sizeof(CppToken *));
 
     int parenthesis_nesting_level = 0;
     CppToken *current_actual = 0;
@@ -869,29 +890,26 @@ CppToken **make_function_actual_parameters(CppToken **ts) {
         if (token->kind == CPP_TOK_RPAREN && !parenthesis_nesting_level) {
             // We're not in nested parentheses
             result[index++] = current_actual;
+
+            if (directive->param_count ? index != directive->param_count : dup_cll_without_eols(current_actual) != 0)
+                error("Mismatch in number of macro parameters");
+
             return result;
         }
-        else if (token->kind == CPP_TOK_RPAREN) {
-            // We're in nested parentheses
-            add_token_to_actuals();
-            parenthesis_nesting_level--;
-        }
-        else if (token->kind == CPP_TOK_LPAREN) {
-            // Enter nested parentheses
-            add_token_to_actuals();
-            parenthesis_nesting_level++;
-        }
         else if (token->kind == CPP_TOK_COMMA && !parenthesis_nesting_level) {
             // Finish current ap and start next ap
             result[index++] = current_actual;
+            if (index == max_count) error("Mismatch in number of macro parameters");
             current_actual = 0;
         }
         else {
-            // It's an ordinary token, append it to current actual
+            // It's an ordinary token or a nested parenthesis, append it to current actual
+            if (token->kind == CPP_TOK_LPAREN) parenthesis_nesting_level++;
+            if (token->kind == CPP_TOK_RPAREN) parenthesis_nesting_level--;
             add_token_to_actuals();
         }
 
-        *ts =(*ts)->next;
+        *ts = cll_next(is, token);
     }
 }
 
@@ -929,284 +947,194 @@ StrSet *cpp_strset_intersection(StrSet *set1, StrSet *set2) {
 
 // Implementation of Dave Prosser's C Preprocessing Algorithm
 // This is the main macro expansion function: expand an input sequence into an output sequence.
+// is is used up in the process.
 static CppToken *expand(CppToken *is) {
-    if (!is) return 0;
-
-    // Skip past any non-directives, to eliminate unnecessary recursion
-    CppToken *left = 0;
-    CppToken *is_head = is->next;
-    CppToken *is_tail = is;
-    CppToken *tok = is_head;
-    while (tok->str && !strmap_get(directives, tok->str)) {
-        left = cll_append_token(left, dup_cpp_token(tok));
-        tok = tok->next;
-        if (tok == is_head) break;
-    }
+    CppToken *os = 0;
 
-    if (left) {
-        if (tok == is_head) return left;
+    while (is) {
+        CppToken *tok = is->next;
 
-        // Make is the remainder
-        is_tail->next = tok; // Make tok the head of the cll
-        CppToken *result = concat_clls(left, expand(is));
-        return result;
-    }
+        Directive *directive = tok->str ? strmap_get(directives, tok->str) : 0;
 
-    CppToken *tok1 = tok->next != is_head ? tok->next : 0;
-    while (tok1 && tok1->kind == CPP_TOK_EOL) tok1 = cll_next(is, tok1);
+        // A token in its own hide set isn't expanded
+        if (directive && tok->hide_set && strset_in(tok->hide_set, tok->str)) directive = 0;
 
-    if (tok->str && tok->hide_set && strset_in(tok->hide_set, tok->str)) {
-        // The first token tok in its own hide set, don't expand it
-        // return the first token + the expanded rest
-        if (is_tail == is_head) return is_tail; // Only one token
-        CppToken *t = dup_cpp_token(tok);
-        return concat_clls(t, expand(cll_from_next(is, tok)));
-    }
-
-    Directive *directive = 0;
-    if (tok->str) directive = strmap_get(directives, tok->str);
+        CppToken *tok1 = 0;
+        if (directive && directive->is_function) {
+            // It's only a function like macro call if the next token is a (
+            tok1 = cll_next(is, tok);
+            while (tok1 && tok1->kind == CPP_TOK_EOL) tok1 = cll_next(is, tok1);
+            if (!tok1 || tok1->kind != CPP_TOK_LPAREN) directive = 0;
+        }
 
-    if (directive && !directive->is_function) {
-        // Object like macro
+        if (!directive) {
+            // An ordinary token
+            os = cll_append_token(os, dup_cpp_token(tok));
+            is = cll_from_next(is, tok);
+            continue;
+        }
 
         StrSet *identifier_hs = new_strset();
         append_to_list(allocated_strsets, identifier_hs);
         strset_add(identifier_hs, tok->str);
-        StrSet *hs = tok->hide_set ? cpp_strset_union(tok->hide_set, identifier_hs) : identifier_hs;
-        CppToken *replacement_tokens = directive->renderer ? directive->renderer(tok) : directive->tokens;
-        CppToken *substituted = subst(replacement_tokens, 0, 0, hs, 0);
 
-        if (substituted) {
-            set_line_number_on_token_sequence(substituted, tok->line_number);
-            substituted->next->whitespace = tok->whitespace;
-        }
-
-        return expand(concat_clls(substituted, cll_from_next(is, tok)));
-    }
-
-    else if (directive && directive->is_function && tok1 && tok1->kind == CPP_TOK_LPAREN) {
-        // Function like macro
-
-        CppToken *directive_token = tok;
-        StrSet *directive_token_hs = tok->hide_set;
-        tok = cll_next(is, tok1);
-        CppToken **actuals = make_function_actual_parameters(&tok);
-        if (!tok || tok->kind != CPP_TOK_RPAREN) error("Expected )");
-
-        int actuals_count = 0;
-        for (CppToken **tok = actuals; *tok; tok++, actuals_count++);
-        if (actuals_count > directive->param_count) error("Mismatch in number of macro parameters");
+        CppToken *substituted = 0;
+        CppToken *last_tok = tok; // The last token of the macro call
 
-        StrSet *rparen_hs = tok->hide_set;
+        if (!directive->is_function) {
+            // Object like macro
 
-        // Make the hideset for the macro subsitution
-        // T is the directive token
-        // HS is directive token hide set
-        // HS' is ')' hide set
-        // HS = (HS ∩ HS’) ∪ {T}
-        StrSet *hs1 = safe_strset_intersection(directive_token_hs, rparen_hs);
+            StrSet *hs = safe_strset_union(tok->hide_set, identifier_hs);
+            CppToken *replacement_tokens = directive->renderer ? directive->renderer(tok) : directive->tokens;
+            substituted = subst(replacement_tokens, 0, 0, hs);
+        }
+        else {
+            // Function like macro
 
-        StrSet *hs2 = new_strset();
-        strset_add(hs2, directive_token->str);
-        if (hs2) append_to_list(allocated_strsets, hs2);
+            last_tok = cll_next(is, tok1);
+            CppToken **actuals = make_function_actual_parameters(is, &last_tok, directive);
 
-        StrSet *hs = safe_strset_union(hs1, hs2);
+            // Make the hideset for the macro subsitution
+            // T is the directive token
+            // HS is directive token hide set
+            // HS' is ')' hide set
+            // HS = (HS ∩ HS’) ∪ {T}
+            StrSet *hs1 = safe_strset_intersection(tok->hide_set, last_tok->hide_set);
+            StrSet *hs = safe_strset_union(hs1, identifier_hs);
 
-        CppToken *substituted = 0;
-        if (directive->tokens)
-            substituted = subst(dup_cll(directive->tokens), directive->param_identifiers, actuals, hs, 0);
+            substituted = subst(directive->tokens, directive->param_identifiers, actuals, hs);
 
-        free_function_actual_parameters(actuals);
+            free_function_actual_parameters(actuals);
+        }
 
         if (substituted) {
-            set_line_number_on_token_sequence(substituted, directive_token->line_number);
-            substituted->next->whitespace = directive_token->whitespace;
+            set_line_number_on_token_sequence(substituted, tok);
+            substituted->next->whitespace = tok->whitespace;
         }
 
-        return expand(concat_clls(substituted, cll_from_next(is, tok)));
+        is = concat_clls(substituted, cll_from_next(is, last_tok));
     }
 
-    // The first token is an ordinary token, return the first token + the expanded rest
-    CppToken *t = dup_cpp_token(tok);
-    return concat_clls(t, expand(cll_from_next(is, tok)));
+    return os;
 }
 
-// Returns a new token which is the stringized version of the input token sequence
+// Returns a new token which is the stringized version of the input token sequence.
+// Backslashes and double quotes in string literals and character constants are escaped.
 static CppToken *stringize(CppToken *ts) {
     StringBuffer *rendered = new_string_buffer(128);
 
-    append_tokens_to_string_buffer(rendered, ts, 1, 0);
-
-    terminate_string_buffer(rendered);
-
-    StringBuffer *escaped = new_string_buffer(strlen(rendered->data) * 2);
-    append_to_string_buffer(escaped, "\"");
+    ts = dup_cll_without_eols(ts);
 
-    int in_string = 0;
-    int in_char = 0;
+    append_to_string_buffer(rendered, "\"");
 
-    char *s = rendered->data;
-    while (*s == ' ') s++; // Skip leading whitespace
+    for (CppToken *token = ts ? ts->next : 0; token; token = cll_next(ts, token)) {
+        if (token != ts->next && token->whitespace) append_to_string_buffer(rendered, " ");
 
-    for (; *s; s++) {
-        char c = *s;
-
-        if (c == '"') {
-            append_to_string_buffer(escaped, "\\\"");
-            in_string = !in_string;
-        }
-        else if (c == '\'') {
-            append_to_string_buffer(escaped, "'");
-            in_char = !in_char;
-        }
-        else if (c == '\\') {
-            char c2 = s[1];
-            if (in_string && c2 == '"') {
-                append_to_string_buffer(escaped, "\\\\\\\"");  // Escape \"
-                s++;
-                continue;
-            }
-            else if (in_char && c2 == '\'') {
-                append_to_string_buffer(escaped, "\\\\'");  // Escape \'
-                s++;
-                continue;
-            }
-            else if ((in_string || in_char) && (c2 == '\\')) {
-                append_to_string_buffer(escaped, "\\\\\\\\");  // Escape double backslash
-                s++;
-                continue;
-            }
+        int is_literal = token->str[0] == '"' || token->str[0] == '\'' ||
+            (token->str[0] == 'L' && (token->str[1] == '"' || token->str[1] == '\''));
 
-            if (in_string || in_char)
-                append_to_string_buffer(escaped, "\\\\");
-            else
-                append_to_string_buffer(escaped, "\\");
-        }
-        else {
-            char s[2] = {c, 0};
-            append_to_string_buffer(escaped, s);
+        for (char *s = token->str; *s; s++) {
+            if (*s == '"' || (*s == '\\' && is_literal)) append_to_string_buffer(rendered, "\\");
+            char c[2] = {*s, 0};
+            append_to_string_buffer(rendered, c);
         }
     }
 
-    append_to_string_buffer(escaped, "\"");
+    append_to_string_buffer(rendered, "\"");
 
     CppToken *result = new_cpp_token(CPP_TOK_STRING_LITERAL);
-    result->str = escaped->data;
+    result->str = rendered->data;
 
-    free_string_buffer(escaped, 0);
-    free_string_buffer(rendered, 1);
+    free_string_buffer(rendered, 0);
 
     return result;
 }
 
-// Merge two token lists together.
+// Determine the kind of a token that's the result of a ##
+static int get_glued_token_kind(char *str) {
+    char c1 = str[0];
+    char c2 = c1 ? str[1] : 0;
+
+    if (c1 == '"' || c1 == '\'' || (c1 == 'L' && (c2 == '"' || c2 == '\''))) return CPP_TOK_STRING_LITERAL;
+    if (is_non_digit(c1)) return CPP_TOK_IDENTIFIER;
+    if ((c1 >= '0' && c1 <= '9') || (c1 == '.' && c2 >= '0' && c2 <= '9')) return CPP_TOK_NUMBER;
+    if (!strcmp(str, "++")) return CPP_TOK_INC;
+    if (!strcmp(str, "--")) return CPP_TOK_DEC;
+    return CPP_TOK_OTHER;
+}
+
+// Merge two non-empty token lists together.
 // ls is mutated and the result is ls.
 static CppToken *glue(CppToken *ls, CppToken *rs) {
-    if (ls == 0) return rs;
-    if (rs == 0) error("Attempt to glue an empty right side");
-
     // Mutating ls, this is allowed since ls is append only
     wasprintf(&ls->str, "%s%s", ls->str, rs->next->str);
     append_to_list(allocated_strings, ls->str);
-    ls->kind = CPP_TOK_OTHER;
+    ls->kind = get_glued_token_kind(ls->str);
     ls->hide_set = safe_strset_intersection(ls->hide_set, rs->next->hide_set);
 
-    // Copy all elements from the right side except the first
-    CppToken *rs_tok = rs->next;
-    rs_tok = cll_next(rs, rs_tok);
-    while (rs_tok) {
-        ls = cll_append_token(ls, dup_cpp_token(rs_tok));
-        rs_tok = cll_next(rs, rs_tok);
-    }
-
-    return ls;
+    // Add all elements from the right side except the first
+    return concat_clls(ls, cll_from_next(rs, rs->next));
 }
 
 // Inputs:
-//   is: input sequence
+//   is: input sequence, it isn't altered
 //   fp: formal parameters
 //   ap: actual parameters
 //   hs: hide set
-//   os: output sequence
 // Output
 //   output sequence
-static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppToken *os) {
-    // Empty token sequence, update the hide set and return output sequence
-    if (!is) {
-        if (!os) return os;
-        return hsadd(hs, os);
-    }
-
-    CppToken *is_head = is->next;
-    CppToken *is_tail = is;
-    CppToken *tok = is_head;
-
-    CppToken *tok1 = cll_next(is, tok);
-    CppToken *tok2 = tok1 ? cll_next(is, tok1) : 0;
+static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs) {
+    CppToken *os = 0;
 
-    int tok_fp_index = fp ? (int) (long) strmap_get(fp, tok->str) : 0;
-    int tok1_fp_index = fp && tok1 ? (int) (long) strmap_get(fp, tok1->str) : 0;
-    int tok2_fp_index = fp && tok2 ? (int) (long) strmap_get(fp, tok2->str) : 0;
+    int pasting = 0;            // Has a ## just been seen?
+    int left_is_empty = 0;      // Is the left hand side of a ## empty?
 
-    // # FP
-    if (tok->kind == CPP_TOK_HASH && tok1_fp_index) {
-        CppToken *replacement = ap[tok1_fp_index - 1];
-        os = cll_append_token(os, stringize(replacement));
+    for (CppToken *tok = is ? is->next : 0; tok; tok = cll_next(is, tok)) {
+        if (tok->kind == CPP_TOK_PASTE) {
+            pasting = 1;
+            continue;
+        }
 
-        return subst(cll_from_next(is, tok1), fp, ap, hs, os);
-    }
+        CppToken *tok1 = cll_next(is, tok);
+        int tok_fp_index = fp ? (int) (long) strmap_get(fp, tok->str) : 0;
+        int tok1_fp_index = fp && tok1 ? (int) (long) strmap_get(fp, tok1->str) : 0;
 
-    // ## FP
-    if (tok->kind == CPP_TOK_PASTE && tok1_fp_index) {
-        CppToken *replacement = ap[tok1_fp_index - 1];
-        if (!replacement)
-            return subst(cll_from_next(is, tok1), fp, ap, hs, os);
-        else
-            return subst(cll_from_next(is, tok1), fp, ap, hs, glue(os, dup_cll(replacement)));
-    }
+        CppToken *replacement;
 
-    // ## TS
-    if (tok->kind == CPP_TOK_PASTE) {
-        if (!tok1) error("Got ## without a following token");
-        CppToken *tok = dup_cpp_token(tok1);
-        return subst(cll_from_next(is, tok1), fp, ap, hs, glue(os, tok));
-    }
-
-    // FP ##
-    if (tok_fp_index && tok1 && tok1->kind == CPP_TOK_PASTE) {
-        CppToken *replacement = ap[tok_fp_index - 1];
-        if (!replacement) {
-            if (tok2 && tok2_fp_index) {
-                // (empty) ## (replacement2) ...
-                CppToken *replacement2 = ap[tok2_fp_index - 1];
-                return subst(cll_from_next(is, tok2), fp, ap, hs, concat_clls(os, dup_cll(replacement2)));
-            }
+        if (tok->kind == CPP_TOK_HASH && tok1_fp_index) {
+            // # FP
+            replacement = stringize(ap[tok1_fp_index - 1]);
+            tok = tok1;
+        }
+        else if (tok_fp_index) {
+            // FP, parameters on either side of a ## aren't expanded
+            if (pasting || (tok1 && tok1->kind == CPP_TOK_PASTE))
+                replacement = dup_cll_without_eols(ap[tok_fp_index - 1]);
             else
-                // (empty) ## (empty) ...
-                return subst(cll_from_next(is, tok1), fp, ap, hs, os);
+                replacement = expand(dup_cll(ap[tok_fp_index - 1]));
+
+            if (replacement) replacement->next->whitespace = tok->whitespace;
         }
         else
-            // (replacement) ## ...
-            return subst(cll_from_next(is, tok), fp, ap, hs, concat_clls(os, dup_cll(replacement)));
-    }
+            replacement = dup_cpp_token(tok);
 
-    // FP
-    if (tok_fp_index) {
-        CppToken *replacement = ap[tok_fp_index - 1];
-
-        CppToken *expanded = expand(dup_cll(replacement));
-        if (expanded) expanded->next->whitespace = tok->whitespace;
+        if (!pasting) {
+            os = concat_clls(os, replacement);
+            left_is_empty = !replacement;
+        }
+        else if (left_is_empty) {
+            // (empty) ## ...
+            os = concat_clls(os, replacement);
+            left_is_empty = !replacement;
+        }
+        else if (replacement)
+            // ... ## ...
+            os = glue(os, replacement);
 
-        if (expanded) os = concat_clls(os, expanded);
-        return subst(cll_from_next(is, tok), fp, ap, hs, os);
+        pasting = 0;
     }
 
-    // Append first token in is to os
-    os = cll_append_token(os, dup_cpp_token(tok));
-    CppToken *org_head = is_tail->next;
-    CppToken *result = subst(cll_from_next(is, tok), fp, ap, hs, os);
-    is_tail->next = org_head;
-    return result;
+    return os ? hsadd(hs, os) : 0;
 }
 
 // Add a a hide set to a token sequence's hide set.
-- 
2.43.0


From 730b57f3c5c30f745e2a23e2eaaf5170e361fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 063/126] fix: conditional groups, include depth, computed
 header names and macro redefinitions

---
 cpp.c | 67 ++++++++++++++++++++++++++++++++++++++++++++++-------------
 wcc.h |  2 +-
 2 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/cpp.c b/cpp.c
index aff6370..8d30493 100644
--- a/cpp.c
+++ b/cpp.c
@@ -20,6 +20,7 @@ enum hchar_lex_state {
 typedef struct conditional_include {
     int matched;    // Is the evaluated controlling expression 1?
     int skipping;   // Is a group being skipped?
+    int seen_else;  // Has the #else been seen?
     struct conditional_include *prev;
 } ConditionalInclude;
 
@@ -158,7 +159,6 @@ static void run_preprocessor_on_file(char *filename, int first_file) {
     state.line_number = 1;
     state.line_number_offset = 0;
     state.override_filename = 0;
-    state.include_depth = 0;
 
     cpp_next();
 
@@ -170,6 +170,8 @@ static void run_preprocessor_on_file(char *filename, int first_file) {
 
     cpp_parse();
 
+    if (state.conditional_include_stack->prev) error("Unterminated #if");
+
     collapse_trailing_newlines(0, 0, 0);
 
     wfree(state.input);
@@ -1236,6 +1238,28 @@ static CppToken *gather_tokens_until_eol_and_expand() {
     return expand(gather_tokens_until_eol());
 }
 
+// Make a string literal or a header name from the expanded tokens of an #include.
+// A header name is made of the spelling of the tokens from the < until the >.
+static CppToken *make_include_token(CppToken *tokens) {
+    CppToken *token = tokens->next;
+    if (token->kind == CPP_TOK_STRING_LITERAL) return token;
+    if (token->kind != '<') return 0;
+
+    StringBuffer *rendered = new_string_buffer(128);
+    while (token && token->kind != '>') {
+        if (token != tokens->next && token->whitespace) append_to_string_buffer(rendered, " ");
+        append_to_string_buffer(rendered, token->str);
+        token = cll_next(tokens, token);
+    }
+    append_to_string_buffer(rendered, ">");
+
+    CppToken *result = new_cpp_token(CPP_TOK_HCHAR_STRING_LITERAL);
+    result->str = rendered->data;
+    free_string_buffer(rendered, 0);
+
+    return token ? result : 0;
+}
+
 static void parse_include() {
     if (state.include_depth == MAX_CPP_INCLUDE_DEPTH)
         error("Exceeded maximum include depth %d", MAX_CPP_INCLUDE_DEPTH);
@@ -1246,20 +1270,22 @@ static void parse_include() {
     int have_pp_tokens = (state.token->kind != CPP_TOK_STRING_LITERAL && state.token->kind != CPP_TOK_HCHAR_STRING_LITERAL);
     CppToken *include_token;
 
-    if (have_pp_tokens)
+    if (have_pp_tokens) {
         // Parse #include pp-tokens
-        include_token = gather_tokens_until_eol_and_expand();
+        CppToken *tokens = gather_tokens_until_eol_and_expand();
+        include_token = tokens ? make_include_token(tokens) : 0;
+    }
 
     else {
         include_token = state.token;
         cpp_next();
     }
 
-    if (!include_token || include_token->kind == CPP_TOK_EOL || include_token->kind == CPP_TOK_EOF)
+    if (!include_token || (include_token->str[0] != '"' && include_token->str[0] != '<'))
         error("Invalid #include");
 
     // Remove "" or <> tokens
-    path = &(include_token->str[1]);
+    path = wstrdup(&(include_token->str[1]));
     path[strlen(path) - 1] = 0;
     is_system = include_token->kind == CPP_TOK_HCHAR_STRING_LITERAL;
 
@@ -1270,6 +1296,7 @@ static void parse_include() {
     CppState backup_state = state;
 
     if (!open_include_file(path, is_system)) error("Unable to find %s in any include paths", path);
+    wfree(path);
 
     state.include_depth++;
     run_preprocessor_on_file(state.filename, 0);
@@ -1391,13 +1418,13 @@ static CppToken *expand_defineds(CppToken *is) {
         CppToken *tok1 = cll_next(is, tok);
 
         if (tok->kind == CPP_TOK_DEFINED) {
-            if (tok1 && tok1->kind == CPP_TOK_IDENTIFIER) {
+            if (tok1 && is_identifier(tok1)) {
                 os = cll_append_token(os, make_boolean_token(!!strmap_get(directives, tok1->str)));
                 tok = cll_next(is, tok1);
             }
             else if (tok1 && tok1->kind == CPP_TOK_LPAREN) {
                 tok = cll_next(is, tok1);
-                if (!tok || tok->kind != CPP_TOK_IDENTIFIER)
+                if (!tok || !is_identifier(tok))
                     error("Expected identifier");
 
                 os = cll_append_token(os, make_boolean_token(!!strmap_get(directives, tok->str)));
@@ -1434,6 +1461,7 @@ static long parse_conditional_expression() {
 
     CppToken *expanded_defineds = expand_defineds(tokens);
     CppToken *expanded = expand(expanded_defineds);
+    if (!expanded) error("Expected expression");
 
     // Replace identifiers with 0
     for (CppToken *tok = expanded->next; tok; tok = cll_next(expanded, tok))
@@ -1449,6 +1477,7 @@ static long parse_conditional_expression() {
     free_string_buffer(rendered, 0);
     init_lexer_from_string(data);
     Value *value = parse_constant_integer_expression(1);
+    if (cur_token != TOK_EOF) error("Unexpected tokens after the expression");
     wfree(data);
     free_lexer();
 
@@ -1533,8 +1562,8 @@ static void check_directive_redeclaration(Directive *d1, Directive *d2, char *id
     }
 
     // Check replacement lists are identical
-    CppToken *t1 = d1->tokens;
-    CppToken *t2 = d2->tokens;
+    CppToken *t1 = d1->tokens ? d1->tokens->next : 0;
+    CppToken *t2 = d2->tokens ? d2->tokens->next : 0;
 
     int identical = 1;
     while (t1 && t2) {
@@ -1634,6 +1663,9 @@ static void parse_directive(void) {
         case CPP_TOK_ELIF: {
             cpp_next();
 
+            if (!state.conditional_include_stack->prev) error("Found an #elif without an #if");
+            if (state.conditional_include_stack->seen_else) error("Found an #elif after an #else");
+
             // We're skipping a section and found an #elif. Ignore the directive
             if (!state.conditional_include_stack->prev->skipping) {
                 if (state.conditional_include_stack->matched) {
@@ -1654,6 +1686,8 @@ static void parse_directive(void) {
             cpp_next();
 
             if (!state.conditional_include_stack->prev) error("Found an #else without an #if");
+            if (state.conditional_include_stack->seen_else) error("Found an #else after an #else");
+            state.conditional_include_stack->seen_else = 1;
             if (state.conditional_include_stack->prev->skipping) break;
 
             state.conditional_include_stack->skipping = state.conditional_include_stack->matched;
@@ -1709,7 +1743,9 @@ static void parse_directive(void) {
             if (!state.conditional_include_stack->skipping) {
                 StringBuffer *message = new_string_buffer(128);
                 append_tokens_to_string_buffer(message, gather_tokens_until_eol(), 0, 0);
+                terminate_string_buffer(message);
                 warning("%s", message->data);
+                free_string_buffer(message, 1);
             }
 
             break;
@@ -1720,6 +1756,7 @@ static void parse_directive(void) {
             if (!state.conditional_include_stack->skipping) {
                 StringBuffer *message = new_string_buffer(128);
                 append_tokens_to_string_buffer(message, gather_tokens_until_eol(), 0, 0);
+                terminate_string_buffer(message);
                 error("%s", message->data);
             }
 
@@ -1735,6 +1772,9 @@ static void parse_directive(void) {
             if (!state.conditional_include_stack->skipping)
                 error("Unknown directive \"%s\"", state.token->str);
     }
+
+    // Anything else on the line isn't part of the program
+    skip_until_eol();
 }
 
 // Parse tokens from the lexer
@@ -1750,10 +1790,10 @@ static void cpp_parse() {
             group_tokens = 0;
         }
         else {
-            if (!state.conditional_include_stack->skipping) {
+            if (!state.conditional_include_stack->skipping)
                 group_tokens = cll_append_token(group_tokens, state.token);
-                new_line = (state.token->kind == CPP_TOK_EOL);
-            }
+
+            new_line = (state.token->kind == CPP_TOK_EOL);
             cpp_next();
         }
     }
@@ -1869,13 +1909,12 @@ char *preprocess(char *filename, List *cli_directive_strings) {    init_cpp();
     }
 
     init_cpp_from_fh(f, filename);
+    state.include_depth = 0;
 
     output = new_string_buffer(state.input_size * 2);
 
     run_preprocessor_on_file(filename, 1);
 
-    if (state.conditional_include_stack->prev) error("Unterminated #if");
-
     terminate_string_buffer(output);
 
     char *data = output->data;
diff --git a/wcc.h b/wcc.h
index b4020c4..6ad78b3 100644
--- a/wcc.h
+++ b/wcc.h
@@ -2,7 +2,7 @@
 #include <sys/time.h>
 
 #define MAX_CPP_FILESIZE              10 * 1024 * 1024
-#define MAX_CPP_INCLUDE_DEPTH         15
+#define MAX_CPP_INCLUDE_DEPTH         200
 #define MAX_CPP_MACRO_PARAM_COUNT     1024
 #define MAX_STRUCT_OR_UNION_SCALARS   1024
 #define MAX_TYPEDEFS                  1024
-- 
2.43.0


From 3585fff75a5e3a87949299e54151d3e7da7261b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 064/126] fix: line markers and file names of the preprocessor

---
 cpp.c   | 129 ++++++++++++++++++++++++++++++++++++--------------------
 lexer.c |  11 ++++-
 2 files changed, 93 insertions(+), 47 deletions(-)

diff --git a/cpp.c b/cpp.c
index 8d30493..c40962f 100644
--- a/cpp.c
+++ b/cpp.c
@@ -94,10 +94,34 @@ void debug_print_cll_token_sequence(CppToken *ts) {
     printf("\n");
 }
 
+// Get the filename, which may have been overridden with #line
+static char *get_presumed_filename(void) {
+    return state.override_filename ? state.override_filename : state.filename;
+}
+
+// Append a filename as a string literal
+static void append_filename_to_string_buffer(StringBuffer *sb, char *filename) {
+    append_to_string_buffer(sb, "\"");
+    for (; *filename; filename++) {
+        if (*filename == '"' || *filename == '\\') append_to_string_buffer(sb, "\\");
+        char c[2] = {*filename, 0};
+        append_to_string_buffer(sb, c);
+    }
+    append_to_string_buffer(sb, "\"");
+}
+
+// Append # <line_number> "<filename>" to the output
+static void output_line_marker(int line_number, char *filename) {
+    char number[32];
+    sprintf(number, "# %d ", line_number);
+    append_to_string_buffer(output, number);
+    append_filename_to_string_buffer(output, filename);
+}
+
 // Set cur_filename and cur_line globals from CPP state
 void get_cpp_filename_and_line() {
     cur_line = state.line_number_offset + state.line_number;
-    cur_filename = state.filename;
+    cur_filename = get_presumed_filename();
 }
 
 static void init_cpp_from_fh(FILE *f, char *path) {
@@ -126,11 +150,8 @@ static void init_cpp_from_fh(FILE *f, char *path) {
 static void output_line_directive(int offset, int add_eol, CppToken *token) {
     if (!token) return;
 
-    char *buf = wmalloc(256);
-    char *filename = state.override_filename ? state.override_filename : state.filename;
-    sprintf(buf, "# %d \"%s\"%s", state.line_number_offset + token->line_number + offset, filename, add_eol ? "\n" : "");
-    append_to_string_buffer(output, buf);
-    wfree(buf);
+    output_line_marker(state.line_number_offset + token->line_number + offset, get_presumed_filename());
+    if (add_eol) append_to_string_buffer(output, "\n");
 }
 
 // If the output has an amount newlines > threshold, collapse them into a # line statement
@@ -162,9 +183,7 @@ static void run_preprocessor_on_file(char *filename, int first_file) {
 
     cpp_next();
 
-    append_to_string_buffer(output, "# 1 \"");
-    append_to_string_buffer(output, filename);
-    append_to_string_buffer(output, "\"");
+    output_line_marker(1, filename);
     if (!first_file) append_to_string_buffer(output, " 1");
     append_to_string_buffer(output, "\n");
 
@@ -274,7 +293,10 @@ static void add_builtin_directive(char *identifier, DirectiveRenderer renderer)
 
 static CppToken *render_file(CppToken *directive_token) {
     CppToken *result = new_cpp_token(CPP_TOK_STRING_LITERAL);
-    wasprintf(&(result->str), "\"%s\"", state.override_filename ? state.override_filename : state.filename);
+    StringBuffer *rendered = new_string_buffer(128);
+    append_filename_to_string_buffer(rendered, get_presumed_filename());
+    result->str = rendered->data;
+    free_string_buffer(rendered, 0);
     return result;
 }
 
@@ -546,6 +568,15 @@ static void append_tokens_to_string_buffer(StringBuffer *sb, CppToken *tokens, i
             append_to_string_buffer(sb, " ");
 
         if (update_output && !is_eol) collapse_trailing_newlines(8, 1, token);
+
+        if (update_output && !is_eol && !token->hide_set && state.output_line_number > token->line_number) {
+            // Too many newlines have been outputted, due to newlines in macro parameters.
+            // Go back to the line the token is on.
+            if (sb->position && sb->data[sb->position - 1] != '\n') append_to_string_buffer(sb, "\n");
+            output_line_directive(0, 1, token);
+            state.output_line_number = token->line_number;
+        }
+
         append_to_string_buffer(sb, token->str);
 
         prev = token;
@@ -1306,13 +1337,10 @@ static void parse_include() {
 
     // Restore parsing state
     state = backup_state;
-    cur_filename = state.filename;
+    cur_filename = get_presumed_filename();
 
-    char *buf = wmalloc(256);
-    char *filename = state.override_filename ? state.override_filename : state.filename;
-    sprintf(buf, "# %d \"%s\" 2", state.line_number_offset + state.line_number + 1, filename);
-    append_to_string_buffer(output, buf);
-    wfree(buf);
+    output_line_marker(state.line_number_offset + state.line_number + 1, get_presumed_filename());
+    append_to_string_buffer(output, " 2");
 }
 
 static CppToken *parse_define_replacement_tokens(void) {
@@ -1497,6 +1525,33 @@ static void parse_if_defined(int negate) {
     }
 }
 
+// Set the line number of the next line and optionally the filename. state.token is the EOL or EOF.
+static void set_presumed_line_number_and_filename(CppToken *tokens) {
+    CppToken *token = tokens->next;
+
+    state.line_number_offset = atoi(token->str) - state.token->line_number - 1;
+
+    // Amend the next token's line number offset too
+    state.token->line_number_offset = state.line_number_offset;
+
+    token = cll_next(tokens, token);
+    if (!token) return;
+    if (token->kind != CPP_TOK_STRING_LITERAL || token->str[0] != '"') error("Invalid #line directive");
+
+    // Remove the quotes and unescape
+    char *filename = wmalloc(strlen(token->str) + 1);
+    append_to_list(allocated_strings, filename);
+    int size = 0;
+    for (char *s = token->str + 1; s[1]; s++) {
+        if (*s == '\\' && (s[1] == '\\' || s[1] == '"')) s++;
+        filename[size++] = *s;
+    }
+    filename[size] = 0;
+
+    state.override_filename = filename;
+    cur_filename = filename;
+}
+
 static void parse_line() {
     CppToken *tokens;
 
@@ -1507,30 +1562,11 @@ static void parse_line() {
         // Parse #line <number> ...
         tokens = gather_tokens_until_eol();
 
-    CppToken *token = tokens->next;
-
-    if (state.token->kind != CPP_TOK_EOL && state.token->kind != CPP_TOK_EOF) panic("Expected EOL or EOF");
-
-    if (token->kind == CPP_TOK_NUMBER) {
-        state.line_number_offset = atoi(token->str) - state.line_number - 1;
-
-        // Amend the next token's line number offset too
-        state.token->line_number_offset = state.line_number_offset;
-
-        token = cll_next(tokens, token);
+    if (!tokens || tokens->next->kind != CPP_TOK_NUMBER) error("Invalid #line directive");
 
-        if (token && token->kind == CPP_TOK_STRING_LITERAL) {
-            char *filename = token->str;
-            filename[strlen(filename) - 1] = 0;
-            filename++;
-            state.override_filename = filename;
-            cur_filename = token->str;
-        }
+    set_presumed_line_number_and_filename(tokens);
 
-        output_line_directive(1, 0, state.token);
-    }
-    else
-        error("Invalid #line directive");
+    output_line_directive(1, 0, state.token);
 }
 
 // Ensure two directive have identical replacement lists, and if they are
@@ -1718,15 +1754,18 @@ static void parse_directive(void) {
             // # <number> ...
             // We're probably re-preprocessing everything, keep the line
 
-            CppToken *tokens = 0;
-            tokens = cll_append_token(tokens, directive_hash_token);
+            if (state.conditional_include_stack->skipping) break;
 
-            while (state.token->kind != CPP_TOK_EOF && state.token->kind != CPP_TOK_EOL) {
-                tokens = cll_append_token(tokens, state.token);
-                cpp_next();
-            }
+            CppToken *tokens = gather_tokens_until_eol();
+            set_presumed_line_number_and_filename(tokens);
 
-            append_tokens_to_output(expand(tokens));
+            if (tokens == tokens->next)
+                // There's no filename, add it
+                output_line_directive(1, 0, state.token);
+            else {
+                append_tokens_to_output(directive_hash_token);
+                append_tokens_to_output(tokens);
+            }
 
             break;
         }
diff --git a/lexer.c b/lexer.c
index d8a0fb9..c24b63a 100644
--- a/lexer.c
+++ b/lexer.c
@@ -74,6 +74,11 @@ void init_lexer_from_string(char *string) {
     init_lexer();
 }
 
+// Skip whitespace, but not newlines
+static void skip_blanks(void) {
+    while (ip < input_size && (input[ip] == ' ' || input[ip] == '\t')) ip++;
+}
+
 static void skip_whitespace(void) {
     char *i = input;
 
@@ -359,10 +364,12 @@ void next(void) {
             // Lex # <num> "filename" ...
 
             ip++;
-            skip_whitespace();
+            skip_blanks();
+            if (ip >= input_size || i[ip] < '0' || i[ip] > '9') error("Unexpected #");
 
             lex_non_hex_literal();
-            skip_whitespace();
+            skip_blanks();
+            if (ip >= input_size || i[ip] != '"') error("Unexpected #");
 
             int size = 0;
             ip++; // Skip the "
-- 
2.43.0


From 7424887be1e0c723631782c3ee568ac08f45bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 065/126] fix: tokens run together in preprocessed output

---
 cpp.c | 100 +++++++++++++++++++++++++---------------------------------
 1 file changed, 43 insertions(+), 57 deletions(-)

diff --git a/cpp.c b/cpp.c
index c40962f..167c234 100644
--- a/cpp.c
+++ b/cpp.c
@@ -491,48 +491,52 @@ void strip_backslash_newlines(void) {
     lm->next = 0;
 }
 
-// Determine if two tokens that don't have a space in between them already need one.
-// The specs are unclear about this, so I followed gcc's cpp_avoid_paste() in lex.c.
+#define is_identifier(t) (\
+    t->kind == CPP_TOK_IDENTIFIER || \
+    t->kind == CPP_TOK_INCLUDE    || \
+    t->kind == CPP_TOK_DEFINE     || \
+    t->kind == CPP_TOK_UNDEF      || \
+    t->kind == CPP_TOK_IF         || \
+    t->kind == CPP_TOK_IFDEF      || \
+    t->kind == CPP_TOK_IFNDEF     || \
+    t->kind == CPP_TOK_ELIF       || \
+    t->kind == CPP_TOK_ELSE       || \
+    t->kind == CPP_TOK_ENDIF      || \
+    t->kind == CPP_TOK_LINE       || \
+    t->kind == CPP_TOK_DEFINED    || \
+    t->kind == CPP_TOK_WARNING    || \
+    t->kind == CPP_TOK_ERROR      || \
+    t->kind == CPP_TOK_PRAGMA)
+
+#define is_exponent(c1, c2) ((c1 == 'E' || c1 == 'e') && (c2 == '+' || c2 == '-'))
+
+// Determine if two tokens that don't have a space in between them already need one, since
+// they would otherwise be lexed as something else.
 static int need_token_space(CppToken *t1, CppToken *t2) {
-    if (t2->kind == '=') {
-        switch(t1->kind) {
-            case '=':
-            case '!':
-            case '+':
-            case '-':
-            case '*':
-            case '/':
-            case '%':
-            case '<':
-            case '>':
-            case '&':
-            case '|':
-            case '^':
-                return 1;
-        }
-    }
+    static char *operators[] = {
+        "...", "<<=", ">>=", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||",
+        "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "##", "/*", "//", 0
+    };
 
-         if (t1->kind == '<' && t2->kind == '<') return 1;
-    else if (t1->kind == '>' && t2->kind == '>') return 1;
-    else if (t1->kind == '+' && t2->kind == '+') return 1;
-    else if (t1->kind == '-' && t2->kind == '-') return 1;
-    else if (t1->kind == '&' && t2->kind == '&') return 1;
-    else if (t1->kind == '|' && t2->kind == '|') return 1;
-    else if (t1->kind == '-' && t2->kind == '>') return 1;
-    else if (t1->kind == '/' && t2->kind == '*') return 1;
-
-    else if (t1->kind == '+' && t2->kind == CPP_TOK_INC) return 1;
-    else if (t1->kind == '-' && t2->kind == CPP_TOK_DEC) return 1;
-    else if (t1->kind == '.' && t2->kind == CPP_TOK_NUMBER) return 1;
-
-    else if (t1->kind == CPP_TOK_IDENTIFIER && t2->kind == CPP_TOK_IDENTIFIER) return 1;
-    else if (t1->kind == CPP_TOK_IDENTIFIER && t2->kind == CPP_TOK_NUMBER) return 1;
-    else if (t1->kind == CPP_TOK_IDENTIFIER && t2->kind == CPP_TOK_STRING_LITERAL) return 1;
-    else if (t1->kind == CPP_TOK_NUMBER     && t2->kind == CPP_TOK_IDENTIFIER) return 1;
-    else if (t1->kind == CPP_TOK_NUMBER     && t2->kind == CPP_TOK_NUMBER) return 1;
-    else if (t1->kind == CPP_TOK_STRING_LITERAL && t2->kind == CPP_TOK_STRING_LITERAL) return 1;
+    if (t1->kind == CPP_TOK_EOL || t2->kind == CPP_TOK_EOL) return 0;
+    if (!t1->str[0] || !t2->str[0]) return 0;
 
-    return 0;
+    char c1 = t1->str[strlen(t1->str) - 1];
+    char c2 = t2->str[0];
+    int t2_is_word = is_identifier(t2) || t2->kind == CPP_TOK_NUMBER;
+
+    if (is_identifier(t1)) return t2_is_word || t2->kind == CPP_TOK_STRING_LITERAL;
+    if (t1->kind == CPP_TOK_NUMBER) return t2_is_word || c2 == '.' || is_exponent(c1, c2);
+    if (t1->kind == CPP_TOK_STRING_LITERAL) return t2->kind == CPP_TOK_STRING_LITERAL;
+    if (t1->kind == '.' && t2->kind == CPP_TOK_NUMBER) return 1;
+
+    // Does t1 followed by the first character of t2 start an operator?
+    int length = strlen(t1->str);
+    for (char **operator = operators; *operator; operator++)
+        if (!strncmp(*operator, t1->str, length) && (*operator)[length] == c2) return 1;
+
+    // Three dots
+    return t1->kind == '.' && c2 == '.';
 }
 
 static void append_tokens_to_string_buffer(StringBuffer *sb, CppToken *tokens, int collapse_whitespace, int update_output) {
@@ -704,7 +708,6 @@ static int lex_string_and_char_literal(char delimiter) {
 
 #define is_pp_number(c1, c2) (c1 >= '0' && c1 <= '9') || (state.input_size - state.ip >= 2 && c1 == '.' && (c2 >= '0' && c2 <= '9'))
 #define is_non_digit(c1) ((c1 >= 'a' && c1 <= 'z') || (c1 >= 'A' && c1 <= 'Z') || c1 == '_')
-#define is_exponent(c1, c2) (c1 == 'E' || c1 == 'e') && (c2 == '+' || c2 == '-')
 
 #define make_token(kind, size) \
     do { \
@@ -798,23 +801,6 @@ static void cpp_next() {
             }
             identifier[j] = 0;
 
-            #define is_identifier(t) (\
-                t->kind == CPP_TOK_IDENTIFIER || \
-                t->kind == CPP_TOK_INCLUDE    || \
-                t->kind == CPP_TOK_DEFINE     || \
-                t->kind == CPP_TOK_UNDEF      || \
-                t->kind == CPP_TOK_IF         || \
-                t->kind == CPP_TOK_IFDEF      || \
-                t->kind == CPP_TOK_IFNDEF     || \
-                t->kind == CPP_TOK_ELIF       || \
-                t->kind == CPP_TOK_ELSE       || \
-                t->kind == CPP_TOK_ENDIF      || \
-                t->kind == CPP_TOK_LINE       || \
-                t->kind == CPP_TOK_DEFINED    || \
-                t->kind == CPP_TOK_WARNING    || \
-                t->kind == CPP_TOK_ERROR      || \
-                t->kind == CPP_TOK_PRAGMA)
-
             if      (!strcmp(identifier, "define"))   { state.token = new_cpp_token(CPP_TOK_DEFINE);  state.token->str = identifier; }
             else if (!strcmp(identifier, "include"))  { state.token = new_cpp_token(CPP_TOK_INCLUDE); state.token->str = identifier; }
             else if (!strcmp(identifier, "undef"))    { state.token = new_cpp_token(CPP_TOK_UNDEF);   state.token->str = identifier; }
-- 
2.43.0


From ca315fadbf4b73ef5a86ba5b790309f46a4add6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 066/126] fix: macros defined on the command line with a value
 in parentheses

---
 cpp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp.c b/cpp.c
index 167c234..e3b5e4e 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1860,7 +1860,9 @@ void free_cpp_allocated_garbage() {
 Directive *parse_cli_define(char *string) {
     init_cpp_from_string(string);
     cpp_next();
-    Directive *d = parse_define_tokens();
+    // A value starting with a ( isn't a function-like macro
+    Directive *d = wcalloc(1, sizeof(Directive));
+    d->tokens = parse_define_replacement_tokens();
     wfree(state.input);
     return d;
 }
-- 
2.43.0


From ee681ae27b11cff9efe525f73579d85a274025ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 067/126] fix: a number followed by a wide literal ran together
 in preprocessed output

---
 cpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp.c b/cpp.c
index e3b5e4e..44d79b8 100644
--- a/cpp.c
+++ b/cpp.c
@@ -526,7 +526,7 @@ static int need_token_space(CppToken *t1, CppToken *t2) {
     int t2_is_word = is_identifier(t2) || t2->kind == CPP_TOK_NUMBER;
 
     if (is_identifier(t1)) return t2_is_word || t2->kind == CPP_TOK_STRING_LITERAL;
-    if (t1->kind == CPP_TOK_NUMBER) return t2_is_word || c2 == '.' || is_exponent(c1, c2);
+    if (t1->kind == CPP_TOK_NUMBER) return t2_is_word || c2 == 'L' || c2 == '.' || is_exponent(c1, c2);
     if (t1->kind == CPP_TOK_STRING_LITERAL) return t2->kind == CPP_TOK_STRING_LITERAL;
     if (t1->kind == '.' && t2->kind == CPP_TOK_NUMBER) return 1;
 
-- 
2.43.0


From af4a2637705aa14c46a8b61b1ac8721cbb6b3a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 068/126] fix: unsigned int constants in #if are signed longs

---
 cpp.c   | 2 ++
 lexer.c | 2 +-
 wcc.h   | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp.c b/cpp.c
index 44d79b8..82b9169 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1489,8 +1489,10 @@ static long parse_conditional_expression() {
 
     char *data = rendered->data;
     free_string_buffer(rendered, 0);
+    integer_constants_are_longs = 1;
     init_lexer_from_string(data);
     Value *value = parse_constant_integer_expression(1);
+    integer_constants_are_longs = 0;
     if (cur_token != TOK_EOF) error("Unexpected tokens after the expression");
     wfree(data);
     free_lexer();
diff --git a/lexer.c b/lexer.c
index c24b63a..9342e42 100644
--- a/lexer.c
+++ b/lexer.c
@@ -109,7 +109,7 @@ static void finish_integer_constant(int is_decimal) {
     int may_not_be_unsigned = is_decimal && !is_unsigned;
 
     if (!is_unsigned && !is_long && cur_long >= 0 && cur_long < 0x80000000); // int
-    else if (!may_not_be_unsigned && !is_long && cur_long >= 0 && cur_long <= 0xffffffff) is_unsigned = 1; // unsigned int
+    else if (!may_not_be_unsigned && !is_long && !integer_constants_are_longs && cur_long >= 0 && cur_long <= 0xffffffff) is_unsigned = 1; // unsigned int
     else if (!is_unsigned && cur_long >= 0) is_long = 1; // long int
     else {
         // unsigned long
diff --git a/wcc.h b/wcc.h
index 6ad78b3..be48df6 100644
--- a/wcc.h
+++ b/wcc.h
@@ -709,6 +709,7 @@ CompilePhase compile_phase;        // One of CP_*
 int cur_token;                     // Current token
 char *cur_identifier;              // Current identifier if the token is an identifier
 char *cur_type_identifier;         // Identifier of the last parsed declarator
+int integer_constants_are_longs;    // Integer constants don't have int types. This is the case in #if & #elif
 Type *cur_lexer_type;              // A type determined by the lexer
 long cur_long;                     // Current long if the token is an integral type
 long double cur_long_double;       // Current long double if the token is a floating point type
-- 
2.43.0


From ed0faf66338a30ac27e0783eecadad5c13af8eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 069/126] fix: positions after line markers that follow skipped
 or joined lines

---
 cpp.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cpp.c b/cpp.c
index 82b9169..ea373f7 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1255,6 +1255,11 @@ static CppToken *gather_tokens_until_eol_and_expand() {
     return expand(gather_tokens_until_eol());
 }
 
+// A line marker for the next line has just been outputted in place of the current line
+static void sync_output_line_number(void) {
+    state.output_line_number = state.token->line_number;
+}
+
 // Make a string literal or a header name from the expanded tokens of an #include.
 // A header name is made of the spelling of the tokens from the < until the >.
 static CppToken *make_include_token(CppToken *tokens) {
@@ -1325,8 +1330,9 @@ static void parse_include() {
     state = backup_state;
     cur_filename = get_presumed_filename();
 
-    output_line_marker(state.line_number_offset + state.line_number + 1, get_presumed_filename());
+    output_line_marker(state.line_number_offset + state.token->line_number + 1, get_presumed_filename());
     append_to_string_buffer(output, " 2");
+    sync_output_line_number();
 }
 
 static CppToken *parse_define_replacement_tokens(void) {
@@ -1555,6 +1561,7 @@ static void parse_line() {
     set_presumed_line_number_and_filename(tokens);
 
     output_line_directive(1, 0, state.token);
+    sync_output_line_number();
 }
 
 // Ensure two directive have identical replacement lists, and if they are
@@ -1754,6 +1761,7 @@ static void parse_directive(void) {
                 append_tokens_to_output(directive_hash_token);
                 append_tokens_to_output(tokens);
             }
+            sync_output_line_number();
 
             break;
         }
-- 
2.43.0


From e1f9f31ebc187900f39ae9f38ddf6821f5ba38a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 070/126] fix: a key put in a string or long map after an
 earlier colliding one was deleted ended up in it twice

---
 longmap.c | 29 ++++++++++++++++++-----------
 strmap.c  | 27 +++++++++++++++++----------
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/longmap.c b/longmap.c
index 14d4f86..5655fe8 100644
--- a/longmap.c
+++ b/longmap.c
@@ -66,23 +66,30 @@ void longmap_put(LongMap *map, long key, void *value) {
     long mask = map->size - 1;
     long pos = map->hashfunc(key) & mask;
 
-    while (1) {
-        char status = map->status[pos];
-        if (status != STATUS_USED) {
-            map->keys[pos] = key;
-            map->values[pos] = value;
-            map->status[pos] = STATUS_USED;
-            map->element_count++;
-            if (status == STATUS_EMPTY) map->used_count++;
-            return;
-        }
+    // The key may be beyond a tombstone. The first tombstone is only used if the key isn't
+    // in the map.
+    long tombstone = -1;
 
-        if (map->keys[pos] == key) {
+    while (map->status[pos] != STATUS_EMPTY) {
+        if (map->status[pos] == STATUS_TOMBSTONE) {
+            if (tombstone == -1) tombstone = pos;
+        }
+        else if (map->keys[pos] == key) {
             map->values[pos] = value;
             return;
         }
         pos = (pos + 1) & mask;
     }
+
+    if (tombstone == -1)
+        map->used_count++;
+    else
+        pos = tombstone;
+
+    map->keys[pos] = key;
+    map->values[pos] = value;
+    map->status[pos] = STATUS_USED;
+    map->element_count++;
 }
 
 void *longmap_get(LongMap *map, long key) {
diff --git a/strmap.c b/strmap.c
index 60239e6..0a42a31 100644
--- a/strmap.c
+++ b/strmap.c
@@ -63,23 +63,30 @@ void strmap_put(StrMap *map, char *key, void *value) {
     unsigned int mask = map->size - 1;
     unsigned int pos = hash(key) & mask;
 
+    // The key may be beyond a tombstone. The first tombstone is only used if the key isn't
+    // in the map.
+    int tombstone = -1;
+
     char *k;
-    while (1) {
-        k = map->keys[pos];
-        if (!k || k == (char *) TOMBSTONE) {
-            map->keys[pos] = key;
-            map->values[pos] = value;
-            map->element_count++;
-            if (!k) map->used_count++;
-            return;
+    while ((k = map->keys[pos])) {
+        if (k == (char *) TOMBSTONE) {
+            if (tombstone == -1) tombstone = pos;
         }
-
-        if (!strcmp(k, key)) {
+        else if (!strcmp(k, key)) {
             map->values[pos] = value;
             return;
         }
         pos = (pos + 1) & mask;
     }
+
+    if (tombstone == -1)
+        map->used_count++;
+    else
+        pos = tombstone;
+
+    map->keys[pos] = key;
+    map->values[pos] = value;
+    map->element_count++;
 }
 
 void *strmap_get(StrMap *map, char *key) {
-- 
2.43.0


From 0cbd1b4e5dbda00392abd0a423752a904a16fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:58 +0000
Subject: [PATCH 071/126] fix: results of comparisons and logical operators in
 #if are longs

---
 constexpr.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index a6bd398..c9cc6ec 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -12,6 +12,11 @@ static int unevaluated;
 
 static Value *parse_expression_level(int level);
 
+// The type of the result of comparisons & logical operations
+static Type *new_int_type(void) {
+    return new_type(integers_are_longs ? TYPE_LONG : TYPE_INT);
+}
+
 static Value *parse_unevaluated_expression(int level) {
     unevaluated++;
     Value *value = parse_expression_level(level);
@@ -113,7 +118,7 @@ Value *evaluate_const_unary_int_operation(int operation, Value *value) {
 
     // Perform integer promotions everywhere except for logical not,
     Value *v = new_value();
-    v->type = operation == IR_LNOT ? new_type(TYPE_INT) : dup_type(integer_promote_type(value->type));
+    v->type = operation == IR_LNOT ? new_int_type() : dup_type(integer_promote_type(value->type));
     v->is_constant = 1;
     v->int_value = truncate_to_type(v->type, r);
 
@@ -214,7 +219,7 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
     else return 0;
 
     Value *v = new_value();
-    v->type = is_comparison || is_logical ? new_type(TYPE_INT) : dup_type(type);
+    v->type = is_comparison || is_logical ? new_int_type() : dup_type(type);
     v->is_constant = 1;
     v->int_value = truncate_to_type(v->type, r);
 
@@ -413,7 +418,7 @@ static Value *evaluate_binary_expression(int operation, Value *value1, Value *va
     if (operation == IR_LAND || operation == IR_LOR) {
         int truth1 = constant_is_true(value1);
         int truth2 = constant_is_true(value2);
-        return new_integral_constant(TYPE_INT, operation == IR_LAND ? truth1 && truth2 : truth1 || truth2);
+        return new_integral_constant(new_int_type()->type, operation == IR_LAND ? truth1 && truth2 : truth1 || truth2);
     }
 
     int is_pointer = is_pointer_type(value1->type) || is_pointer_type(value2->type);
-- 
2.43.0


From 0d29a486aa6c464f4827fc235cae18abec70fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 072/126] fix: leaked memory when preprocessing several files

---
 main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.c b/main.c
index 6c713fa..aaaf603 100644
--- a/main.c
+++ b/main.c
@@ -481,6 +481,7 @@ int main(int argc, char **argv) {
                 init_memory_management_for_translation_unit();
                 preprocess_to_file(input_filenames->elements[i], output_filename, directive_cli_strings);
                 free_memory_for_translation_unit();
+                free_cpp_allocated_garbage();
             }
         }
         goto exit_main;
-- 
2.43.0


From 36010d217552a5a4e6c3d43d87360f83cfc7fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 073/126] fix: -c with several files wrote all of them to one
 object file

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index aaaf603..e3de8a1 100644
--- a/main.c
+++ b/main.c
@@ -532,7 +532,7 @@ int main(int argc, char **argv) {
             if (!input_filename) continue;
 
             char *assembler_output_filename =
-                !run_linker ? (output_filename ? wstrdup(output_filename) : replace_extension(single_target ? input_filenames->elements[0] : input_filename, "o"))
+                !run_linker ? (output_filename ? wstrdup(output_filename) : replace_extension(input_filenames->elements[i], "o"))
                 : make_temp_filename("/tmp/XXXXXX.o");
 
             if (print_filenames) printf("Assembling %s to %s\n", input_filename, assembler_output_filename);
-- 
2.43.0


From ccdb0940bca4bc633fefc3823737b6fa5b4ae1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 074/126] fix: the assembler command line printed by -v was
 made with an overlapping sprintf

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index e3de8a1..9d607e4 100644
--- a/main.c
+++ b/main.c
@@ -539,7 +539,7 @@ int main(int argc, char **argv) {
 
             sprintf(command, "%s -64 %s -o %s", get_as_binary(), input_filename, assembler_output_filename);
             if (verbose) {
-                sprintf(command, "%s %s", command, "-v");
+                strcat(command, " -v");
                 printf("%s\n", command);
             }
             int result = system(command);
-- 
2.43.0


From 7811b79541b564a7652bde4ccba41fbdc41525e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 075/126] fix: temporary files were left behind

---
 wcc.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/wcc.c b/wcc.c
index 3f5465e..804b5d6 100644
--- a/wcc.c
+++ b/wcc.c
@@ -32,6 +32,19 @@ char free_memory_for_translation_unit(void) {
     free_ir();
 }
 
+typedef struct temp_file {
+    char *filename;
+    struct temp_file *next;
+} TempFile;
+
+static TempFile *temp_files;
+
+static void remove_temp_files(void) {
+    for (TempFile *temp_file = temp_files; temp_file; temp_file = temp_file->next)
+        unlink(temp_file->filename);
+}
+
+// Make a temporary file that's removed on exit
 char *make_temp_filename(char *template) {
     template = wstrdup(template);
     int fd = mkstemps(template, 2);
@@ -41,6 +54,15 @@ char *make_temp_filename(char *template) {
     }
     close(fd);
 
+    // This is needed until the process exits, so it isn't part of the memory accounting
+    TempFile *temp_file = malloc(sizeof(TempFile));
+    if (temp_file) {
+        if (!temp_files) atexit(remove_temp_files);
+        temp_file->filename = strdup(template);
+        temp_file->next = temp_files;
+        temp_files = temp_file;
+    }
+
     return template;
 }
 
-- 
2.43.0


From 05d105bf4e81c6aae10efa1c0b75abd79d2029b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 076/126] fix: file names with characters that are special to
 the shell

---
 main.c | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/main.c b/main.c
index 9d607e4..59a1dfa 100644
--- a/main.c
+++ b/main.c
@@ -15,6 +15,29 @@ static char *get_as_binary(void) {
     return env_value ? env_value : "as";
 }
 
+// Append an argument to a shell command, preceded by a space. The argument is quoted if it has any
+// characters that mean something to the shell.
+static char *append_argument(char *s, char *argument) {
+    int needs_quotes = !*argument;
+    for (char *p = argument; *p; p++)
+        if (!strchr("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-+=,.:/@%", *p)) needs_quotes = 1;
+
+    *s++ = ' ';
+    if (!needs_quotes) return s + sprintf(s, "%s", argument);
+
+    *s++ = '\'';
+    for (char *p = argument; *p; p++) {
+        if (*p == '\'')
+            s += sprintf(s, "'\\''");
+        else
+            *s++ = *p;
+    }
+    *s++ = '\'';
+    *s = 0;
+
+    return s;
+}
+
 // Check if the filename ends in .c
 static int is_c_source_file(const char *const filename) {
     int filename_len = strlen(filename);
@@ -537,7 +560,11 @@ int main(int argc, char **argv) {
 
             if (print_filenames) printf("Assembling %s to %s\n", input_filename, assembler_output_filename);
 
-            sprintf(command, "%s -64 %s -o %s", get_as_binary(), input_filename, assembler_output_filename);
+            char *s = command;
+            s += sprintf(s, "%s -64", get_as_binary());
+            s = append_argument(s, input_filename);
+            s += sprintf(s, " -o");
+            append_argument(s, assembler_output_filename);
             if (verbose) {
                 strcat(command, " -v");
                 printf("%s\n", command);
@@ -564,7 +591,7 @@ int main(int argc, char **argv) {
         char *s = filenames;
         for (int i = 0; i < input_filenames->length; i++) {
             char *filename = linker_input_filenames[i];
-            if (filename) s += sprintf(s, " %s", (char *) filename);
+            if (filename) s = append_argument(s, filename);
         }
         if (print_filenames) printf("Running linker on%s\n", filenames);
 
@@ -572,14 +599,17 @@ int main(int argc, char **argv) {
         s += sprintf(s, "gcc%s", filenames);
         wfree(filenames);
 
-        for (CliLibraryPath *cli_library_path = cli_library_paths; cli_library_path; cli_library_path = cli_library_path->next)
-            s += sprintf(s, " -L %s", cli_library_path->path);
+        for (CliLibraryPath *cli_library_path = cli_library_paths; cli_library_path; cli_library_path = cli_library_path->next) {
+            s += sprintf(s, " -L");
+            s = append_argument(s, cli_library_path->path);
+        }
 
         for (CliLibrary *cli_library = cli_libraries; cli_library; cli_library = cli_library->next)
             s += sprintf(s, " -l %s", cli_library->library);
 
         char *linker_output_filename = output_filename ? output_filename : "a.out";
-        s += sprintf(s, " -o %s", linker_output_filename);
+        s += sprintf(s, " -o");
+        s = append_argument(s, linker_output_filename);
 
         if (shared) s += sprintf(s, " -shared");
 
-- 
2.43.0


From 8774717c33f1b56180549135bfe7d354e0a97ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 077/126] fix: declarations inside expressions, expressions
 after declarations and declarations without a semicolon were accepted

---
 parser.c | 66 +++++++++++++++++++++++++++++---------------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/parser.c b/parser.c
index 6801da6..beb2507 100644
--- a/parser.c
+++ b/parser.c
@@ -2264,6 +2264,19 @@ static void parse_declaration(void) {
         error("Storage size is unknown");
 }
 
+// Parse a list of declarators with optional initializers, after the declaration specifiers
+static void parse_declaration_list(void) {
+    while (1) {
+        if (cur_token != TOK_IDENTIFIER && cur_token != TOK_TYPEDEF_TYPE && cur_token != TOK_MULTIPLY && cur_token != TOK_LPAREN)
+            error("Unexpected token %d in declaration", cur_token);
+
+        parse_declaration();
+        if (cur_token > TOK_COMMA) error("Missing expression before token %d in declaration", cur_token);
+        if (cur_token != TOK_COMMA) break;
+        next();
+    }
+}
+
 Value *parse_expression_and_pop(int level) {
     parse_expression(level);
     return pop();
@@ -2702,17 +2715,7 @@ static Value *parse_statement_expression(void) {
 static void parse_expression(int level) {
     // Parse any tokens that can be at the start of an expression
 
-    // If base type has a value, then the current token cannot be a type. The
-    // exception is if it's a typedef which has been redeclared as a variable, in which
-    // case, cur_token_is_type will identify it as a typedef, when it should be
-    // treated as an identifier.
-    if (!base_type && cur_token_is_type()) {
-        base_type = parse_declaration_specifiers();
-        parse_expression(TOK_COMMA);
-        free_and_null(base_type);
-    }
-
-    else switch(cur_token) {
+    switch(cur_token) {
         // A typedef an also be used as an identifier in a labelled statement
         case TOK_TYPEDEF:
             parse_typedef();
@@ -2797,17 +2800,13 @@ static void parse_expression(int level) {
         }
 
         case TOK_MULTIPLY:
-            if (base_type)
-                parse_declaration();
-            else {
-                next();
-                parse_expression(TOK_INC);
+            next();
+            parse_expression(TOK_INC);
 
-                // Special case: indirects on function types are no-ops.
-                if (vtop()->type->type != TYPE_FUNCTION)  {
-                    if (!is_pointer_or_array_type(vtop()->type)) error("Cannot dereference a non-pointer");
-                    indirect();
-                }
+            // Special case: indirects on function types are no-ops.
+            if (vtop()->type->type != TYPE_FUNCTION)  {
+                if (!is_pointer_or_array_type(vtop()->type)) error("Cannot dereference a non-pointer");
+                indirect();
             }
             break;
 
@@ -2851,10 +2850,7 @@ static void parse_expression(int level) {
             break;
 
         case TOK_LPAREN:
-            if (base_type)
-                parse_declaration();
-
-            else {
+            {
                 next();
 
                 if (cur_token == TOK_LCURLY) {
@@ -2927,10 +2923,7 @@ static void parse_expression(int level) {
         // In this context, the lexer can identify a typedef which has been redeclared as a variable.
         // Treat it as if it was an identifier
         case TOK_TYPEDEF_TYPE:
-            if (base_type)
-                parse_declaration();
-
-            else {
+            {
                 // It's a symbol
                 if (!strcmp(cur_identifier, "va_start"))
                     parse_va_start();
@@ -2942,6 +2935,7 @@ static void parse_expression(int level) {
                     // Look up symbol
                     Symbol *symbol = lookup_symbol(cur_identifier, cur_scope, 1);
                     if (!symbol) error("Unknown symbol \"%s\"", cur_identifier);
+                    if (symbol->type->type == TYPE_TYPEDEF) error("Unexpected type \"%s\" in expression", cur_identifier);
 
                     next();
 
@@ -3104,7 +3098,13 @@ static void parse_iteration_statement(void) {
         if (cur_token != TOK_SEMI) {
             linit  = new_label_dst();
             add_jmp_target_instruction(linit);
-            parse_expression(TOK_COMMA);
+            if (cur_token_is_type()) {
+                base_type = parse_declaration_specifiers();
+                parse_declaration_list();
+                free_and_null(base_type);
+            }
+            else
+                parse_expression(TOK_COMMA);
         }
         consume(TOK_SEMI, ";");
 
@@ -3453,8 +3453,10 @@ static void parse_statement(void) {
         else if (cur_token == TOK_COLON && is_typedef)
             // Special case for a typedef used as a labelled statement
             parse_label_statement(identifier);
-        else
-            parse_expression(TOK_COMMA);
+        else {
+            parse_declaration_list();
+            consume(TOK_SEMI, ";");
+        }
     }
 
     else switch (cur_token) {
-- 
2.43.0


From 222b0254001a6f8678925819410e8ecef8ec3c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 078/126] fix: missing tags, typedef names, too long string
 literals and many arguments crashed; redefined and recursive structs were
 accepted

---
 ir.c     | 13 +++++++++++--
 lexer.c  |  2 ++
 parser.c | 14 ++++++++++++--
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/ir.c b/ir.c
index 6a7ac04..1f67add 100644
--- a/ir.c
+++ b/ir.c
@@ -396,8 +396,6 @@ int make_function_call_count(Function *function) {
 // the seventh arg and later to be pushed in reverse order. Easiest is to flip
 // all args backwards, so they are pushed left to right.
 void reverse_function_argument_order(Function *function) {
-    const int MAX_ARGS = 256;
-
     typedef struct tac_interval {
         Tac *start;
         Tac *end;
@@ -406,6 +404,17 @@ void reverse_function_argument_order(Function *function) {
     // Need to count this IR's function_call_count
     int function_call_count = make_function_call_count(function);
 
+    // Determine the size of the rows of function_args: the maximum amount of args and one more for the call itself
+    int max_args = 0;
+    int *seen_arg_counts = wcalloc(function_call_count, sizeof(int));
+    for (Tac *tac = function->ir; tac; tac = tac->next) {
+        if (tac->operation != IR_ARG) continue;
+        int seen_arg_count = ++seen_arg_counts[tac->src1->int_value];
+        if (seen_arg_count > max_args) max_args = seen_arg_count;
+    }
+    wfree(seen_arg_counts);
+    const int MAX_ARGS = max_args + 1;
+
     // First index, function_id, second index arg_id
     TacInterval *function_args;
     function_args = wmalloc(sizeof(TacInterval) * (function_call_count * MAX_ARGS + 1));
diff --git a/lexer.c b/lexer.c
index 9342e42..f071a0b 100644
--- a/lexer.c
+++ b/lexer.c
@@ -216,6 +216,8 @@ void lex_single_string_literal(int *size) {
     char *i = input;
 
     while (input_size - ip >= 1 && i[ip] != '"') {
+        if (*size >= MAX_STRING_LITERAL_SIZE - 1) panic_with_line_number("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
+
         if (i[ip] != '\\') data[(*size)++] = i[ip++];
         else if (input_size - ip >= 2 && i[ip] == '\\') {
                  if (i[ip + 1] == '\'') { ip += 2; data[(*size)++] = '\''; }
diff --git a/parser.c b/parser.c
index beb2507..a6c915f 100644
--- a/parser.c
+++ b/parser.c
@@ -285,7 +285,8 @@ Value *make_string_literal_value_from_cur_string_literal(void) {
     value->type = make_array(new_type(cur_string_literal.is_wide_char ? TYPE_INT : TYPE_CHAR), cur_string_literal.size);
     value->string_literal_index = string_literal_count;
     value->is_string_literal = 1;
-    if (string_literal_count > MAX_STRING_LITERALS) panic_with_line_number("Exceeded max string literals %d", MAX_STRING_LITERALS);
+    if (string_literal_count >= MAX_STRING_LITERALS) panic_with_line_number("Exceeded max string literals %d", MAX_STRING_LITERALS);
+    if (!string_literals) error("A string literal is not allowed in a preprocessor expression");
     string_literals[string_literal_count] = cur_string_literal;
 
     // Copy string literal data
@@ -956,9 +957,11 @@ static Type *parse_struct_or_union_type_specifier(void) {
         Type *type = 0;
         if (identifier) type = find_struct_or_union(identifier, is_union, 0);
         if (!type) type = new_struct_or_union(identifier);
+        else if (!type->struct_or_union_desc->is_incomplete) error("Redefinition of %s %s", is_union ? "union" : "struct", identifier);
 
         StructOrUnion *s = type->struct_or_union_desc;
         s->is_union = is_union;
+        s->is_incomplete = 1; // Until the closing }
 
         // Loop over members
         int member_count = 0;
@@ -1033,6 +1036,8 @@ static Type *parse_struct_or_union_type_specifier(void) {
     else {
         // Struct/union use
 
+        if (!identifier) error("Expected an identifier or { after %s", is_union ? "union" : "struct");
+
         Type *type = find_struct_or_union(identifier, is_union, 1);
         if (type) return type; // Found a complete or incomplete struct
 
@@ -1105,6 +1110,8 @@ static Type *parse_enum_type_specifier(void) {
     else {
         // Enum use
 
+        if (!identifier) error("Expected an identifier or { after enum");
+
         Type *type = find_enum(identifier);
         if (!type) error("Unknown enum %s", identifier);
         return type;
@@ -1123,6 +1130,7 @@ void parse_typedef(void) {
         cur_type_identifier = 0;
 
         Type *type = concat_types(parse_declarator(), dup_type(base_type));
+        if (!cur_type_identifier) error("Expected an identifier");
 
         parse_attributes();
 
@@ -2687,6 +2695,7 @@ static Value *parse_statement_expression(void) {
     Value **old_vs = vs;
 
     init_value_stack();
+    vs = vs_start;
     enter_scope();
     parse_compound_statement();
 
@@ -3455,6 +3464,7 @@ static void parse_statement(void) {
             parse_label_statement(identifier);
         else {
             parse_declaration_list();
+            free_and_null(base_type);
             consume(TOK_SEMI, ";");
         }
     }
@@ -3800,7 +3810,7 @@ void init_parser(void) {
 void free_parser(void) {
     if (base_type) free (base_type);
 
-    wfree(string_literals);
+    free_and_null(string_literals);
 
     for (int i = 0; i < all_typedefs_count; i++) wfree(all_typedefs[i]);
     wfree(all_typedefs);
-- 
2.43.0


From d4e1162dd51e97a77e651df00c8e9887744bea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 079/126] fix: identifiers of the maximum length overflowed
 their buffer

---
 lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer.c b/lexer.c
index f071a0b..af48e87 100644
--- a/lexer.c
+++ b/lexer.c
@@ -455,7 +455,7 @@ void next(void) {
 
             int j = 0;
             while (((i[ip] >= 'a' && i[ip] <= 'z') || (i[ip] >= 'A' && i[ip] <= 'Z') || (i[ip] >= '0' && i[ip] <= '9') || (i[ip] == '_')) && ip < input_size) {
-                if (j == MAX_IDENTIFIER_SIZE) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
+                if (j == MAX_IDENTIFIER_SIZE - 1) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
                 cur_identifier[j] = i[ip];
                 j++; ip++;
             }
-- 
2.43.0


From 952ac95d21730756ea39ce16edd067b7aae60489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 080/126] fix: invalid conversions, initializers, void objects,
 addresses of rvalues and stray break/continue weren't diagnosed; valid uses
 of const members, typedef names, functions and redeclarations were rejected

---
 parser.c | 113 +++++++++++++++++++++++++++++++++++++++++++------------
 types.c  |   2 +-
 2 files changed, 89 insertions(+), 26 deletions(-)

diff --git a/parser.c b/parser.c
index a6c915f..6fb0dcd 100644
--- a/parser.c
+++ b/parser.c
@@ -41,6 +41,8 @@ static List *allocated_sets;  // Allocated Set instances
 static Type *parse_struct_or_union_type_specifier(void);
 static Type *parse_enum_type_specifier(void);
 static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *expression);
+Value *add_convert_type_if_needed(Value *src, Type *dst_type);
+static int initializer_is_braced;    // The initializer being parsed has outer braces
 static int initializer_needs_zeroes; // The object being initialized isn't initialized entirely by stores
 void check_and_or_operation_type(Value *src1, Value *src2);
 static void decay_vtop(void);
@@ -616,7 +618,7 @@ static Type *concat_types(Type *type1, Type *type2) {
 
     // Check arrays have complete elements
     if (type1_tail->type == TYPE_ARRAY) {
-        if (type2->type == TYPE_STRUCT_OR_UNION && !get_type_size(type2))
+        if (type2->type == TYPE_VOID || type2->type == TYPE_STRUCT_OR_UNION && !get_type_size(type2))
             error("Array has incomplete element type");
     }
 
@@ -992,6 +994,7 @@ static Type *parse_struct_or_union_type_specifier(void) {
 
                 if (!is_zero_length_array && is_incomplete_type(type)) error("Struct/union members cannot have an incomplete type");
                 if (type->type == TYPE_FUNCTION) error("Struct/union members cannot have a function type");
+                if (type->type == TYPE_VOID) error("Struct/union members cannot have a void type");
 
                 StructOrUnionMember *member = add_struct_member(cur_type_identifier, type, s, &member_count);
 
@@ -1086,6 +1089,7 @@ static Type *parse_enum_type_specifier(void) {
         while (cur_token != TOK_RCURLY) {
             expect(TOK_IDENTIFIER, "identifier");
             char *enum_value_identifier = parser_wstrdup(cur_identifier);
+            if (lookup_symbol(cur_identifier, cur_scope, 0)) error("Identifier redeclared: %s", cur_identifier);
             next();
             if (cur_token == TOK_EQ) {
                 next();
@@ -1179,7 +1183,7 @@ StructOrUnionMember *lookup_struct_or_union_member(Type *type, char *identifier)
         pmember++;
     }
 
-    error("Unknown member %s in struct %s\n", identifier, type->tag ? type->tag->identifier : "(anonymous)");
+    error("Unknown member %s in struct %s", identifier, type->tag ? type->tag->identifier : "(anonymous)");
 }
 
 // Allocate a new label and create a value for it, for use in a jmp
@@ -1541,7 +1545,7 @@ void check_binary_operation_types(int operation, Value *src1, Value *src2) {
 
     if (operation == IR_MUL  && (!src1_is_arithmetic || !src2_is_arithmetic)) error("Invalid operands to binary *");
     if (operation == IR_DIV  && (!src1_is_arithmetic || !src2_is_arithmetic)) error("Invalid operands to binary /");
-    if (operation == IR_MOD  && (!src1_is_integer    || !src2_is_integer))    error("Invalid operands to binary %");
+    if (operation == IR_MOD  && (!src1_is_integer    || !src2_is_integer))    error("Invalid operands to binary %%");
     if (operation == IR_BAND && (!src1_is_integer    || !src2_is_integer))    error("Invalid operands to binary &");
     if (operation == IR_BOR  && (!src1_is_integer    || !src2_is_integer))    error("Invalid operands to binary |");
     if (operation == IR_XOR  && (!src1_is_integer    || !src2_is_integer))    error("Invalid operands to binary ^");
@@ -1603,6 +1607,15 @@ static void parse_arithmetic_operation(int level, int operation, Type *type) {
     Value *src2 = vtop();
     check_binary_operation_types(operation, src1, src2);
 
+    // Comparisons between a pointer to a function and a pointer to void are done with the latter
+    if (is_pointer_to_void(src1->type) && is_pointer_to_function_type(src2->type))
+        push(add_convert_type_if_needed(pl(), src1->type));
+    else if (is_pointer_to_function_type(src1->type) && is_pointer_to_void(src2->type)) {
+        src2 = pl();
+        push(add_convert_type_if_needed(pl(), src2->type));
+        push(src2);
+    }
+
     arithmetic_operation(operation, type);
 }
 
@@ -1686,15 +1699,29 @@ static void decay_vtop(void) {
     }
 }
 
+// Raise an error if there is no conversion between the two types
+static void check_type_conversion(Type *dst, Type *src) {
+    int dst_is_pointer = is_pointer_type(dst);
+    int src_is_pointer = is_pointer_type(src) || src->type == TYPE_FUNCTION;
+
+    if (dst->type == TYPE_STRUCT_OR_UNION || src->type == TYPE_STRUCT_OR_UNION) {
+        if (!types_are_compatible_ignore_qualifiers(dst, src)) error("Incompatible types in conversion");
+    }
+    else if ((dst_is_pointer && is_floating_point_type(src)) || (src_is_pointer && is_floating_point_type(dst)))
+        error("Incompatible types in conversion between a pointer and a floating point type");
+}
+
 // Add type change move if necessary and return the dst value
 Value *add_convert_type_if_needed(Value *src, Type *dst_type) {
     if (dst_type->type == TYPE_FUNCTION) error("Function type mismatch");
 
+    check_type_conversion(dst_type, src->type);
+
     int dst_is_function = is_pointer_to_function_type(dst_type)  || dst_type->type == TYPE_FUNCTION;
     int src_is_function = is_pointer_to_function_type(src->type) || src->type->type == TYPE_FUNCTION;
 
-    if ((dst_is_function && src_is_function) || (is_pointer_to_void(dst_type) && src->type->type == TYPE_FUNCTION))
-        return load_function(src, dst_type);
+    if (dst_is_function && src_is_function) return load_function(src, dst_type);
+    if (is_pointer_to_void(dst_type) && src->type->type == TYPE_FUNCTION) src = load_function(src, dst_type);
 
     if (!type_eq(dst_type, src->type)) {
         if (src->is_constant) {
@@ -1746,6 +1773,8 @@ Value *add_convert_type_if_needed(Value *src, Type *dst_type) {
         else if (dst_is_function && !src_is_function && !is_null_pointer(src) && !is_pointer_to_void(src->type))
             error("Function type mismatch");
 
+        if (src->type->type == TYPE_FUNCTION) src = load_function(src, src->type);
+
         // Convert non constant
         Value *src2 = new_value();
         src2->vreg = new_vreg();
@@ -1934,6 +1963,14 @@ static int is_array_for_string_literal(Type *type, Value *string_literal) {
     return type->target->type == (is_wide_char ? TYPE_INT : TYPE_CHAR);
 }
 
+// Parse the initializer of an entire object. Aggregates must be initialized with either
+// something in braces, a string literal or, in case of a struct/union, an expression.
+static void parse_object_initializer(Value *value) {
+    initializer_is_braced = cur_token == TOK_LCURLY;
+    parse_initializer(type_iterator(value->type), value, 0);
+    initializer_is_braced = 1;
+}
+
 // Add instructions to initialize an object with automatic storage duration
 static void parse_automatic_initializer(Value *value) {
     int old_initializer_needs_zeroes = initializer_needs_zeroes;
@@ -1942,7 +1979,7 @@ static void parse_automatic_initializer(Value *value) {
     // Reserve an instruction for zeroing out the entire object before storing anything in it
     Tac *tac = add_parser_instruction(IR_NOP, 0, 0, 0);
 
-    parse_initializer(type_iterator(value->type), value, 0);
+    parse_object_initializer(value);
 
     if (initializer_needs_zeroes) {
         tac->operation = IR_ZERO;
@@ -1979,6 +2016,8 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
         ? parse_constant_expression : parse_expression_and_pop;
 
     TypeIterator *outer_it = it;
+    int is_braced = initializer_is_braced || expression;
+    initializer_is_braced = 1;
 
     if (cur_token == TOK_LCURLY) {
         // Parse {...} initializer
@@ -2054,6 +2093,7 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
             is_struct = src->type->type == TYPE_STRUCT_OR_UNION && it->index == it->start_index
                 && types_are_compatible_ignore_qualifiers(it->type, src->type);
             if (is_struct) break;
+            if (!is_braced) error("Invalid initializer");
             it = descend_in_initializer(it, value);
         }
 
@@ -2206,6 +2246,7 @@ static void parse_declaration(void) {
     if (!cur_type_identifier) error("Expected an identifier");
 
     if (lookup_symbol(cur_type_identifier, cur_scope, 0)) error("Identifier redeclared: %s", cur_type_identifier);
+    if (type->type == TYPE_VOID) error("Variable declared void: %s", cur_type_identifier);
 
     if (base_type->storage_class == SC_STATIC) {
         symbol = new_symbol(cur_type_identifier);
@@ -2259,7 +2300,7 @@ static void parse_declaration(void) {
             error("Attempt to use an incomplete struct or union in an initializer");
 
         if (v->global_symbol)
-            parse_initializer(type_iterator(v->type), v, 0);
+            parse_object_initializer(v);
         else
             parse_automatic_initializer(v);
         symbol->type = v->type;
@@ -2267,8 +2308,8 @@ static void parse_declaration(void) {
         base_type = old_base_type;
     }
 
-    // If it's not initialized and incomplete, bail.
-    else if (is_incomplete_type(symbol->type))
+    // If it's not initialized and incomplete, bail, unless it's defined elsewhere
+    else if (is_incomplete_type(symbol->type) && symbol->linkage != LINKAGE_EXPLICIT_EXTERNAL)
         error("Storage size is unknown");
 }
 
@@ -2385,8 +2426,10 @@ static void parse_function_call(void) {
 
         // Convert type if needed
         if (!function_type->function->is_paramless && arg_count < function_type->function->param_count) {
-            if (!type_eq(vtop()->type, function_type->function->param_types->elements[arg_count])) {
-                Type *param_type = function_type->function->param_types->elements[arg_count];
+            Type *param_type = function_type->function->param_types->elements[arg_count];
+            check_type_conversion(param_type, vtop()->type);
+
+            if (!type_eq(vtop()->type, param_type)) {
 
                 if (param_type->type == TYPE_ARRAY)
                     param_type = decay_array_to_pointer(param_type);
@@ -2572,13 +2615,17 @@ void parse_struct_dot_arrow_expression(void) {
     int is_dot = cur_token == TOK_DOT;
 
     next();
-    consume(TOK_IDENTIFIER, "identifier");
+
+    // Members have their own name space, so a member may have the name of a typedef
+    if (cur_token == TOK_TYPEDEF_TYPE)
+        next();
+    else
+        consume(TOK_IDENTIFIER, "identifier");
 
     Type *str_type = is_dot ? vtop()->type : vtop()->type->target;
     StructOrUnionMember *member = lookup_struct_or_union_member(str_type, cur_identifier);
 
-    int member_is_const = 0;
-    member_is_const = !type_is_modifiable(str_type);
+    int member_is_const = str_type->is_const || member->type->is_const;
 
     if (!is_dot) indirect();
 
@@ -2760,7 +2807,7 @@ static void parse_expression(int level) {
             parse_expression(TOK_INC);
 
             // Arrays are rvalues as well as lvalues. Otherwise, an lvalue is required
-            if ((vtop()->type->type == TYPE_ARRAY && vtop()->is_lvalue) && !vtop()->is_lvalue)
+            if (vtop()->type->type != TYPE_ARRAY && vtop()->type->type != TYPE_FUNCTION && !vtop()->is_lvalue)
                 error("Cannot take an address of an rvalue");
 
             if (vtop()->bit_field_size) error("Cannot take an address of a bit-field");
@@ -2774,6 +2821,13 @@ static void parse_expression(int level) {
                 // e.g. (int) ((size_t) &((struct s *) 0)->m);
                 push_integral_constant(TYPE_LONG, src1->int_value + src1->offset);
 
+            else if (src1->is_string_literal) {
+                // The address of a string literal is already what it is loaded as
+                Value *dst = dup_value(load(src1));
+                dst->type = make_pointer(src1->type);
+                push(dst);
+            }
+
             else {
                 add_ir_op(IR_ADDRESS_OF, make_pointer(src1->type), new_vreg(), src1, 0);
                 if (src1->offset && src1->vreg) {
@@ -2875,6 +2929,8 @@ static void parse_expression(int level) {
                     parse_expression(TOK_INC);
                     Value *v1 = pl();
 
+                    if (dst_type->type != TYPE_VOID) check_type_conversion(dst_type, v1->type);
+
                     if (dst_type->type == TYPE_VOID)
                         push_void();
 
@@ -3487,12 +3543,14 @@ static void parse_statement(void) {
             break;
 
         case TOK_CONTINUE:
+            if (!cur_loop_continue_dst) error("A continue statement must be in a loop");
             next();
             add_parser_instruction(IR_JMP, 0, cur_loop_continue_dst, 0);
             consume(TOK_SEMI, ";");
             break;
 
         case TOK_BREAK:
+            if (!cur_loop_break_dst) error("A break statement must be in a loop or switch");
             next();
             add_parser_instruction(IR_JMP, 0, cur_loop_break_dst, 0);
             consume(TOK_SEMI, ";");
@@ -3633,6 +3691,16 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
     return is_definition;
 }
 
+// Set the type of a symbol. If it's a redeclaration, the types are merged.
+static void merge_redeclared_type(Symbol *symbol, Symbol *original_symbol, Type *type) {
+    if (original_symbol) {
+        if (!types_are_compatible(type, original_symbol->type)) error("Incompatible types");
+        symbol->type = composite_type(type, original_symbol->type);
+    }
+    else
+        symbol->type = type;
+}
+
 // Ensure linkage is the same for a symbol that has been redeclared.
 int redefined_symbol_linkage(int linkage1, int linkage2, char *cur_type_identifier) {
     if (linkage1 == linkage2) return linkage1;
@@ -3686,6 +3754,8 @@ void parse(void) {
                 Type *type = concat_base_type(parse_declarator(), base_type);
 
                 if (!cur_type_identifier) error("Expected an identifier");
+                if (type->type == TYPE_VOID && base_type->storage_class != SC_EXTERN)
+                    error("Variable declared void: %s", cur_type_identifier);
 
                 Symbol *original_symbol = lookup_symbol(cur_type_identifier, global_scope, 1);
                 Symbol *symbol;
@@ -3717,6 +3787,7 @@ void parse(void) {
                 }
                 else if (cur_token == TOK_EQ) {
                     if (original_symbol && original_symbol->initializers) error("Redefinition of %s", cur_type_identifier);
+                    merge_redeclared_type(symbol, original_symbol, type);
 
                     BaseType *old_base_type = base_type;
                     base_type = 0;
@@ -3726,22 +3797,14 @@ void parse(void) {
                     if (v->type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(v->type))
                         error("Attempt to use an incomplete struct or union in an initializer");
 
-                    parse_initializer(type_iterator(v->type), v, 0);
+                    parse_object_initializer(v);
                     symbol->type = v->type;
                     base_type = old_base_type;
                 }
 
                 else {
                     // Non-function
-
-                    if (original_symbol) {
-                        // Merge types if it's a redeclaration
-                        if (!types_are_compatible(type, original_symbol->type)) error("Incompatible types");
-                        symbol->type = composite_type(type, original_symbol->type);
-                    }
-                    else
-                        symbol->type = type;
-
+                    merge_redeclared_type(symbol, original_symbol, type);
                 }
 
                 parse_attributes();
diff --git a/types.c b/types.c
index f8372eb..0fa517a 100644
--- a/types.c
+++ b/types.c
@@ -941,7 +941,7 @@ int type_is_modifiable(Type *type) {
 
             if (member->type->type == TYPE_STRUCT_OR_UNION) {
                 is_modifiable = type_is_modifiable(member->type);
-                if (is_modifiable) break;
+                if (!is_modifiable) break;
             }
         }
 
-- 
2.43.0


From e925f9ef33d5d6cb36fc989fd78daa78885f8cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 081/126] fix: typedefs in expressions, the maximum number of
 struct members and comparisons between pointers and integers crashed

---
 parser.c | 33 +++++++++++++++++++++------------
 types.c  |  6 +++---
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/parser.c b/parser.c
index 6fb0dcd..3a33871 100644
--- a/parser.c
+++ b/parser.c
@@ -1598,6 +1598,12 @@ void check_binary_operation_types(int operation, Value *src1, Value *src2) {
     }
 }
 
+// Must the src operand of a comparison be converted to the pointer type of the other operand?
+static int is_comparison_operand_converted(Value *src, Value *other) {
+    if (is_pointer_to_function_type(src->type)) return is_pointer_to_void(other->type);
+    return is_pointer_type(other->type) && is_arithmetic_type(src->type) && !(src->is_constant && is_integer_type(src->type));
+}
+
 static void parse_arithmetic_operation(int level, int operation, Type *type) {
     int is_equality = operation == IR_EQ || operation == IR_NE;
     if (is_equality && vtop()->type->type == TYPE_FUNCTION) decay_vtop();
@@ -1607,13 +1613,16 @@ static void parse_arithmetic_operation(int level, int operation, Type *type) {
     Value *src2 = vtop();
     check_binary_operation_types(operation, src1, src2);
 
-    // Comparisons between a pointer to a function and a pointer to void are done with the latter
-    if (is_pointer_to_void(src1->type) && is_pointer_to_function_type(src2->type))
-        push(add_convert_type_if_needed(pl(), src1->type));
-    else if (is_pointer_to_function_type(src1->type) && is_pointer_to_void(src2->type)) {
-        src2 = pl();
-        push(add_convert_type_if_needed(pl(), src2->type));
-        push(src2);
+    if (is_equality || operation == IR_LT || operation == IR_GT || operation == IR_LE || operation == IR_GE) {
+        // Comparisons between a pointer to a function and a pointer to void are done with the latter.
+        // Comparisons between a pointer and an integer are done with pointers.
+        if (is_comparison_operand_converted(src2, src1))
+            push(add_convert_type_if_needed(pl(), src1->type));
+        else if (is_comparison_operand_converted(src1, src2)) {
+            src2 = pl();
+            push(add_convert_type_if_needed(pl(), src2->type));
+            push(src2);
+        }
     }
 
     arithmetic_operation(operation, type);
@@ -2772,11 +2781,6 @@ static void parse_expression(int level) {
     // Parse any tokens that can be at the start of an expression
 
     switch(cur_token) {
-        // A typedef an also be used as an identifier in a labelled statement
-        case TOK_TYPEDEF:
-            parse_typedef();
-            break;
-
         case TOK_LOGICAL_NOT:
             next();
             parse_expression(TOK_INC);
@@ -3587,6 +3591,11 @@ static void parse_statement(void) {
             parse_goto_statement();
             break;
 
+        case TOK_TYPEDEF:
+            parse_typedef();
+            consume(TOK_SEMI, ";");
+            break;
+
         default:
             parse_expression(TOK_COMMA);
             consume(TOK_SEMI, ";");
diff --git a/types.c b/types.c
index 0fa517a..b40d89c 100644
--- a/types.c
+++ b/types.c
@@ -267,7 +267,7 @@ Type *dup_type(Type *src) {
 Type *new_struct_or_union(char *tag_identifier) {
     StructOrUnion *s = wcalloc(1, sizeof(StructOrUnion));
     append_to_list(all_structs_and_unions, s);
-    s->members = wcalloc(MAX_STRUCT_MEMBERS, sizeof(StructOrUnionMember *));
+    s->members = wcalloc(MAX_STRUCT_MEMBERS + 1, sizeof(StructOrUnionMember *));
 
     Type *type = make_struct_or_union_type(s);
 
@@ -892,11 +892,11 @@ void flatten_anonymous_structs(StructOrUnion *s) {
 
             // Keep the unflattened members for use in initializers
             if (!s->nested_members) {
-                s->nested_members = wcalloc(MAX_STRUCT_MEMBERS, sizeof(StructOrUnionMember *));
+                s->nested_members = wcalloc(MAX_STRUCT_MEMBERS + 1, sizeof(StructOrUnionMember *));
                 for (int i = 0; s->members[i]; i++) s->nested_members[i] = s->members[i];
             }
 
-            if (member_count + sub_member_count == MAX_STRUCT_MEMBERS)
+            if (member_count + sub_member_count >= MAX_STRUCT_MEMBERS)
                 panic("Exceeded max struct/union members %d", MAX_STRUCT_MEMBERS);
 
             // Move the trailing members forward
-- 
2.43.0


From 85c28771835702e154c3aa5d0268a9da86bc030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 082/126] fix: structs without members and an include of a lone
 quote crashed

---
 cpp.c       |  2 +-
 functions.c |  2 ++
 types.c     | 11 +++++++----
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/cpp.c b/cpp.c
index ea373f7..9428ec7 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1303,7 +1303,7 @@ static void parse_include() {
         cpp_next();
     }
 
-    if (!include_token || (include_token->str[0] != '"' && include_token->str[0] != '<'))
+    if (!include_token || (include_token->str[0] != '"' && include_token->str[0] != '<') || strlen(include_token->str) < 2)
         error("Invalid #include");
 
     // Remove "" or <> tokens
diff --git a/functions.c b/functions.c
index 29ba106..c73bf9d 100644
--- a/functions.c
+++ b/functions.c
@@ -1690,6 +1690,8 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
         if (type->type == TYPE_ENUM) type = new_type(TYPE_INT);
 
         int size = get_type_size(type);
+        if (!size) error("Passing and returning a struct or union without a size is not implemented");
+
         if (size > 16) {
             // The entire thing is on the stack
             add_single_stack_function_param_location(fpa, type);
diff --git a/types.c b/types.c
index b40d89c..b3496b3 100644
--- a/types.c
+++ b/types.c
@@ -899,9 +899,12 @@ void flatten_anonymous_structs(StructOrUnion *s) {
             if (member_count + sub_member_count >= MAX_STRUCT_MEMBERS)
                 panic("Exceeded max struct/union members %d", MAX_STRUCT_MEMBERS);
 
-            // Move the trailing members forward
-            for (int i = 0; i < member_count - member_index - 1; i++)
-                s->members[member_count - i + sub_member_count - 2] = s->members[member_count - i - 1];
+            // Move the trailing members, including the terminating zero
+            memmove(
+                &s->members[member_index + sub_member_count],
+                &s->members[member_index + 1],
+                (member_count - member_index) * sizeof(StructOrUnionMember *)
+            );
 
             // Copy the sub struct members
             for (int i = 0; i < sub_member_count; i++) {
@@ -909,7 +912,7 @@ void flatten_anonymous_structs(StructOrUnion *s) {
                 s->members[member_index + i]->offset += member->offset;
             }
 
-            member_count += sub_member_count;
+            member_count += sub_member_count - 1;
             continue; // Keep going with current pmember & member_index
         }
 
-- 
2.43.0


From 4af69a7b12c5e4117364b91a715f1ada896cb4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 083/126] fix: operands of sizeof were evaluated, sizeof (a)[0]
 and sizeof of most expressions in constant expressions were rejected;
 declarators in array sizes changed the declared name

---
 constexpr.c |  9 +-----
 parser.c    | 81 +++++++++++++++++++++++++++++++++++++++++------------
 wcc.h       |  2 +-
 3 files changed, 65 insertions(+), 27 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index c9cc6ec..f84efaa 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -17,13 +17,6 @@ static Type *new_int_type(void) {
     return new_type(integers_are_longs ? TYPE_LONG : TYPE_INT);
 }
 
-static Value *parse_unevaluated_expression(int level) {
-    unevaluated++;
-    Value *value = parse_expression_level(level);
-    unevaluated--;
-    return value;
-}
-
 // Constant values are one of
 // - An arithmetic or pointer constant, with is_constant set
 // - The address of an object or string literal + address_of_offset, with is_address_of set
@@ -578,7 +571,7 @@ static Value *parse_expression_level(int level) {
         }
 
         case TOK_SIZEOF: {
-            int size = parse_sizeof(parse_unevaluated_expression);
+            int size = parse_sizeof();
             value = new_integral_constant(TYPE_LONG, size);
             value->type->is_unsigned = 1;
             break;
diff --git a/parser.c b/parser.c
index 3a33871..7063dcc 100644
--- a/parser.c
+++ b/parser.c
@@ -63,6 +63,15 @@ static char *parser_wstrdup(char *str) {
     return result;
 }
 
+static void init_value_stack(void) {
+    vs_bottom = wmalloc(sizeof(struct value *) * VALUE_STACK_SIZE);
+    vs_start = vs_bottom + VALUE_STACK_SIZE; // The stack traditionally grows downwards
+}
+
+static void free_value_stack(void) {
+    wfree(vs_bottom);
+}
+
 static int value_stack_is_empty(void) {
     return vs == vs_start;
 }
@@ -845,8 +854,11 @@ Type *parse_direct_declarator(void) {
 
             int size = 0;
             if (cur_token != TOK_RBRACKET) {
+                // The size may have declarators of its own, e.g. in a sizeof
+                char *old_cur_type_identifier = cur_type_identifier;
                 Value *v = parse_constant_integer_expression(0);
                 size = v->int_value;
+                cur_type_identifier = old_cur_type_identifier;
             }
 
             Type *array_type = new_type(TYPE_ARRAY);
@@ -2340,24 +2352,66 @@ Value *parse_expression_and_pop(int level) {
     return pop();
 }
 
-int parse_sizeof(parse_expression_function_type expr) {
+// Parse an expression that isn't evaluated. The instructions it generates are thrown away.
+static Value *parse_unevaluated_expression(int level) {
+    Symbol symbol;
+    Function function;
+    Symbol *old_cur_function_symbol = cur_function_symbol;
+    Tac *old_ir = ir;
+    Tac *old_ir_start = ir_start;
+    int old_function_call_count = function_call_count;
+
+    if (cur_scope == global_scope) {
+        // There's no function outside of functions
+        memset(&symbol, 0, sizeof(Symbol));
+        memset(&function, 0, sizeof(Function));
+        symbol.function = &function;
+        cur_function_symbol = &symbol;
+    }
+
+    Value **old_vs_bottom = vs_bottom;
+    Value **old_vs_start = vs_start;
+    Value **old_vs = vs;
+    init_value_stack();
+    vs = vs_start;
+
+    ir_start = ir = new_instruction(IR_NOP);
+    Value *value = parse_expression_and_pop(level);
+
+    free_value_stack();
+    vs_bottom = old_vs_bottom;
+    vs_start = old_vs_start;
+    vs = old_vs;
+
+    ir = old_ir;
+    ir_start = old_ir_start;
+    function_call_count = old_function_call_count;
+    cur_function_symbol = old_cur_function_symbol;
+
+    return value;
+}
+
+int parse_sizeof(void) {
     next();
 
     Type *type;
     Value *expression = 0;
     if (cur_token == TOK_LPAREN) {
-        // Sizeof(type) or sizeof(expression)
         next();
 
-        if (cur_token_is_type())
+        if (cur_token_is_type()) {
+            // sizeof(type)
             type = parse_type_name();
-        else
-            expression = expr(TOK_COMMA);
-
-        consume(TOK_RPAREN, ")");
+            consume(TOK_RPAREN, ")");
+        }
+        else {
+            // An expression that starts with parentheses, not necessarily ending with them
+            rewind_lexer();
+            expression = parse_unevaluated_expression(TOK_INC);
+        }
     }
     else
-        expression = expr(TOK_INC);
+        expression = parse_unevaluated_expression(TOK_INC);
 
     if (expression) {
         if (expression->bit_field_size) error("Cannot take sizeof a bit field");
@@ -2733,15 +2787,6 @@ void parse_ternary_expression(void) {
     add_jmp_target_instruction(ldst2); // End
 }
 
-static void init_value_stack(void) {
-    vs_bottom = wmalloc(sizeof(struct value *) * VALUE_STACK_SIZE);
-    vs_start = vs_bottom + VALUE_STACK_SIZE; // The stack traditionally grows downwards
-}
-
-static void free_value_stack(void) {
-    wfree(vs_bottom);
-}
-
 // Parse GNU extension Statements and Declarations in Expressions
 // https://gcc.gnu.org/onlinedocs/gcc/Statement-Exprs.html
 static Value *parse_statement_expression(void) {
@@ -3017,7 +3062,7 @@ static void parse_expression(int level) {
             break;
 
         case TOK_SIZEOF:
-            push_integral_constant(TYPE_LONG, parse_sizeof(parse_expression_and_pop));
+            push_integral_constant(TYPE_LONG, parse_sizeof());
             vtop()->type->is_unsigned = 1;
             break;
 
diff --git a/wcc.h b/wcc.h
index be48df6..78069ce 100644
--- a/wcc.h
+++ b/wcc.h
@@ -980,7 +980,7 @@ void parse_typedef(void);
 Type *find_struct_or_union(char *identifier, int is_union, int recurse);
 StructOrUnionMember *lookup_struct_or_union_member(Type *type, char *identifier);
 Value *make_symbol_value(Symbol *symbol);
-int parse_sizeof(parse_expression_function_type expr);
+int parse_sizeof(void);
 void parse(void);
 void dump_symbols(void);
 void init_parser(void);
-- 
2.43.0


From 4f69bd17cd0b0de7be43868fcbd777759a5a38a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 084/126] fix: character constants above 127 were positive,
 wide escapes were truncated to a byte, empty and unterminated character
 constants were accepted

---
 lexer.c | 149 +++++++++++++++++++++++++++++---------------------------
 1 file changed, 78 insertions(+), 71 deletions(-)

diff --git a/lexer.c b/lexer.c
index af48e87..e515cd5 100644
--- a/lexer.c
+++ b/lexer.c
@@ -200,6 +200,82 @@ static void lex_hex_literal(void) {
     }
 }
 
+// Lex an escape sequence, starting at the backslash. The value isn't truncated: how
+// many bits of it matter depends on what it is an element of.
+static int lex_escape_sequence(char *what) {
+    char *i = input;
+
+    ip++; // Skip the backslash
+    char c = ip < input_size ? i[ip] : 0;
+
+    if ((c >= '0' && c <= '7') || c == 'x') {
+        // cur_long is in use when lexing # <num> "filename"
+        long saved_cur_long = cur_long;
+
+        if (c == 'x') {
+            ip++;
+            lex_hex_literal();
+        }
+        else
+            lex_octal_literal();
+
+        int result = cur_long;
+        cur_long = saved_cur_long;
+        return result;
+    }
+
+    ip++;
+
+    switch (c) {
+        case '\'': return '\'';
+        case '"':  return '"';
+        case '?':  return '?';
+        case '\\': return '\\';
+        case 'a':  return 7;
+        case 'b':  return 8;
+        case 'f':  return 12;
+        case 'n':  return 10;
+        case 'r':  return 13;
+        case 't':  return 9;
+        case 'v':  return 11;
+        case 'e':  return 27;
+        default:   error("Unknown \\ escape in %s literal", what);
+    }
+
+    return 0;
+}
+
+// Lex a character literal, starting at the opening quote.
+static void lex_character_literal(int is_wide_char) {
+    char *i = input;
+    int value = 0;
+    int count = 0;
+
+    ip++; // Skip the opening quote
+
+    while (ip < input_size && i[ip] != '\'' && i[ip] != '\n') {
+        int c = i[ip] == '\\' ? lex_escape_sequence("character") : i[ip++];
+
+        if (is_wide_char)
+            value = c;
+        else
+            value = ((unsigned int) value << 8) | (c & 0xff);
+
+        count++;
+    }
+
+    if (ip >= input_size || i[ip] != '\'') error("Expecting terminating \' in character literal");
+    if (!count) error("Empty character literal");
+    ip++;
+
+    // A single character has the value of a char converted to an int
+    if (!is_wide_char && count == 1) value = (char) value;
+
+    cur_token = TOK_INTEGER;
+    cur_lexer_type = new_type(TYPE_INT);
+    cur_long = value;
+}
+
 void finish_string_literal(int size, int is_wide_char) {
     int *data = (int *) cur_string_literal.data;
     cur_token = TOK_STRING_LITERAL;
@@ -219,31 +295,7 @@ void lex_single_string_literal(int *size) {
         if (*size >= MAX_STRING_LITERAL_SIZE - 1) panic_with_line_number("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
 
         if (i[ip] != '\\') data[(*size)++] = i[ip++];
-        else if (input_size - ip >= 2 && i[ip] == '\\') {
-                 if (i[ip + 1] == '\'') { ip += 2; data[(*size)++] = '\''; }
-            else if (i[ip + 1] == '"' ) { ip += 2; data[(*size)++] = '\"'; }
-            else if (i[ip + 1] == '?' ) { ip += 2; data[(*size)++] = '?'; }
-            else if (i[ip + 1] == '\\') { ip += 2; data[(*size)++] = '\\'; }
-            else if (i[ip + 1] == 'a' ) { ip += 2; data[(*size)++] = 7; }
-            else if (i[ip + 1] == 'b' ) { ip += 2; data[(*size)++] = 8; }
-            else if (i[ip + 1] == 'f' ) { ip += 2; data[(*size)++] = 12; }
-            else if (i[ip + 1] == 'n' ) { ip += 2; data[(*size)++] = 10; }
-            else if (i[ip + 1] == 'r' ) { ip += 2; data[(*size)++] = 13; }
-            else if (i[ip + 1] == 't' ) { ip += 2; data[(*size)++] = 9; }
-            else if (i[ip + 1] == 'v' ) { ip += 2; data[(*size)++] = 11; }
-            else if (i[ip + 1] == 'e' ) { ip += 2; data[(*size)++] = 27; }
-            else if (i[ip + 1] >= '0' && i[ip + 1] <= '7' ) {
-                ip++;
-                lex_octal_literal();
-                data[(*size)++] = cur_long & 0xff;
-            }
-            else if (i[ip + 1] == 'x' ) {
-                ip += 2;
-                lex_hex_literal();
-                data[(*size)++] = cur_long & 0xff;
-            }
-            else error("Unknown \\ escape in string literal");
-        }
+        else data[(*size)++] = lex_escape_sequence("string");
 
         data[*size] = 0;
     }
@@ -396,52 +448,7 @@ void next(void) {
                 ip++;
             }
 
-            cur_token = TOK_INTEGER;
-            cur_lexer_type = new_type(TYPE_INT);
-            cur_long = 0;
-            ip += 1;
-
-            int byte_count = 0;
-            while (input_size - ip >= 1 && i[ip] != '\'') {
-                if (i[ip] != '\\') { cur_long = (cur_long  << 8) + i[ip++]; }
-                else if (i[ip] == '\\') {
-                    ip++;
-                         if (i[ip] == '\'') { ip++; cur_long = (cur_long << 8) +  '\''; }
-                    else if (i[ip] == '"' ) { ip++; cur_long = (cur_long << 8) +  '\"'; }
-                    else if (i[ip] == '?' ) { ip++; cur_long = (cur_long << 8) +  '?'; }
-                    else if (i[ip] == '\\') { ip++; cur_long = (cur_long << 8) +  '\\'; }
-                    else if (i[ip] == 'a' ) { ip++; cur_long = (cur_long << 8) +  7; }
-                    else if (i[ip] == 'b' ) { ip++; cur_long = (cur_long << 8) +  8; }
-                    else if (i[ip] == 'f' ) { ip++; cur_long = (cur_long << 8) +  12; }
-                    else if (i[ip] == 'n' ) { ip++; cur_long = (cur_long << 8) +  10; }
-                    else if (i[ip] == 'r' ) { ip++; cur_long = (cur_long << 8) +  13; }
-                    else if (i[ip] == 't' ) { ip++; cur_long = (cur_long << 8) +  9; }
-                    else if (i[ip] == 'v' ) { ip++; cur_long = (cur_long << 8) +  11; }
-                    else if (i[ip] == 'e' ) { ip++; cur_long = (cur_long << 8) +  27; }
-                    else if (i[ip] >= '0' && i[ip] <= '7' ) {
-                        int old_cur_long = cur_long;
-                        lex_octal_literal();
-                        cur_long &= 0xff;
-                        cur_long = (old_cur_long << 8) + cur_long;
-                    }
-                    else if (i[ip] == 'x' ) {
-                        ip++;
-                        unsigned int old_cur_long = cur_long;
-                        lex_hex_literal();
-                        int mask = (1 << (byte_count << 3)) - 1;
-
-                        if (!is_wide_char) {
-                            cur_long = ((old_cur_long & mask) << 8) + (cur_long & 0xff);
-
-                            // Sign extend the first byte
-                            if (byte_count == 0) cur_long = (int) ((char) cur_long);
-                        }
-                    }
-                    else error("Unknown \\ escape in character literal");
-                }
-                byte_count++;
-            }
-            ip++;
+            lex_character_literal(is_wide_char);
         }
 
         // String literal
-- 
2.43.0


From 9749676b37aa0c9d1a6c8f2f3b1f7424ae141da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 085/126] fix: constant floating point arithmetic didn't
 convert its operands to their common type and rounded doubles twice

---
 constexpr.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index f84efaa..86b7d93 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -229,13 +229,22 @@ Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src
     int is_int;
     unsigned int i;
     long double ld;
-    long double ld1 = constant_as_long_double(src1);
-    long double ld2 = constant_as_long_double(src2);
 
-         if (operation == IR_ADD) { is_int = 0; ld = ld1 +  ld2; }
-    else if (operation == IR_SUB) { is_int = 0; ld = ld1 -  ld2; }
-    else if (operation == IR_MUL) { is_int = 0; ld = ld1 *  ld2; }
-    else if (operation == IR_DIV) { is_int = 0; ld = ld1 /  ld2; }
+    // The usual arithmetic conversions also determine the precision of the operands
+    Type *operands_type = operation_type(src1, src2, 0);
+    long double ld1 = round_to_floating_point_type(operands_type, constant_as_long_double(src1));
+    long double ld2 = round_to_floating_point_type(operands_type, constant_as_long_double(src2));
+
+    // Do arithmetic on doubles as doubles, since rounding a result from long double to
+    // double would round it twice. That is harmless for floats.
+    int is_long_double = operands_type->type == TYPE_LONG_DOUBLE;
+    double d1 = ld1;
+    double d2 = ld2;
+
+         if (operation == IR_ADD) { is_int = 0; ld = is_long_double ? ld1 + ld2 : d1 + d2; }
+    else if (operation == IR_SUB) { is_int = 0; ld = is_long_double ? ld1 - ld2 : d1 - d2; }
+    else if (operation == IR_MUL) { is_int = 0; ld = is_long_double ? ld1 * ld2 : d1 * d2; }
+    else if (operation == IR_DIV) { is_int = 0; ld = is_long_double ? ld1 / ld2 : d1 / d2; }
     else if (operation == IR_EQ ) { is_int = 1; i =  ld1 == ld2; }
     else if (operation == IR_NE ) { is_int = 1; i =  ld1 != ld2; }
     else if (operation == IR_LT ) { is_int = 1; i =  ld1 <  ld2; }
-- 
2.43.0


From e24e1d5bd5de70e575ba86f071a0a5b87866d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 086/126] fix: -E ignored files that don't end in .c, the
 extension was replaced in the name of a directory

---
 main.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/main.c b/main.c
index 59a1dfa..092aeba 100644
--- a/main.c
+++ b/main.c
@@ -38,12 +38,6 @@ static char *append_argument(char *s, char *argument) {
     return s;
 }
 
-// Check if the filename ends in .c
-static int is_c_source_file(const char *const filename) {
-    int filename_len = strlen(filename);
-    return filename_len > 2 && filename[filename_len - 2] == '.' && filename[filename_len - 1] == 'c';
-}
-
 // Check if the filename ends in .s
 static int is_assembly_file(const char *const filename) {
     int filename_len = strlen(filename);
@@ -60,6 +54,7 @@ static int is_object_file(const char *const filename) {
 
 char *replace_extension(char *input, char *ext) {
     char *p  = strrchr(input,'.');
+    if (p && strchr(p, '/')) p = 0; // The dot is in the name of a directory
     if (!p) {
         char *result = wmalloc(strlen(input) + strlen(ext) + 2);
         sprintf(result, "%s.%s", input, ext);
@@ -500,7 +495,7 @@ int main(int argc, char **argv) {
     if (!run_compiler) {
         compile_phase = CP_PREPROCESSING;
         for (int i = 0; i < input_filenames->length; i++) {
-            if (is_c_source_file(input_filenames->elements[i])) {
+            if (!is_assembly_file(input_filenames->elements[i]) && !is_object_file(input_filenames->elements[i])) {
                 init_memory_management_for_translation_unit();
                 preprocess_to_file(input_filenames->elements[i], output_filename, directive_cli_strings);
                 free_memory_for_translation_unit();
-- 
2.43.0


From 516a37a3a8d23a0bbe58ff72e4670a4e33e63e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 087/126] fix: names of source files with quotes or backslashes
 broke the assembly

---
 codegen.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index 5faed12..c021366 100644
--- a/codegen.c
+++ b/codegen.c
@@ -736,6 +736,13 @@ int fprintf_escaped_string_literal(void *f, StringLiteral* sl, int for_assembly)
     return c;
 }
 
+// Output a filename as a string for the assembler
+static void fprintf_quoted_filename(void *f, char *filename) {
+    fprintf(f, "\"");
+    for (char *p = filename; *p; p++) fprintf_escaped_char(f, *p);
+    fprintf(f, "\"\n");
+}
+
 // Add a ".loc" line with an integer identifying the filename and the line number.
 // The debug_strings map has the mapping from filename to id.
 static void output_debug_loc(Tac *tac) {
@@ -744,7 +751,8 @@ static void output_debug_loc(Tac *tac) {
         if (!id) {
             id = ++debug_string_counter;
             strmap_put(debug_strings, wstrdup(tac->origin->filename), (void *) (long) id);
-            fprintf(f, "    .file       %d \"%s\"\n", id, tac->origin->filename);
+            fprintf(f, "    .file       %d ", id);
+            fprintf_quoted_filename(f, tac->origin->filename);
         }
 
         if (id != last_outputted_filename_id || tac->origin->line_number != last_outputted_filename_line_number) {
@@ -890,7 +898,8 @@ void output_debug_sections(char *input_filename) {
     fprintf(f, ".Ldebug_info.producer:\n");
     fprintf(f, "    .string  \"wcc\"\n");
     fprintf(f, ".Ldebug_info.filename:\n");
-    fprintf(f, "    .string  \"%s\"\n", input_filename);
+    fprintf(f, "    .string  ");
+    fprintf_quoted_filename(f, input_filename);
     fprintf(f, ".debug_info.cwd:\n");
     fprintf(f, "    .string  \"%s\"\n", cwd);
 
@@ -915,7 +924,8 @@ void output_code(char *input_filename, char *output_filename) {
         }
     }
 
-    fprintf(f, "    .file   \"%s\"\n", input_filename);
+    fprintf(f, "    .file   ");
+    fprintf_quoted_filename(f, input_filename);
 
     // Output symbols
     elf_section = SEC_NONE;
-- 
2.43.0


From f3ee6edfc8343f747344ce593563ad470b02a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 088/126] fix: members and elements of objects at constant
 addresses crashed, the address of one had type long

---
 parser.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/parser.c b/parser.c
index 7063dcc..6575ad3 100644
--- a/parser.c
+++ b/parser.c
@@ -1177,6 +1177,16 @@ static void indirect(void) {
     if (is_incomplete_type(target))
         error("Attempt to use an incomplete type");
 
+    if (src1->is_constant) {
+        // Load a constant address into a register, so that it can be dealt with like any other pointer
+        Value *dst = dup_value(src1);
+        dst->is_constant = 0;
+        dst->int_value = 0;
+        dst->vreg = new_vreg();
+        add_parser_instruction(IR_MOVE, dst, src1, 0);
+        src1 = dst;
+    }
+
     if (src1->is_lvalue) panic_with_line_number("Expected rvalue");
 
     Value *dst = dup_value(src1);
@@ -2863,14 +2873,7 @@ static void parse_expression(int level) {
 
             Value *src1 = pop();
 
-            if (src1->is_constant)
-                // Special case of taking an address of a constant. This happens with
-                // the offsetof macro which does something like:
-                // define offsetof(STRUCTURE,FIELD) ((int) ((size_t)&((STRUCTURE*)0)->FIELD))
-                // e.g. (int) ((size_t) &((struct s *) 0)->m);
-                push_integral_constant(TYPE_LONG, src1->int_value + src1->offset);
-
-            else if (src1->is_string_literal) {
+            if (src1->is_string_literal) {
                 // The address of a string literal is already what it is loaded as
                 Value *dst = dup_value(load(src1));
                 dst->type = make_pointer(src1->type);
-- 
2.43.0


From 6d83c40da7fa59c9c147d1d8f9958cf8df6800a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 089/126] fix: fix: type specifiers were only accepted in some
 orders, e.g. not int short or double long

---
 parser.c | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/parser.c b/parser.c
index 6575ad3..d2b8959 100644
--- a/parser.c
+++ b/parser.c
@@ -488,24 +488,8 @@ static BaseType *parse_declaration_specifiers() {
             case TOK_INT:      next(); seen_int++;      type = new_type(TYPE_INT); break;
             case TOK_FLOAT:    next(); seen_float++;    type = new_type(TYPE_FLOAT); break;
             case TOK_DOUBLE:   next(); seen_double++;   type = new_type(TYPE_DOUBLE); break;
-            case TOK_SHORT:
-                next();
-                if (cur_token == TOK_INT) next();
-                seen_short++;
-                type = new_type(TYPE_SHORT);
-                break;
-            case TOK_LONG:
-                next();
-                if (cur_token == TOK_DOUBLE)   {
-                    next();
-                    seen_long_double++;
-                    type = new_type(TYPE_LONG_DOUBLE);
-                }
-                else {
-                    type = new_type(TYPE_LONG);
-                    seen_long++;
-                }
-                break;
+            case TOK_SHORT:    next(); seen_short++;    type = new_type(TYPE_SHORT); break;
+            case TOK_LONG:     next(); seen_long++;     type = new_type(TYPE_LONG); break;
             case TOK_STRUCT:
                 seen_struct++;
                 type = dup_type(parse_struct_or_union_type_specifier());
@@ -549,12 +533,24 @@ static BaseType *parse_declaration_specifiers() {
         }
     }
 
+    // The specifiers can be in any order, e.g. short int and int short
+    if (seen_long == 1 && seen_double) {
+        seen_long = 0;
+        seen_double--;
+        seen_long_double = 1;
+        type = new_type(TYPE_LONG_DOUBLE);
+    }
+
     if (seen_long == 2) seen_long = 1;
     else if (seen_long > 2) error("Too many longs in type specifier");
     if (seen_int && seen_long) {
         seen_int = 0;
         type = new_type(TYPE_LONG);
     }
+    if (seen_int && seen_short) {
+        seen_int--;
+        type = new_type(TYPE_SHORT);
+    }
 
     int data_type_sum =
         seen_void + seen_char + seen_short + seen_int + seen_long +
-- 
2.43.0


From 0cc12f568fe3afad9d325fa54b39bd98c67e01ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:44 +0000
Subject: [PATCH 090/126] fix: an enum or struct tag in an inner scope, and
 enumerators named like an outer typedef

---
 parser.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/parser.c b/parser.c
index d2b8959..22e3a58 100644
--- a/parser.c
+++ b/parser.c
@@ -1049,7 +1049,9 @@ static Type *parse_struct_or_union_type_specifier(void) {
 
         if (!identifier) error("Expected an identifier or { after %s", is_union ? "union" : "struct");
 
-        Type *type = find_struct_or_union(identifier, is_union, 1);
+        // A declaration with only a tag, e.g. struct s; declares it in the current scope
+        int recurse = cur_token != TOK_SEMI;
+        Type *type = find_struct_or_union(identifier, is_union, recurse);
         if (type) return type; // Found a complete or incomplete struct
 
         // Didn't find a struct, but that's ok, create a incomplete one
@@ -1076,26 +1078,28 @@ static Type *parse_enum_type_specifier(void) {
     // sees a typedef tag, but really it's a struct tag.
     if (cur_token == TOK_IDENTIFIER || cur_token == TOK_TYPEDEF_TYPE) {
         identifier = parser_wstrdup(cur_identifier);
-
-        Tag *tag = new_tag(parser_wstrdup(cur_identifier));
-        tag->type = type;
-        type->tag = tag;
-
         next();
     }
-    else
-        type->tag = 0;
+
+    type->tag = 0;
 
     if (cur_token == TOK_LCURLY) {
         // Enum definition
 
+        if (identifier) {
+            Tag *tag = new_tag(identifier);
+            tag->type = type;
+            type->tag = tag;
+        }
+
         consume(TOK_LCURLY, "{");
 
         int member_count = 0;
         int value = 0;
 
         while (cur_token != TOK_RCURLY) {
-            expect(TOK_IDENTIFIER, "identifier");
+            // The enumerator can have the name of a typedef in an outer scope
+            if (cur_token != TOK_TYPEDEF_TYPE) expect(TOK_IDENTIFIER, "identifier");
             char *enum_value_identifier = parser_wstrdup(cur_identifier);
             if (lookup_symbol(cur_identifier, cur_scope, 0)) error("Identifier redeclared: %s", cur_identifier);
             next();
@@ -1124,9 +1128,13 @@ static Type *parse_enum_type_specifier(void) {
 
         if (!identifier) error("Expected an identifier or { after enum");
 
-        Type *type = find_enum(identifier);
-        if (!type) error("Unknown enum %s", identifier);
-        return type;
+        Type *enum_type = find_enum(identifier);
+        if (enum_type) return enum_type;
+
+        // Declare the tag, it can be defined later on
+        Tag *tag = new_tag(identifier);
+        tag->type = type;
+        type->tag = tag;
     }
 
     return type;
-- 
2.43.0


From 7658214b885fce2a2d36be28691c40df283e8f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 091/126] fix: the token after a for statement was looked up in
 the scope of the loop

---
 lexer.c  | 40 ++++++++++++++++++++++++++--------------
 parser.c |  3 +++
 wcc.h    |  1 +
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/lexer.c b/lexer.c
index e515cd5..9845add 100644
--- a/lexer.c
+++ b/lexer.c
@@ -328,6 +328,30 @@ void lex_string_literal(void) {
     finish_string_literal(size, is_wide_char);
 }
 
+// If the identifier in cur_identifier is a typedef in the current scope, set the token and the type
+static void lookup_typedef(void) {
+    // Lookup typedef by first going through the short list of known typedefs
+    // and if found, searching through the symbol table for it
+    for (int j = 0; j < all_typedefs_count; j++) {
+        if (!strcmp(all_typedefs[j]->identifier, cur_identifier)) {
+            Symbol *symbol = lookup_symbol(cur_identifier, cur_scope, 1);
+            if (symbol && symbol->type->type == TYPE_TYPEDEF) {
+                cur_token = TOK_TYPEDEF_TYPE;
+                cur_lexer_type = dup_type(symbol->type->target);
+                break;
+            }
+        }
+    }
+}
+
+// Lookup the identifier in the current token again, for use when the scope has changed after it was lexed
+void relex_identifier(void) {
+    if (cur_token != TOK_IDENTIFIER && cur_token != TOK_TYPEDEF_TYPE) return;
+
+    cur_token = TOK_IDENTIFIER;
+    lookup_typedef();
+}
+
 // Lexer. Lex a next token or TOK_EOF if the file is ended
 void next(void) {
     char *i = input;
@@ -511,20 +535,8 @@ void next(void) {
             else if (!strcmp(cur_identifier, "volatile"     )) { cur_token = TOK_VOLATILE;  }
             else if (!strcmp(cur_identifier, "goto"         )) { cur_token = TOK_GOTO;      }
 
-            else {
-                // Lookup typedef by first going through the short list of known typedefs
-                // and if found, searching through the symbol table for it
-                for (j = 0; j < all_typedefs_count; j++) {
-                    if (!strcmp(all_typedefs[j]->identifier, cur_identifier)) {
-                        Symbol *symbol = lookup_symbol(cur_identifier, cur_scope, 1);
-                        if (symbol && symbol->type->type == TYPE_TYPEDEF) {
-                            cur_token = TOK_TYPEDEF_TYPE;
-                            cur_lexer_type = dup_type(symbol->type->target);
-                            break;
-                        }
-                    }
-                }
-            }
+            else
+                lookup_typedef();
         }
 
         else
diff --git a/parser.c b/parser.c
index 22e3a58..966cc94 100644
--- a/parser.c
+++ b/parser.c
@@ -3296,6 +3296,9 @@ static void parse_iteration_statement(void) {
     add_parser_instruction(IR_END_LOOP, 0, src1, src2);
 
     exit_scope();
+
+    // The token after the statement has already been lexed in the scope of the statement
+    relex_identifier();
 }
 
 static void parse_compound_statement(void) {
diff --git a/wcc.h b/wcc.h
index 78069ce..341c374 100644
--- a/wcc.h
+++ b/wcc.h
@@ -936,6 +936,7 @@ void init_lexer_from_string(char *string);
 void free_lexer(void);
 void next(void);
 void rewind_lexer(void);
+void relex_identifier(void);
 void expect(int token, char *what);
 void consume(int token, char *what);
 
-- 
2.43.0


From 3b5e06a9a218a64fb909366cbe4419e7c04183ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 092/126] fix: repeated extern declarations in a block were
 rejected

---
 parser.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 966cc94..794f0a2 100644
--- a/parser.c
+++ b/parser.c
@@ -2280,7 +2280,17 @@ static void parse_declaration(void) {
 
     if (!cur_type_identifier) error("Expected an identifier");
 
-    if (lookup_symbol(cur_type_identifier, cur_scope, 0)) error("Identifier redeclared: %s", cur_type_identifier);
+    int is_extern = base_type->storage_class != SC_STATIC && (base_type->storage_class == SC_EXTERN || type->type == TYPE_FUNCTION);
+
+    Symbol *original_symbol = lookup_symbol(cur_type_identifier, cur_scope, 0);
+    if (original_symbol && is_extern && original_symbol->linkage == LINKAGE_EXPLICIT_EXTERNAL) {
+        // Something that has linkage can be declared any amount of times
+        if (!types_are_compatible(type, original_symbol->type)) error("Incompatible types");
+        original_symbol->type = composite_type(type, original_symbol->type);
+        return;
+    }
+
+    if (original_symbol) error("Identifier redeclared: %s", cur_type_identifier);
     if (type->type == TYPE_VOID) error("Variable declared void: %s", cur_type_identifier);
 
     if (base_type->storage_class == SC_STATIC) {
@@ -2296,7 +2306,7 @@ static void parse_declaration(void) {
 
         append_to_list(function->static_symbols, symbol);
     }
-    else if (base_type->storage_class == SC_EXTERN || type->type == TYPE_FUNCTION) {
+    else if (is_extern) {
         // Add the identifier to the local scope, but give it a global identifier
         // without adding any linkage
         symbol = new_symbol(cur_type_identifier);
-- 
2.43.0


From 494b081dde640952f15c307343b414af5f3fa38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:23 +0000
Subject: [PATCH 093/126] fix: arithmetic of a long and an enum crashed the
 compiler

---
 parser.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 794f0a2..09f7841 100644
--- a/parser.c
+++ b/parser.c
@@ -1459,9 +1459,13 @@ static void arithmetic_operation(int operation, Type *dst_type) {
     }
 
     if (is_integer_type(common_type) && is_integer_type(src1->type) && is_integer_type(src2->type)) {
-        if (!type_eq(common_type, src1->type) && (src1->type->type <= common_type->type || src1->type->is_unsigned != common_type->is_unsigned))
+        // Enums have the size of an int
+        int src1_is_smaller = src1->type->type <= common_type->type || (src1->type->type == TYPE_ENUM && common_type->type == TYPE_LONG);
+        int src2_is_smaller = src2->type->type <= common_type->type || (src2->type->type == TYPE_ENUM && common_type->type == TYPE_LONG);
+
+        if (!type_eq(common_type, src1->type) && (src1_is_smaller || src1->type->is_unsigned != common_type->is_unsigned))
             src1 = integer_type_change(src1, common_type);
-        if (!type_eq(common_type, src2->type) && (src2->type->type <= common_type->type || src2->type->is_unsigned != common_type->is_unsigned))
+        if (!type_eq(common_type, src2->type) && (src2_is_smaller || src2->type->is_unsigned != common_type->is_unsigned))
             src2 = integer_type_change(src2, common_type);
     }
 
-- 
2.43.0


From 5d268673514e4f2531c7faaedea02ac465d7db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 094/126] fix: casts of void to void and of integers to
 pointers to functions were rejected

---
 parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser.c b/parser.c
index 09f7841..209f686 100644
--- a/parser.c
+++ b/parser.c
@@ -2997,6 +2997,10 @@ static void parse_expression(int level) {
                     consume(TOK_RPAREN, ")");
 
                     parse_expression(TOK_INC);
+
+                    // The value of a void expression can be discarded again
+                    if (dst_type->type == TYPE_VOID && vtop()->type->type == TYPE_VOID) break;
+
                     Value *v1 = pl();
 
                     if (dst_type->type != TYPE_VOID) check_type_conversion(dst_type, v1->type);
@@ -3020,6 +3024,10 @@ static void parse_expression(int level) {
                     else if (dst_type->type != TYPE_VOID && v1->type != dst_type) {
                         if (v1->type->type == TYPE_FUNCTION) v1 = load_function(v1, v1->type);
 
+                        // There is no move of smaller integers to pointers to functions
+                        if (is_pointer_to_function_type(dst_type) && is_integer_type(v1->type) && get_type_size(v1->type) < 8)
+                            v1 = integer_type_change(v1, new_type(TYPE_LONG));
+
                         // Add move instruction
                         Value *dst = new_value();
                         dst->vreg = new_vreg();
-- 
2.43.0


From 1812b7bcbf49472d2dc340f95ffd899962693a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 095/126] fix: a constant division by zero is not an error

---
 instrsel.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/instrsel.c b/instrsel.c
index cbf33fc..629a998 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -628,6 +628,10 @@ static Value *merge_cst_fp_node(IGraph *igraph, int node_id, Type *type, long do
 }
 
 static Value* merge_integer_constants(IGraph *igraph, int node_id, int operation, Value *src1, Value *src2) {
+    // The parser has warned about a division by zero. It isn't an error, since it might never be executed. Any result will do.
+    if ((operation == IR_DIV || operation == IR_MOD) && !src2->int_value)
+        return merge_cst_int_node(igraph, node_id, 0, operation_type(src1, src2, 0));
+
     Value *value = evaluate_const_binary_int_operation(operation, src1, src2);
 
     if (!value)
-- 
2.43.0


From 44061b676790c4d9b033a2335254cc1992aa878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 096/126] fix: an unknown label was reported at the end of the
 function

---
 parser.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 209f686..e001918 100644
--- a/parser.c
+++ b/parser.c
@@ -15,6 +15,8 @@ typedef struct base_type {
 typedef struct goto_backpatch {
     char *identifier;
     Tac *ir;
+    char *filename;
+    int line_number;
 } GotoBackPatch;
 
 int function_call_count; // Uniquely identify a function call within a function
@@ -3544,6 +3546,8 @@ static void parse_goto_statement(void) {
         GotoBackPatch *gbp = wmalloc(sizeof(GotoBackPatch));
         gbp->identifier = parser_wstrdup(cur_identifier);
         gbp->ir = ir;
+        gbp->filename = cur_filename;
+        gbp->line_number = cur_line;
         append_to_cll(cur_function_symbol->function->goto_backpatches, gbp);
     }
     next();
@@ -3560,7 +3564,12 @@ static void backpatch_gotos(void) {
         GotoBackPatch *gbp = gbp_cll->target;
 
         Value *ldst = strmap_get(cur_function_symbol->function->labels, gbp->identifier);
-        if (!ldst) error("Unknown label %s", gbp->identifier);
+        if (!ldst) {
+            // Report the error where the goto is
+            cur_filename = gbp->filename;
+            cur_line = gbp->line_number;
+            error("Unknown label %s", gbp->identifier);
+        }
         gbp->ir->src1 = ldst;
         wfree(gbp);
 
-- 
2.43.0


From 67ad7ff0af720017cdbcbd0d3ed18d216f584cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 097/126] fix: a wrong number of macro parameters was reported
 on the line after the call

---
 cpp.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cpp.c b/cpp.c
index 9428ec7..0676034 100644
--- a/cpp.c
+++ b/cpp.c
@@ -889,6 +889,12 @@ static CppToken *dup_cll_without_eols(CppToken *src) {
     return dst;
 }
 
+// The lexer is already past the macro call. Report the error on the line the token is on.
+static void macro_parameters_error(CppToken *token) {
+    if (token->line_number) state.line_number = token->line_number;
+    error("Mismatch in number of macro parameters");
+}
+
 // Parse function-like macro call, starting with the token after the '('
 // Loop over ts until the end of the is token sequence; ts is advanced up to the enclosing ')'
 // Returns a ptr to the token sequences for each actual parameter.
@@ -911,14 +917,14 @@ static CppToken **make_function_actual_parameters(CppToken *is, CppToken **ts, D
             result[index++] = current_actual;
 
             if (directive->param_count ? index != directive->param_count : dup_cll_without_eols(current_actual) != 0)
-                error("Mismatch in number of macro parameters");
+                macro_parameters_error(token);
 
             return result;
         }
         else if (token->kind == CPP_TOK_COMMA && !parenthesis_nesting_level) {
             // Finish current ap and start next ap
             result[index++] = current_actual;
-            if (index == max_count) error("Mismatch in number of macro parameters");
+            if (index == max_count) macro_parameters_error(token);
             current_actual = 0;
         }
         else {
-- 
2.43.0


From feac510500bd75d9277381fe533b7fdf33723de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 098/126] fix: an invalid #line directive was reported with the
 line number of the directive

---
 cpp.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp.c b/cpp.c
index 0676034..1a8be44 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1529,14 +1529,17 @@ static void parse_if_defined(int negate) {
 static void set_presumed_line_number_and_filename(CppToken *tokens) {
     CppToken *token = tokens->next;
 
+    // Check it before changing the line number, so that the error is on the line of the directive
+    CppToken *filename_token = cll_next(tokens, token);
+    if (filename_token && (filename_token->kind != CPP_TOK_STRING_LITERAL || filename_token->str[0] != '"')) error("Invalid #line directive");
+
     state.line_number_offset = atoi(token->str) - state.token->line_number - 1;
 
     // Amend the next token's line number offset too
     state.token->line_number_offset = state.line_number_offset;
 
-    token = cll_next(tokens, token);
+    token = filename_token;
     if (!token) return;
-    if (token->kind != CPP_TOK_STRING_LITERAL || token->str[0] != '"') error("Invalid #line directive");
 
     // Remove the quotes and unescape
     char *filename = wmalloc(strlen(token->str) + 1);
-- 
2.43.0


From 1494a4d0e1aa1b2156e75cc1e4295f9ec6ce6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 099/126] fix: packed and aligned were reserved words

---
 lexer.c  |  4 ----
 parser.c | 16 +++++++++-------
 wcc.h    |  2 --
 3 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/lexer.c b/lexer.c
index 9845add..ab9429a 100644
--- a/lexer.c
+++ b/lexer.c
@@ -518,10 +518,6 @@ void next(void) {
             else if (!strcmp(cur_identifier, "enum"         )) { cur_token = TOK_ENUM;      }
             else if (!strcmp(cur_identifier, "sizeof"       )) { cur_token = TOK_SIZEOF;    }
             else if (!strcmp(cur_identifier, "__attribute__")) { cur_token = TOK_ATTRIBUTE; }
-            else if (!strcmp(cur_identifier, "packed"       )) { cur_token = TOK_PACKED;    }
-            else if (!strcmp(cur_identifier, "__packed__"   )) { cur_token = TOK_PACKED;    }
-            else if (!strcmp(cur_identifier, "aligned"      )) { cur_token = TOK_ALIGNED;   }
-            else if (!strcmp(cur_identifier, "__aligned__"  )) { cur_token = TOK_ALIGNED;   }
             else if (!strcmp(cur_identifier, "__restrict"   )) { cur_token = TOK_RESTRICT;  }
             else if (!strcmp(cur_identifier, "restrict"     )) { cur_token = TOK_RESTRICT;  }
             else if (!strcmp(cur_identifier, "__asm__"      )) { cur_token = TOK_ASM;       }
diff --git a/parser.c b/parser.c
index e001918..14f67f7 100644
--- a/parser.c
+++ b/parser.c
@@ -927,13 +927,15 @@ static int parse_struct_or_union_attribute(void) {
         consume(TOK_LPAREN, "(");
         consume(TOK_LPAREN, "(");
 
-        if (cur_token == TOK_PACKED) {
-            is_packed = 1;
-            next();
-        }
-        else if (cur_token == TOK_ALIGNED) {
-            // Ignore aligned and __aligned__
-            next();
+        // The names of attributes aren't reserved and may also be the name of a typedef
+        if (cur_token == TOK_IDENTIFIER || cur_token == TOK_TYPEDEF_TYPE) {
+            if (!strcmp(cur_identifier, "packed") || !strcmp(cur_identifier, "__packed__")) {
+                is_packed = 1;
+                next();
+            }
+            else if (!strcmp(cur_identifier, "aligned") || !strcmp(cur_identifier, "__aligned__"))
+                // Ignore aligned and __aligned__
+                next();
         }
 
         consume(TOK_RPAREN, ")");
diff --git a/wcc.h b/wcc.h
index 341c374..ffcccd1 100644
--- a/wcc.h
+++ b/wcc.h
@@ -469,8 +469,6 @@ enum {
     TOK_RPAREN,
     TOK_LPAREN,
     TOK_ATTRIBUTE,
-    TOK_PACKED,
-    TOK_ALIGNED,            // 80
     TOK_HASH,
     TOK_AUTO,
     TOK_REGISTER,
-- 
2.43.0


From cc7057cfbc0362c6602df2fa694cdd02b410300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:09 +0000
Subject: [PATCH 100/126] fix: assignments to arrays crashed in instruction
 selection instead of giving an error

---
 parser.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser.c b/parser.c
index 14f67f7..2f642e5 100644
--- a/parser.c
+++ b/parser.c
@@ -1868,9 +1868,16 @@ static void check_simple_assignment_types(Value *dst, Value *src) {
     warn_of_incompatible_types_in_assignment(dst->type, src->type);
 }
 
+// Arrays and functions are lvalues that cannot be modified
+static void check_assignment_to_array_or_function(Type *type) {
+    if (type->type == TYPE_ARRAY) error("Cannot assign to an array");
+    if (type->type == TYPE_FUNCTION) error("Cannot assign to a function");
+}
+
 // Add instruction to assign a scalar value in src1 to dst
 static void add_simple_assignment_instruction(Value *dst, Value *src1, int enforce_const) {
     if (!dst->is_lvalue) error("Cannot assign to an rvalue");
+    check_assignment_to_array_or_function(dst->type);
     if (enforce_const && !type_is_modifiable(dst->type)) error("Cannot assign to read-only variable");
 
     dst->is_lvalue = 1;
@@ -1890,6 +1897,7 @@ static void add_simple_assignment_instruction(Value *dst, Value *src1, int enfor
 // Parse a simple assignment expression. The stack is the dst.
 static void parse_simple_assignment(int enforce_const) {
     if (!vtop()->is_lvalue) error("Cannot assign to an rvalue");
+    check_assignment_to_array_or_function(vtop()->type);
     if (enforce_const && !type_is_modifiable(vtop()->type)) error("Cannot assign to read-only variable");
 
     Value *dst = pop();
@@ -2183,6 +2191,7 @@ Value *prep_comp_assign(void) {
     next();
 
     if (!vtop()->is_lvalue) error("Cannot assign to an rvalue");
+    check_assignment_to_array_or_function(vtop()->type);
     if (!type_is_modifiable(vtop()->type)) error("Cannot assign to read-only variable");
 
     Value *v1 = pop();          // lvalue
@@ -2924,6 +2933,7 @@ static void parse_expression(int level) {
             parse_expression(TOK_DOT);
 
             if (!vtop()->is_lvalue) error("Cannot ++ or -- an rvalue");
+            check_assignment_to_array_or_function(vtop()->type);
             if (!type_is_modifiable(vtop()->type)) error("Cannot assign to read-only variable");
 
             Value *v1 = pop();                 // lvalue
-- 
2.43.0


From 51eb48f7e98ceb42168bfb8d1b9572d76d340b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 101/126] fix: function types that only differ in qualifiers of
 their parameters are compatible

---
 types.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types.c b/types.c
index b3496b3..7bf1126 100644
--- a/types.c
+++ b/types.c
@@ -637,7 +637,8 @@ static int functions_are_compatible(Type *type1, Type *type2, StrMap *seen_tags)
 
     // Check params match
     for (int i = 0; i < type1->function->param_count; i++) {
-        if (!types_are_compatible(type1->function->param_types->elements[i], type2->function->param_types->elements[i]))
+        // The qualifiers of the parameters themselves aren't taken into account
+        if (!types_are_compatible_ignore_qualifiers(type1->function->param_types->elements[i], type2->function->param_types->elements[i]))
             return 0;
     }
 
-- 
2.43.0


From d6b3fb4fbdc34b6f42162c9f7cca7cd5b14f5eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 102/126] fix: parameters with an abstract function type were
 rejected

---
 parser.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index 2f642e5..4575955 100644
--- a/parser.c
+++ b/parser.c
@@ -834,10 +834,16 @@ Type *parse_direct_declarator(void) {
     }
 
     else if (cur_token == TOK_LPAREN) {
-        // (subtype)
         next();
-        type = concat_types(type, parse_declarator());
-        consume(TOK_RPAREN, ")");
+
+        if (cur_token == TOK_RPAREN || (cur_token != TOK_TYPEDEF_TYPE && cur_token_is_type()))
+            // An abstract function type, e.g. the type of the parameter in void f(int (int));
+            type = concat_types(type, parse_function_type());
+        else {
+            // (subtype)
+            type = concat_types(type, parse_declarator());
+            consume(TOK_RPAREN, ")");
+        }
     }
 
     while (1) {
-- 
2.43.0


From ca88730068c5ef4fe5d398589b08914111031297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 103/126] fix: a typedef of an already declared identifier was
 accepted

---
 parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.c b/parser.c
index 4575955..0e2f13e 100644
--- a/parser.c
+++ b/parser.c
@@ -1164,6 +1164,10 @@ void parse_typedef(void) {
 
         parse_attributes();
 
+        Symbol *original_symbol = lookup_symbol(cur_type_identifier, cur_scope, 0);
+        if (original_symbol && (original_symbol->type->type != TYPE_TYPEDEF || !types_are_compatible(original_symbol->type->target, type)))
+            error("Identifier redeclared: %s", cur_type_identifier);
+
         if (all_typedefs_count == MAX_TYPEDEFS) panic_with_line_number("Exceeded max typedefs");
         Typedef *td = wcalloc(1, sizeof(Typedef));
         td->identifier = cur_type_identifier;
-- 
2.43.0


From 93763a486557e47d13336d15821448473909d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:21 +0000
Subject: [PATCH 104/126] fix: a call that returns a struct in code that cannot
 be reached crashed the compiler

---
 functions.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/functions.c b/functions.c
index c73bf9d..30f9444 100644
--- a/functions.c
+++ b/functions.c
@@ -125,6 +125,9 @@ static int make_int_struct_or_union_move_from_register_to_stack_instructions(
         Value *new_shift_register = dup_value(shift_register);
         new_shift_register->live_range_preg = 0;
 
+        // Code that cannot be reached isn't converted to SSA, so the register cannot be reused
+        new_shift_register->vreg = ++function->vreg_count;
+
         insert_instruction_from_operation(ir, IR_BSHR, new_shift_register, shift_register, new_integral_constant(TYPE_LONG, size_unit * 8), 1);
 
         shift_register = new_shift_register;
-- 
2.43.0


From 0a9722e723259a5ba313d000459c6100cc8cf267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 105/126] fix: an unknown label was reported in the file of the
 end of the function

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 0e2f13e..5c30427 100644
--- a/parser.c
+++ b/parser.c
@@ -3568,7 +3568,7 @@ static void parse_goto_statement(void) {
         GotoBackPatch *gbp = wmalloc(sizeof(GotoBackPatch));
         gbp->identifier = parser_wstrdup(cur_identifier);
         gbp->ir = ir;
-        gbp->filename = cur_filename;
+        gbp->filename = parser_wstrdup(cur_filename);
         gbp->line_number = cur_line;
         append_to_cll(cur_function_symbol->function->goto_backpatches, gbp);
     }
-- 
2.43.0


From eac1399dfa6f295f6399fb97c65a9e483b4dab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 106/126] fix: taking the address of an incomplete object and
 subscripting pointers to arrays of unknown size was rejected

---
 parser.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/parser.c b/parser.c
index 5c30427..5996f6f 100644
--- a/parser.c
+++ b/parser.c
@@ -185,10 +185,18 @@ static Value *load_bit_field(Value *src1) {
 
 // load a value into a register if not already done. lvalues are converted into
 // rvalues.
+// Only the address of a value with an incomplete type can be used
+static void check_value_is_complete(Type *type) {
+    if (type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(type)) error("Attempt to use an incomplete type");
+}
+
 static Value *load(Value *src1) {
     if (src1->is_constant) return src1;
     if (src1->vreg && !src1->is_lvalue) return src1;
-    if (src1->type->type == TYPE_STRUCT_OR_UNION) return src1;
+    if (src1->type->type == TYPE_STRUCT_OR_UNION) {
+        check_value_is_complete(src1->type);
+        return src1;
+    }
     if (src1->type->type == TYPE_FUNCTION && src1->vreg) {
         // A dereferenced pointer to a function decays back to the pointer
         Value *dst = dup_value(src1);
@@ -1191,10 +1199,6 @@ static void indirect(void) {
     // change.
     Value *src1 = pl();
 
-    Type *target = src1->type->target;
-    if (is_incomplete_type(target))
-        error("Attempt to use an incomplete type");
-
     if (src1->is_constant) {
         // Load a constant address into a register, so that it can be dealt with like any other pointer
         Value *dst = dup_value(src1);
@@ -3133,6 +3137,7 @@ static void parse_expression(int level) {
 
                 parse_addition(TOK_COMMA, 1);
                 consume(TOK_RBRACKET, "]");
+                check_value_is_complete(deref_pointer(vtop()->type));
                 indirect();
                 break;
 
@@ -3204,6 +3209,7 @@ static void parse_expression(int level) {
             case TOK_COMMA: {
                 // Delete the last expression (if any) on thestack
 
+                if (vs != vs_start) check_value_is_complete(vtop()->type);
                 pop_void();
                 next();
                 parse_expression(TOK_COMMA);
@@ -3706,6 +3712,7 @@ static void parse_statement(void) {
 
         default:
             parse_expression(TOK_COMMA);
+            if (vs != vs_start) check_value_is_complete(vtop()->type);
             consume(TOK_SEMI, ";");
     }
 }
-- 
2.43.0


From 37cece355d48f7b89f2a799a0f1e86724156d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 107/126] fix: add integers to constant pointers and large
 constants to pointers

---
 instrrules.c | 5 ++++-
 instrsel.c   | 1 +
 instrutil.c  | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 6108ba7..24c0f5a 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1267,7 +1267,8 @@ static void add_pointer_add_rules(void) {
         add_pointer_plus_int_rule(i, RU4, 10, X_ADD, 0);
     }
 
-    for (int i = CI1; i <= CI4; i++) {
+    // CI4 isn't included since there is no add with a 64 bit immediate operand
+    for (int i = CI1; i <= CI3; i++) {
         add_bi_directional_commutative_operation_rules(IR_ADD, X_MOV, X_ADD, XRP, i, XRP, 10, "movq %v1q, %vdq", "addq $%v1q, %v2q");
         add_bi_directional_commutative_operation_rules(IR_ADD, X_MOV, X_ADD, RP5, i, RP5, 10, "movq %v1q, %vdq", "addq $%v1q, %v2q");
     }
@@ -1529,6 +1530,8 @@ void define_rules(void) {
     r = add_rule(XR2,  0, XC2, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movw $%v1w, %vdw"); fin_rule(r);
     r = add_rule(XR3,  0, XC3, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movl $%v1l, %vdl"); fin_rule(r);
     r = add_rule(XR4,  0, XC4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movq $%v1q, %vdq"); fin_rule(r);
+    r = add_rule(XRP,  0, CI4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movq $%v1q, %vdq"); fin_rule(r); // Constant pointers
+    r = add_rule(RP5,  0, CI4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movq $%v1q, %vdq"); fin_rule(r);
     r = add_rule(RP5,  0, MPV, 0, 2); add_op(r, X_MOV,  DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRI,  0, XMI, 0, 2); add_op(r, X_MOV,  DST, SRC1, 0, "mov%s %v1, %vd"); fin_rule(r);
     r = add_rule(XRU,  0, XMU, 0, 2); add_op(r, X_MOV,  DST, SRC1, 0, "mov%s %v1, %vd"); fin_rule(r);
diff --git a/instrsel.c b/instrsel.c
index 629a998..ba5f3ec 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -849,6 +849,7 @@ static int tile_igraph_leaf_node(IGraph *igraph, int node_id) {
 
         if (!match_value_to_rule_src(v, r->src1)) continue;
         if (!v->is_constant && !v->label && v->type->type != TYPE_FUNCTION && !match_value_type_to_rule_dst(v, r->dst)) continue;
+        if (v->is_constant && r->dst >= RP1 && r->dst <= RP5 && !match_value_type_to_rule_dst(v, r->dst)) continue;
 
         if (debug_instsel_tiling) {
             printf("matched rule %d:\n", r->index);
diff --git a/instrutil.c b/instrutil.c
index da09092..8f29541 100644
--- a/instrutil.c
+++ b/instrutil.c
@@ -367,7 +367,7 @@ int match_value_to_rule_src(Value *v, int src) {
 
             // Check match with type from the parser. This is necessary for evil casts, e.g.
             // (unsigned int) -1, which would otherwise become a CU4 and not match rules for CU3.
-                 if (src >= CI3 && src <= CI4 && !v->type->is_unsigned && vtt != TYPE_LONG)  return 1;
+                 if (src >= CI3 && src <= CI4 && !v->type->is_unsigned && vtt != TYPE_LONG && vtt != TYPE_PTR) return 1;
             else if (              src == CI4 && !v->type->is_unsigned)                      return 1;
                  if (src >= CU3 && src <= CU4 &&  v->type->is_unsigned && vtt != TYPE_LONG)  return 1;
             else if (              src == CU4 &&  v->type->is_unsigned)                      return 1;
-- 
2.43.0


From c06f8ccdcb7da890155ff7bcdaff079891595ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 108/126] fix: name function definitions by their asm label

---
 codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index c021366..68fc6d3 100644
--- a/codegen.c
+++ b/codegen.c
@@ -968,7 +968,7 @@ void output_code(char *input_filename, char *output_filename) {
         if (symbol->type->type == TYPE_FUNCTION && symbol->function->is_defined &&
                 (symbol->linkage == LINKAGE_IMPLICIT_EXTERNAL || symbol->linkage == LINKAGE_EXPLICIT_EXTERNAL)) {
 
-            fprintf(f, "    .globl  %s\n", symbol->identifier);
+            fprintf(f, "    .globl  %s\n", symbol->global_identifier);
             fprintf(f, "    .type   %s, @function\n", symbol->global_identifier);
         }
     }
@@ -986,7 +986,7 @@ void output_code(char *input_filename, char *output_filename) {
     for (int i = 0; i < global_scope->symbol_list->length; i++) {
         Symbol *symbol = global_scope->symbol_list->elements[i];
         if (symbol->type->type == TYPE_FUNCTION && symbol->function->is_defined) {
-            fprintf(f, "%s:\n", symbol->identifier);
+            fprintf(f, "%s:\n", symbol->global_identifier);
             fprintf(f, ".L%s.start:\n", symbol->identifier);
             output_function_body_code(symbol);
             fprintf(f, "    .size       %s, .-%s\n", symbol->global_identifier, symbol->global_identifier);
-- 
2.43.0


From 6d649fbef26befae13f1eff340cc1a550b9148c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 109/126] fix: escape the working directory in debug
 information

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 68fc6d3..ddb1211 100644
--- a/codegen.c
+++ b/codegen.c
@@ -901,7 +901,8 @@ void output_debug_sections(char *input_filename) {
     fprintf(f, "    .string  ");
     fprintf_quoted_filename(f, input_filename);
     fprintf(f, ".debug_info.cwd:\n");
-    fprintf(f, "    .string  \"%s\"\n", cwd);
+    fprintf(f, "    .string  ");
+    fprintf_quoted_filename(f, cwd);
 
     // Output debug_line section. There's nothing much here, the assembler populates
     // this with information from the .loc lines.
-- 
2.43.0


From 728ab4903ec0bedd4141fa1236b3a0671bd0c3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 110/126] fix: accept repeated semicolons between declarations

---
 parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 5996f6f..692c23a 100644
--- a/parser.c
+++ b/parser.c
@@ -3850,8 +3850,10 @@ int redefined_symbol_linkage(int linkage1, int linkage2, char *cur_type_identifi
 // Parse a translation unit
 void parse(void) {
     while (cur_token != TOK_EOF) {
-        if (cur_token == TOK_SEMI)
+        if (cur_token == TOK_SEMI) {
             next();
+            continue;
+        }
 
         if (cur_token_is_type() || cur_token == TOK_IDENTIFIER || cur_token == TOK_MULTIPLY) {
             // Variable or function definition
-- 
2.43.0


From 11bb00e39b814070f928b71c56163bd7c1e33711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:31 +0000
Subject: [PATCH 111/126] fix: accept an asm label after a function declarator
 without a prototype

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 692c23a..f708f68 100644
--- a/parser.c
+++ b/parser.c
@@ -3742,7 +3742,7 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
     cur_scope = type->function->scope;
 
     // Parse optional old style declaration list
-    if (type->function->is_paramless && cur_token != TOK_SEMI && cur_token != TOK_COMMA && cur_token != TOK_ATTRIBUTE)
+    if (type->function->is_paramless && cur_token != TOK_SEMI && cur_token != TOK_COMMA && cur_token != TOK_ATTRIBUTE && cur_token != TOK_ASM)
         parse_function_paramless_declaration_list(symbol->function);
 
     if (original_symbol && !types_are_compatible(original_symbol->type, type))
-- 
2.43.0


From d763ed50d9c632e2d9a25ce37d8edead39cf4c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 112/126] fix: use the asm label of a function that is declared
 again in a block

---
 parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.c b/parser.c
index f708f68..2ce3ede 100644
--- a/parser.c
+++ b/parser.c
@@ -2344,6 +2344,10 @@ static void parse_declaration(void) {
         symbol->type = dup_type(type);
         symbol->linkage = LINKAGE_EXPLICIT_EXTERNAL;
         symbol->global_identifier = cur_type_identifier;
+
+        // The identifier may have been renamed with __asm__
+        Symbol *global_symbol = lookup_symbol(cur_type_identifier, global_scope, 0);
+        if (global_symbol && global_symbol->global_identifier) symbol->global_identifier = global_symbol->global_identifier;
     }
     else {
         symbol = new_symbol(cur_type_identifier);
-- 
2.43.0


From 3656bfc5fa30acf3dfff88c0a2a7961bf201a34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 113/126] fix: compare pointers with constants that don't fit
 in 32 bits

---
 instrrules.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 24c0f5a..f86d360 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1786,8 +1786,11 @@ void define_rules(void) {
     add_int_comparison_rules(&ntc, 1, XRP, RI4, cmpq_vv);            add_int_comparison_rules(&ntc, 1, XRP, RU4, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, RI4, RP5, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RU4, RP5, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, RP5, RI4, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RP5, RU4, cmpq_vv);
-    add_int_comparison_rules(&ntc, 1, XRP, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, XRP, XCU, cmpq_vc);
-    add_int_comparison_rules(&ntc, 1, RP5, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, RP5, XCU, cmpq_vc);
+    // Like above, larger constants don't fit in a signed imm32 and are loaded into a register
+    for (int i = 0; i < 3; i++) {
+        add_int_comparison_rules(&ntc, 1, XRP, CI1 + i, cmpq_vc);    if (i != 2) add_int_comparison_rules(&ntc, 1, XRP, CU1 + i, cmpq_vc);
+        add_int_comparison_rules(&ntc, 1, RP5, CI1 + i, cmpq_vc);    if (i != 2) add_int_comparison_rules(&ntc, 1, RP5, CU1 + i, cmpq_vc);
+    }
     add_int_comparison_rules(&ntc, 1, RPF, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, RPF, XCU, cmpq_vc);
     add_int_comparison_rules(&ntc, 1, MPF, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, MPF, XCU, cmpq_vc);
     add_int_comparison_rules(&ntc, 1, XRP, XMI, cmpq_vv);            add_int_comparison_rules(&ntc, 1, XRP, XMU, cmpq_vv);
-- 
2.43.0


From 227ebc601b8da9b8369782232f3eb87acd3322f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 114/126] fix: scale indices of pointers in 64 bits

---
 parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 2ce3ede..3be74c2 100644
--- a/parser.c
+++ b/parser.c
@@ -2252,7 +2252,7 @@ static void parse_addition(int level, int for_array_subscript) {
     int factor = get_type_inc_dec_size(vs[1]->type);
 
     if (factor > 1) {
-        push_integral_constant(TYPE_INT, factor);
+        push_integral_constant(TYPE_LONG, factor);
         arithmetic_operation(IR_MUL, 0);
     }
 
@@ -2275,7 +2275,7 @@ static void parse_subtraction(int level) {
 
     if (factor > 1) {
         if (!src2_is_pointer) {
-            push_integral_constant(TYPE_INT, factor);
+            push_integral_constant(TYPE_LONG, factor);
             arithmetic_operation(IR_MUL, 0);
         }
 
-- 
2.43.0


From e52f2cea3bf99c4611bf08f48b81956efcc0eea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:28 +0000
Subject: [PATCH 115/126] fix: render instructions with long identifiers

---
 codegen.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index ddb1211..5110d49 100644
--- a/codegen.c
+++ b/codegen.c
@@ -230,7 +230,16 @@ char *render_x86_operation(Tac *tac, int function_pc, int expect_preg) {
 
     if (!t) return 0;
 
-    char *buffer = wcalloc(1, 128);
+    // Identifiers can be long, they may be in the template and be used in several placeholders
+    int buffer_size = strlen(t) + 128;
+    for (int i = 0; t[i]; i++) {
+        if (t[i] != '%') continue;
+        if (tac->dst  && tac->dst ->global_symbol) buffer_size += strlen(tac->dst ->global_symbol->global_identifier);
+        if (tac->src1 && tac->src1->global_symbol) buffer_size += strlen(tac->src1->global_symbol->global_identifier);
+        if (tac->src2 && tac->src2->global_symbol) buffer_size += strlen(tac->src2->global_symbol->global_identifier);
+    }
+
+    char *buffer = wcalloc(1, buffer_size);
     char *result = buffer;
 
     while (*t && *t != ' ') *buffer++ = *t++;
-- 
2.43.0


From cc5f5f9228e6d3c4cf81e1f1d5fd24212ea05a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:42 +0000
Subject: [PATCH 116/126] fix: emit debug information in deep directories

---
 codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 5110d49..ba1f52c 100644
--- a/codegen.c
+++ b/codegen.c
@@ -853,8 +853,8 @@ static void output_symbol(Symbol *symbol) {
 // debug_abbrev section. debug_str contains debug strings. This is enough information
 // to have the source filename, directory, function names and line numbers.
 void output_debug_sections(char *input_filename) {
-    char *cwd = wmalloc(1024);
-    if (!getcwd(cwd, 1024)) panic("Unable to get cwd");
+    char *cwd = wmalloc(4096);
+    if (!getcwd(cwd, 4096)) panic("Unable to get cwd");
 
     // Output debug_info section
     fprintf(f, "    .section .debug_info,\"\",@progbits\n\n");
-- 
2.43.0


From 471d51a4cd773d41570cc2d55a8187cd3dc2c4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 117/126] fix: convert negative floating point constants just
 above the minimum of an integer type

---
 constexpr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 86b7d93..18842e3 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -296,15 +296,15 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
         // For compatibililty with gcc when it comes to overflows
              if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value >        0xff) dst->int_value = 0x7f;
         else if (dst_type->type == TYPE_CHAR  &&  dst_type->is_unsigned && src->fp_value >        0xff) dst->int_value = 0xff;
-             if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value <       -0x7f) dst->int_value = -0x80;
+             if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value <=      -0x81) dst->int_value = -0x80;
         else if (dst_type->type == TYPE_CHAR  &&  dst_type->is_unsigned && src->fp_value <       -0xff) dst->int_value = 0;
              if (dst_type->type == TYPE_SHORT && !dst_type->is_unsigned && src->fp_value >      0xffff) dst->int_value = 0x7fff;
         else if (dst_type->type == TYPE_SHORT &&  dst_type->is_unsigned && src->fp_value >      0xffff) dst->int_value = 0xffff;
-             if (dst_type->type == TYPE_SHORT && !dst_type->is_unsigned && src->fp_value <     -0x7fff) dst->int_value = -0x8000;
+             if (dst_type->type == TYPE_SHORT && !dst_type->is_unsigned && src->fp_value <=    -0x8001) dst->int_value = -0x8000;
         else if (dst_type->type == TYPE_SHORT &&  dst_type->is_unsigned && src->fp_value <     -0xffff) dst->int_value = 0;
              if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned && src->fp_value >  0xffffffff) dst->int_value = 0x7fffffff;
         else if (dst_type->type == TYPE_INT   &&  dst_type->is_unsigned && src->fp_value >  0xffffffff) dst->int_value = 0xffffffff;
-             if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned && src->fp_value < -0x7fffffff) dst->int_value = -0x80000000;
+             if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned && src->fp_value <= -0x80000001L) dst->int_value = -0x80000000;
         else if (dst_type->type == TYPE_INT   &&  dst_type->is_unsigned && src->fp_value < -0xffffffff) dst->int_value = 0;
 
         return dst;
-- 
2.43.0


From a4b83e589b97535647e49ec3089619f1d50112de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:10 +0000
Subject: [PATCH 118/126] fix: spill pointers that are used with an offset

---
 instrsel.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/instrsel.c b/instrsel.c
index ba5f3ec..43cba88 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -1570,6 +1570,10 @@ void add_spill_code(Function *function) {
     for (Tac *tac = function->ir; tac; tac = tac->next) {
         if (debug_instsel_spilling) print_instruction(stdout, tac, 0);
 
+        // An offset belongs to the indirection that uses the register. The register
+        // itself is stored at the start of its place on the stack.
+        if (tac->dst && tac->dst->spilled) tac->dst->offset = 0;
+
         // Allow all moves where either dst is a register and src is on the stack
         if (tac->operation == X_MOV || tac->operation == X_MOVS || tac->operation == X_MOVZ)
             if (tac->dst && tac->dst->preg != -1 && tac->src1 && tac->src1->stack_index) continue;
-- 
2.43.0


From 61139bdc5a7b9954df37add5246a6438088a9ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:22 +0000
Subject: [PATCH 119/126] fix: concatenate string literals with a line
 directive between them

---
 lexer.c | 56 +++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/lexer.c b/lexer.c
index ab9429a..3490df7 100644
--- a/lexer.c
+++ b/lexer.c
@@ -308,6 +308,31 @@ void lex_single_string_literal(int *size) {
     data[*size] = 0;
 }
 
+// Lex # <num> "filename" ...
+static void lex_line_directive(void) {
+    char *i = input;
+
+    ip++;
+    skip_blanks();
+    if (ip >= input_size || i[ip] < '0' || i[ip] > '9') error("Unexpected #");
+
+    lex_non_hex_literal();
+    skip_blanks();
+    if (ip >= input_size || i[ip] != '"') error("Unexpected #");
+
+    int size = 0;
+    ip++; // Skip the "
+    lex_single_string_literal(&size);
+    finish_string_literal(size, 0);
+
+    if (cur_filename) free_and_null(cur_filename);
+    cur_filename = wstrdup(cur_string_literal.data);
+    cur_line = cur_long - 1;
+
+    while (ip < input_size && i[ip] != '\n') ip++; // Skip non-whitespace
+    skip_whitespace(); // Skip EOL if present
+}
+
 void lex_string_literal(void) {
     char *i = input;
 
@@ -323,6 +348,15 @@ void lex_string_literal(void) {
         ip += 1;
         lex_single_string_literal(&size);
         skip_whitespace();
+
+        // There may be line directives in between the strings
+        while (ip < input_size && i[ip] == '#') {
+            char *data = cur_string_literal.data;
+            cur_string_literal.data = wmalloc((MAX_STRING_LITERAL_SIZE + 1) * sizeof(int));
+            lex_line_directive();
+            wfree(cur_string_literal.data);
+            cur_string_literal.data = data;
+        }
     }
 
     finish_string_literal(size, is_wide_char);
@@ -439,27 +473,7 @@ void next(void) {
         }
 
         else if (i[ip] == '#') {
-            // Lex # <num> "filename" ...
-
-            ip++;
-            skip_blanks();
-            if (ip >= input_size || i[ip] < '0' || i[ip] > '9') error("Unexpected #");
-
-            lex_non_hex_literal();
-            skip_blanks();
-            if (ip >= input_size || i[ip] != '"') error("Unexpected #");
-
-            int size = 0;
-            ip++; // Skip the "
-            lex_single_string_literal(&size);
-            finish_string_literal(size, 0);
-
-            if (cur_filename) free_and_null(cur_filename);
-            cur_filename = wstrdup(cur_string_literal.data);
-            cur_line = cur_long - 1;
-
-            while (ip < input_size && i[ip] != '\n') ip++; // Skip non-whitespace
-            skip_whitespace(); // Skip EOL if present
+            lex_line_directive();
 
             continue;
         }
-- 
2.43.0


From 9efef771191206b8dc0b7c3d87edfca9a193888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 120/126] fix: diagnose assignments to a struct with an array
 of const elements

---
 types.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/types.c b/types.c
index 7bf1126..e8bb8bf 100644
--- a/types.c
+++ b/types.c
@@ -938,13 +938,17 @@ int type_is_modifiable(Type *type) {
         for (StructOrUnionMember **pmember = s->members; *pmember; pmember++) {
             StructOrUnionMember *member = *pmember;
 
-            if (member->type->is_const) {
+            // An array is modifiable if its elements are
+            Type *member_type = member->type;
+            while (member_type->type == TYPE_ARRAY && !member_type->is_const) member_type = member_type->target;
+
+            if (member_type->is_const) {
                 is_modifiable = 0;
                 break;
             }
 
-            if (member->type->type == TYPE_STRUCT_OR_UNION) {
-                is_modifiable = type_is_modifiable(member->type);
+            if (member_type->type == TYPE_STRUCT_OR_UNION) {
+                is_modifiable = type_is_modifiable(member_type);
                 if (!is_modifiable) break;
             }
         }
-- 
2.43.0


From 99e92f91eaf8c46cbc157a56fc73cd1e18eac98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:46 +0000
Subject: [PATCH 121/126] fix: accept -ofile and don't take options that start
 with -c, -E or -o for them

---
 main.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/main.c b/main.c
index 092aeba..6c307ac 100644
--- a/main.c
+++ b/main.c
@@ -259,13 +259,13 @@ int main(int argc, char **argv) {
                 argc--;
                 argv++;
             }
-            else if (argc > 0 && !memcmp(argv[0], "-c", 2)) {
+            else if (argc > 0 && !strcmp(argv[0], "-c")) {
                 run_linker = 0;
                 single_target = 1;
                 argc--;
                 argv++;
             }
-            else if (argc > 0 && !memcmp(argv[0], "-E", 2)) {
+            else if (argc > 0 && !strcmp(argv[0], "-E")) {
                 run_compiler = 0;
                 run_assembler = 0;
                 run_linker = 0;
@@ -273,11 +273,18 @@ int main(int argc, char **argv) {
                 argc--;
                 argv++;
             }
-            else if (argc > 1 && !memcmp(argv[0], "-o", 2)) {
+            else if (argc > 1 && !strcmp(argv[0], "-o")) {
+                // -o ...
                 output_filename = argv[1];
                 argc -= 2;
                 argv += 2;
             }
+            else if (argv[0][0] == '-' && argv[0][1] == 'o' && argv[0][2]) {
+                // -o...
+                output_filename = &(argv[0][2]);
+                argc--;
+                argv++;
+            }
             else if (argc > 1 && !strcmp(argv[0], "-D")) {
                 // -D ...
                 append_to_list(directive_cli_strings, argv[1]);
-- 
2.43.0


From 565d8d1692e72f885d8cc95f5396224f779b6e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:56 +0000
Subject: [PATCH 122/126] fix: quote linker arguments and libraries for the
 shell

---
 main.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/main.c b/main.c
index 6c307ac..e622c4b 100644
--- a/main.c
+++ b/main.c
@@ -334,7 +334,7 @@ int main(int argc, char **argv) {
                 argv++;
             }
             else if (argc > 0 && !strncmp(argv[0], "-Wl,", 4)) {
-                append_to_list(extra_linker_args, &(argv[0][4]));
+                append_to_list(extra_linker_args, argv[0]);
                 argc -= 1;
                 argv += 1;
             }
@@ -606,8 +606,10 @@ int main(int argc, char **argv) {
             s = append_argument(s, cli_library_path->path);
         }
 
-        for (CliLibrary *cli_library = cli_libraries; cli_library; cli_library = cli_library->next)
-            s += sprintf(s, " -l %s", cli_library->library);
+        for (CliLibrary *cli_library = cli_libraries; cli_library; cli_library = cli_library->next) {
+            s += sprintf(s, " -l");
+            s = append_argument(s, cli_library->library);
+        }
 
         char *linker_output_filename = output_filename ? output_filename : "a.out";
         s += sprintf(s, " -o");
@@ -616,7 +618,7 @@ int main(int argc, char **argv) {
         if (shared) s += sprintf(s, " -shared");
 
         for (int i = 0; i < extra_linker_args->length; i++)
-            s += sprintf(s, " -Wl,%s", (char *) extra_linker_args->elements[i]);
+            s = append_argument(s, extra_linker_args->elements[i]);
 
         if (verbose) {
             s += sprintf(s, " -v");
-- 
2.43.0


From 74d2724945cb36ef675121e643f6c634744518bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:08 +0000
Subject: [PATCH 123/126] fix: size the command buffers by the arguments

---
 main.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index e622c4b..1be777d 100644
--- a/main.c
+++ b/main.c
@@ -191,6 +191,11 @@ int main(int argc, char **argv) {
 
     List *directive_cli_strings = new_list(8);
 
+    // The commands hold a selection of the arguments, in which each character may need to be quoted,
+    // and a temporary filename for each of them.
+    int max_command_length = 1024 + strlen(get_as_binary());
+    for (int i = 0; i < argc; i++) max_command_length += 4 * strlen(argv[i]) + 64;
+
     argc--;
     argv++;
     while (argc > 0) {
@@ -492,7 +497,7 @@ int main(int argc, char **argv) {
         exit(1);
     }
 
-    char *command = wmalloc(1024 * 100);
+    char *command = wmalloc(max_command_length);
 
     List *compiler_input_filenames = new_list(input_filenames->length);
     char **assembler_input_filenames = wcalloc(input_filenames->length, sizeof(char *));
@@ -589,7 +594,7 @@ int main(int argc, char **argv) {
 
     // Linker phase
     if (run_linker) {
-        char *filenames = wmalloc(1024 * 100);
+        char *filenames = wmalloc(max_command_length);
         char *s = filenames;
         for (int i = 0; i < input_filenames->length; i++) {
             char *filename = linker_input_filenames[i];
-- 
2.43.0


From 83cc41eb5dddaec8f7152c9d37d91896fd18fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:14 +0000
Subject: [PATCH 124/126] fix: diagnose va_start in a function without variable
 arguments

---
 parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.c b/parser.c
index 3be74c2..19c7aec 100644
--- a/parser.c
+++ b/parser.c
@@ -2677,6 +2677,9 @@ static void parse_va_start() {
     if (rightmost_param_index != cur_function_symbol->function->type->function->param_count - 1)
         error("Second argument to va_start isn't the rightmost function parameter");
 
+    if (!cur_function_symbol->function->type->function->is_variadic)
+        error("Attempt to use va_start in a function without variable arguments");
+
     Value *param_index_value = new_value();
     param_index_value->type = new_type(TYPE_INT);
     param_index_value->int_value = rightmost_param_index;
-- 
2.43.0


From 1cb17ffb29a62c4c45e59628b876c8b30a6a0633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 125/126] fix: diagnose va_arg of void, functions and
 incomplete types

---
 parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.c b/parser.c
index 19c7aec..c29c2f8 100644
--- a/parser.c
+++ b/parser.c
@@ -2704,6 +2704,9 @@ static void parse_va_arg() {
     Type *type = parse_type_name();
 
     if (type->type == TYPE_ARRAY) error("Cannot use an array in va_arg");
+    if (type->type == TYPE_FUNCTION) error("Cannot use a function in va_arg");
+    if (type->type == TYPE_VOID || (type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(type)))
+        error("Attempt to use an incomplete type in va_arg");
 
     consume(TOK_RPAREN, ")");
 
-- 
2.43.0


From e379f098c9ad1afc6b7d2f4ab7b68cf42caf8938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 126/126] fix: locate the definition of a function with a
 parameter of an incomplete type

---
 parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser.c b/parser.c
index c29c2f8..1a84bd1 100644
--- a/parser.c
+++ b/parser.c
@@ -3797,6 +3797,13 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
             if (!symbol->function->type->function->param_identifiers->elements[i])
                 error("Missing identifier for parameter in function definition");
 
+        // Ensure parameters have complete types
+        for (int i = 0; i < symbol->function->type->function->param_count; i++) {
+            Type *param_type = symbol->function->type->function->param_types->elements[i];
+            if (param_type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(param_type))
+                error("Function parameter has an incomplete type");
+        }
+
         // Reset globals for a new function
         vreg_count = 0;
         function_call_count = 0;
-- 
2.43.0

