From b69d54bb2d4cf09b6ea67ea5d52c35436c9ca321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:48 +0000
Subject: [PATCH 01/97] fix: read bytecode arguments without unaligned memory
 accesses

---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index d8b2dff..6c96144 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -711,7 +711,7 @@ int buzzvm_set_bcode(buzzvm_t vm,
 
 #define inc_pc() vm->oldpc = vm->pc; ++vm->pc; assert_pc(vm->pc);
 
-#define get_arg(TYPE) assert_pc(vm->pc + sizeof(TYPE)); TYPE arg = *((TYPE*)(vm->bcode + vm->pc)); vm->pc += sizeof(TYPE);
+#define get_arg(TYPE) assert_pc(vm->pc + sizeof(TYPE)); TYPE arg; memcpy(&arg, vm->bcode + vm->pc, sizeof(TYPE)); vm->pc += sizeof(TYPE);
 
 buzzvm_state buzzvm_step(buzzvm_t vm) {
    /* buzzvm_dump(vm); */
-- 
2.43.0


From 848d29551a8f710a9e38eb010ef1b614b1203480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:10 +0000
Subject: [PATCH 02/97] fix: report a message when an arithmetic operand has
 the wrong type

---
 src/buzz/buzzvm.c | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 6c96144..24705e9 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -36,14 +36,8 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
    buzzvm_stack_assert((vm), 2);                                        \
    buzzobj_t op1 = buzzvm_stack_at(vm, 1);                              \
    buzzobj_t op2 = buzzvm_stack_at(vm, 2);                              \
-   if((op1->o.type != BUZZTYPE_INT &&                                   \
-       op1->o.type != BUZZTYPE_FLOAT) ||                                \
-      (op2->o.type != BUZZTYPE_INT &&                                   \
-       op2->o.type != BUZZTYPE_FLOAT))  {                               \
-      (vm)->state = BUZZVM_STATE_ERROR;                                 \
-      (vm)->error = BUZZVM_ERROR_TYPE;                                  \
-      return (vm)->state;                                               \
-   }                                                                    \
+   buzzvm_type_assert_number((vm), 2);                                  \
+   buzzvm_type_assert_number((vm), 1);                                  \
    buzzdarray_pop(vm->stack);                                           \
    buzzdarray_pop(vm->stack);                                           \
    if(op1->o.type == BUZZTYPE_INT &&                                    \
@@ -1456,6 +1450,8 @@ buzzvm_state buzzvm_div(buzzvm_t vm) {
 
 buzzvm_state buzzvm_mod(buzzvm_t vm) {
    buzzvm_stack_assert((vm), 2);
+   buzzvm_type_assert_number((vm), 2);
+   buzzvm_type_assert_number((vm), 1);
    buzzobj_t op1 = buzzvm_stack_at(vm, 1);
    buzzobj_t op2 = buzzvm_stack_at(vm, 2);
    buzzdarray_pop(vm->stack);
@@ -1488,11 +1484,7 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
       if(res->f.value < 0.) res->f.value += op1->i.value;
       return buzzvm_push(vm, res);
    }
-   else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
-      return (vm)->state;
-   }
+   return vm->state;
 }
 
 /****************************************/
@@ -1500,6 +1492,8 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
 
 buzzvm_state buzzvm_pow(buzzvm_t vm) {
    buzzvm_stack_assert((vm), 2);
+   buzzvm_type_assert_number((vm), 2);
+   buzzvm_type_assert_number((vm), 1);
    buzzobj_t op1 = buzzvm_stack_at(vm, 1);
    buzzobj_t op2 = buzzvm_stack_at(vm, 2);
    buzzdarray_pop(vm->stack);
@@ -1528,11 +1522,7 @@ buzzvm_state buzzvm_pow(buzzvm_t vm) {
       res->f.value = powf(op2->i.value, op1->f.value);
       return buzzvm_push(vm, res);
    }
-   else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
-      return (vm)->state;
-   }
+   return vm->state;
 }
 
 /****************************************/
@@ -1540,6 +1530,7 @@ buzzvm_state buzzvm_pow(buzzvm_t vm) {
 
 buzzvm_state buzzvm_unm(buzzvm_t vm) {
    buzzvm_stack_assert(vm, 1);
+   buzzvm_type_assert_number(vm, 1);
    buzzobj_t op = buzzvm_stack_at(vm, 1);
    buzzdarray_pop(vm->stack);
    if(op->o.type == BUZZTYPE_INT) {
@@ -1552,11 +1543,7 @@ buzzvm_state buzzvm_unm(buzzvm_t vm) {
       res->f.value = -op->f.value;
       return buzzvm_push(vm, res);
    }
-   else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
-      return (vm)->state;
-   }
+   return vm->state;
 }
 
 /****************************************/
-- 
2.43.0


From 26a69a302c81557ebf7d2514ca671ec736f95638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:50 +0000
Subject: [PATCH 03/97] fix: the modulo of a negative number is in [0,|b|) for
 every operand type

---
 src/buzz/buzzvm.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 24705e9..edd8f94 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1460,28 +1460,31 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
       op2->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);
       res->i.value = op2->i.value % op1->i.value;
-      if(res->i.value < 0) res->i.value += op1->i.value;
+      if(res->i.value < 0) {
+         if(op1->i.value > 0) res->i.value += op1->i.value;
+         else res->i.value -= op1->i.value;
+      }
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_FLOAT &&
            op2->o.type == BUZZTYPE_FLOAT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->f.value, op1->f.value);
-      if(res->f.value < 0.) res->f.value += op1->f.value;
+      if(res->f.value < 0.) res->f.value += fabsf(op1->f.value);
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_INT &&
            op2->o.type == BUZZTYPE_FLOAT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->f.value, op1->i.value);
-      if(res->f.value < 0.) res->f.value += op1->f.value;
+      if(res->f.value < 0.) res->f.value += fabsf(op1->i.value);
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_FLOAT &&
            op2->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->i.value, op1->f.value);
-      if(res->f.value < 0.) res->f.value += op1->i.value;
+      if(res->f.value < 0.) res->f.value += fabsf(op1->f.value);
       return buzzvm_push(vm, res);
    }
    return vm->state;
-- 
2.43.0


From be4de368da3cd3b16556bccaa227cc62060d7dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:50 +0000
Subject: [PATCH 04/97] fix: integer overflow wraps around and dividing by zero
 is a VM error

---
 src/buzz/buzzvm.c | 32 ++++++++++++++++++++++++++++----
 src/buzz/buzzvm.h |  3 ++-
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index edd8f94..c377cd9 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -14,7 +14,7 @@
 
 const char *buzzvm_state_desc[] = { "no code", "ready", "done", "error", "stopped" };
 
-const char *buzzvm_error_desc[] = { "none", "unknown instruction", "stack error", "wrong number of local variables", "pc out of range", "function id out of range", "type mismatch", "unknown string id", "unknown swarm id" };
+const char *buzzvm_error_desc[] = { "none", "unknown instruction", "stack error", "wrong number of local variables", "pc out of range", "function id out of range", "type mismatch", "unknown string id", "unknown swarm id", "math error" };
 
 const char *buzzvm_instr_desc[] = {"nop", "done", "pushnil", "dup", "pop", "ret0", "ret1", "add", "sub", "mul", "div", "mod", "pow", "unm", "land", "lor", "lnot", "band", "bor", "bnot", "lshift", "rshift", "eq", "neq", "gt", "gte", "lt", "lte", "gload", "gstore", "pusht", "tput", "tget", "callc", "calls", "pushf", "pushi", "pushs", "pushcn", "pushcc", "pushl", "lload", "lstore", "lremove", "jump", "jumpz", "jumpnz"};
 
@@ -43,7 +43,8 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
    if(op1->o.type == BUZZTYPE_INT &&                                    \
       op2->o.type == BUZZTYPE_INT) {                                    \
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);              \
-      res->i.value = op2->i.value oper op1->i.value;                    \
+      /* Unsigned arithmetic wraps around without undefined behavior */ \
+      res->i.value = (uint32_t)op2->i.value oper (uint32_t)op1->i.value; \
       buzzvm_push(vm, res);                                             \
    }                                                                    \
    else if(op1->o.type == BUZZTYPE_INT &&                               \
@@ -1441,7 +1442,29 @@ buzzvm_state buzzvm_mul(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+/*
+ * Sets an error if the integer divisor at the top of the stack is zero.
+ */
+#define buzzvm_divisor_assert(vm)                                       \
+   if(buzzvm_stack_at((vm), 1)->o.type == BUZZTYPE_INT &&               \
+      buzzvm_stack_at((vm), 2)->o.type == BUZZTYPE_INT &&               \
+      buzzvm_stack_at((vm), 1)->i.value == 0) {                         \
+      buzzvm_seterror((vm), BUZZVM_ERROR_MATH, "division by zero");     \
+      return (vm)->state;                                               \
+   }
+
 buzzvm_state buzzvm_div(buzzvm_t vm) {
+   buzzvm_stack_assert((vm), 2);
+   buzzvm_divisor_assert(vm);
+   if(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_INT &&
+      buzzvm_stack_at(vm, 2)->o.type == BUZZTYPE_INT) {
+      /* Signed division; going through 64 bits avoids INT32_MIN / -1 */
+      int64_t num = buzzvm_stack_at(vm, 2)->i.value;
+      int64_t den = buzzvm_stack_at(vm, 1)->i.value;
+      buzzdarray_pop(vm->stack);
+      buzzdarray_pop(vm->stack);
+      return buzzvm_pushi(vm, num / den);
+   }
    buzzvm_binary_op_arith(vm, /);
 }
 
@@ -1450,6 +1473,7 @@ buzzvm_state buzzvm_div(buzzvm_t vm) {
 
 buzzvm_state buzzvm_mod(buzzvm_t vm) {
    buzzvm_stack_assert((vm), 2);
+   buzzvm_divisor_assert(vm);
    buzzvm_type_assert_number((vm), 2);
    buzzvm_type_assert_number((vm), 1);
    buzzobj_t op1 = buzzvm_stack_at(vm, 1);
@@ -1459,7 +1483,7 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
    if(op1->o.type == BUZZTYPE_INT &&
       op2->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);
-      res->i.value = op2->i.value % op1->i.value;
+      res->i.value = (int64_t)op2->i.value % op1->i.value;
       if(res->i.value < 0) {
          if(op1->i.value > 0) res->i.value += op1->i.value;
          else res->i.value -= op1->i.value;
@@ -1538,7 +1562,7 @@ buzzvm_state buzzvm_unm(buzzvm_t vm) {
    buzzdarray_pop(vm->stack);
    if(op->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);
-      res->i.value = -op->i.value;
+      res->i.value = -(uint32_t)op->i.value;
       return buzzvm_push(vm, res);
    }
    else if(op->o.type == BUZZTYPE_FLOAT) {
diff --git a/src/buzz/buzzvm.h b/src/buzz/buzzvm.h
index 4f0aa09..1bf5c13 100644
--- a/src/buzz/buzzvm.h
+++ b/src/buzz/buzzvm.h
@@ -44,7 +44,8 @@ extern "C" {
       BUZZVM_ERROR_FLIST,    // Function call id out of range
       BUZZVM_ERROR_TYPE,     // Type mismatch
       BUZZVM_ERROR_STRING,   // Unknown string id
-      BUZZVM_ERROR_SWARM     // Unknown swarm id
+      BUZZVM_ERROR_SWARM,    // Unknown swarm id
+      BUZZVM_ERROR_MATH      // Math error, e.g. integer division by zero
    } buzzvm_error;
    extern const char *buzzvm_error_desc[];
 
-- 
2.43.0


From 9144b4020f5862bc58ab78410a6678f6ec63f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:53 +0000
Subject: [PATCH 05/97] fix: shifting by a negative or large amount is not
 undefined behavior

---
 src/buzz/buzzvm.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index c377cd9..f6655c5 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1631,15 +1631,29 @@ buzzvm_state buzzvm_bnot(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+/*
+ * Shifts an integer. Only the 5 least significant bits of the shift
+ * amount are considered, so every amount is valid.
+ */
+#define buzzvm_shift_op(vm, cast, oper)                                 \
+   buzzvm_stack_assert((vm), 2);                                        \
+   buzzvm_type_assert((vm), 1, BUZZTYPE_INT);                           \
+   buzzvm_type_assert((vm), 2, BUZZTYPE_INT);                           \
+   int32_t amount = buzzvm_stack_at(vm, 1)->i.value & 31;               \
+   int32_t value = cast buzzvm_stack_at(vm, 2)->i.value oper amount;    \
+   buzzdarray_pop(vm->stack);                                           \
+   buzzdarray_pop(vm->stack);                                           \
+   return buzzvm_pushi(vm, value);
+
 buzzvm_state buzzvm_lshift(buzzvm_t vm) {
-   buzzvm_binary_op_bitwise(vm, <<);
+   buzzvm_shift_op(vm, (uint32_t), <<);
 }
 
 /****************************************/
 /****************************************/
 
 buzzvm_state buzzvm_rshift(buzzvm_t vm) {
-   buzzvm_binary_op_bitwise(vm, >>);
+   buzzvm_shift_op(vm, , >>);
 }
 
 /****************************************/
-- 
2.43.0


From f516a6496817e9dcbea7f7b195051e2dcaeba0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:58 +0000
Subject: [PATCH 06/97] fix: nil compared to another value is different, not
 also equal, smaller and larger

---
 src/buzz/buzzvm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index f6655c5..ab66088 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -128,7 +128,8 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
    buzzdarray_pop(vm->stack);                                           \
    buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);                 \
    int cmp = buzzobj_cmp(op2, op1);                                     \
-   res->i.value = (cmp == 2 || cmp oper 0);                             \
+   /* Incomparable operands (cmp == 2) are different, and nothing else */ \
+   res->i.value = (cmp == 2) ? ((1 oper 0) && (-1 oper 0)) : (cmp oper 0); \
    return buzzvm_push(vm, res);
 
 /****************************************/
-- 
2.43.0


From 01a85082d1e2ddf0270ed81e5d32c480757e705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:58 +0000
Subject: [PATCH 07/97] fix: string comparison result is not mistaken for the
 incomparable marker

---
 src/buzz/buzztype.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 35e57b0..3384fbd 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -133,6 +133,15 @@ int buzzobj_eq(const buzzobj_t a,
 /****************************************/
 /****************************************/
 
+/*
+ * String comparison with a result in { -1, 0, 1 }: strcmp() can return any
+ * integer, including the value that marks incomparable objects
+ */
+static int buzzobj_strcmp(const char* a, const char* b) {
+   int cmp = strcmp(a, b);
+   return (cmp > 0) - (cmp < 0);
+}
+
 int buzzobj_cmp(const buzzobj_t a,
                 const buzzobj_t b) {
    /* Nil */
@@ -165,29 +174,29 @@ int buzzobj_cmp(const buzzobj_t a,
    }
    /* String and other types */
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_STRING) {
-      return strcmp(a->s.value.str, b->s.value.str);
+      return buzzobj_strcmp(a->s.value.str, b->s.value.str);
    }
 
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_INT) {
       char str[30];
       sprintf(str, "%d", b->i.value);
-      return strcmp(a->s.value.str, str);
+      return buzzobj_strcmp(a->s.value.str, str);
    }
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_FLOAT) {
       char str[30];
       sprintf(str, "%f", b->f.value);
-      return strcmp(a->s.value.str, str);
+      return buzzobj_strcmp(a->s.value.str, str);
    }
 
    if(a->o.type == BUZZTYPE_INT && b->o.type == BUZZTYPE_STRING) {
       char str[30];
       sprintf(str, "%d", a->i.value);
-      return strcmp(str, b->s.value.str);
+      return buzzobj_strcmp(str, b->s.value.str);
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_STRING) {
       char str[30];
       sprintf(str, "%f", a->f.value);
-      return strcmp(str, b->s.value.str);
+      return buzzobj_strcmp(str, b->s.value.str);
    }
    /* Tables */
    if(a->o.type == BUZZTYPE_TABLE || b->o.type == BUZZTYPE_TABLE) {
-- 
2.43.0


From 11ff03a6618fee3c9b43d5e863c96a682cf8bc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:58 +0000
Subject: [PATCH 08/97] fix: comparing closures or mixed types does not abort
 the process

---
 src/buzz/buzztype.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 3384fbd..bc11779 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -220,9 +220,13 @@ int buzzobj_cmp(const buzzobj_t a,
       if((uintptr_t)(a->u.value) > (uintptr_t)(b->u.value)) return 1;
       return 0;
    }
-   // TODO better error management
-   fprintf(stderr, "[TODO] %s:%d: Error for comparison between Buzz objects of types %d and %d\n", __FILE__, __LINE__, a->o.type, b->o.type);
-   abort();
+   /* Closures */
+   if(a->o.type == BUZZTYPE_CLOSURE && b->o.type == BUZZTYPE_CLOSURE) {
+      if(buzzobj_eq(a, b)) return 0;
+      return (uintptr_t)(a->c.value.actrec) < (uintptr_t)(b->c.value.actrec) ? -1 : 1;
+   }
+   /* Any other combination can't be compared */
+   return 2;
 }
 
 /****************************************/
-- 
2.43.0


From 5be806838fbe968752708afe64f2984e7d37400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:01 +0000
Subject: [PATCH 09/97] fix: table keys 5 and "5" are distinct, negative 5 and
 5.0 are the same

---
 src/buzz/buzztype.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index bc11779..77be554 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -17,10 +17,13 @@ uint32_t buzzobj_table_hash(const void* key) {
    buzzobj_t k = *(buzzobj_t*)key;
    switch(k->o.type) {
       case BUZZTYPE_INT: {
-         return (k->i.value % BUZZTYPE_TABLE_BUCKETS);
+         return ((uint32_t)(k->i.value) % BUZZTYPE_TABLE_BUCKETS);
       }
       case BUZZTYPE_FLOAT: {
-         return ((uint32_t)(k->f.value) % BUZZTYPE_TABLE_BUCKETS);
+         /* An int and a float with the same value are the same key */
+         if(k->f.value >= INT32_MIN && k->f.value < -(float)INT32_MIN)
+            return ((uint32_t)(int32_t)(k->f.value) % BUZZTYPE_TABLE_BUCKETS);
+         return 0;
       }
       case BUZZTYPE_STRING: {
          return ((uint32_t)(k->s.value.sid) % BUZZTYPE_TABLE_BUCKETS);
@@ -32,7 +35,12 @@ uint32_t buzzobj_table_hash(const void* key) {
 }
 
 int buzzobj_table_keycmp(const void* a, const void* b) {
-   return buzzobj_cmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
+   buzzobj_t x = *(buzzobj_t*)a;
+   buzzobj_t y = *(buzzobj_t*)b;
+   /* A string is never the same key as a number */
+   if((x->o.type == BUZZTYPE_STRING) != (y->o.type == BUZZTYPE_STRING))
+      return x->o.type == BUZZTYPE_STRING ? 1 : -1;
+   return buzzobj_cmp(x, y);
 }
 
 buzzobj_t buzzobj_new(uint16_t type) {
-- 
2.43.0


From 66a87add1c80e81e51c89b69a9840168512bbdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:36 +0000
Subject: [PATCH 10/97] fix: local variables in blocks of the global scope, and
 return outside of a function

---
 src/buzz/buzzparser.c |  2 ++
 src/buzz/buzzvm.c     | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 0c62721..e568048 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -510,6 +510,8 @@ int parse_block(buzzparser_t par, int pushsymt) {
          if(buzzdarray_size(par->symstack) == 1) {
             /* Add new symtable */
             symt_push();
+            /* Position 0 of the local symbols is for "self" */
+            sym_add(par, "self", SCOPE_LOCAL);
          }
          else {
             symt_clone();
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index ab66088..a1dbf03 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -521,7 +521,6 @@ buzzvm_t buzzvm_new(uint16_t robot) {
    vm->lsymts = buzzdarray_new(BUZZVM_LSYMTS_INIT_CAPACITY,
                                sizeof(buzzvm_lsyms_t),
                                buzzvm_lsyms_destroy);
-   vm->lsyms = NULL;
    /* Create global variable tables */
    vm->gsyms = buzzdict_new(BUZZVM_SYMS_INIT_CAPACITY,
                             sizeof(int32_t),
@@ -533,6 +532,12 @@ buzzvm_t buzzvm_new(uint16_t robot) {
    vm->strings = buzzstrman_new();
    /* Create heap */
    vm->heap = buzzheap_new();
+   /* Create the local variables for the blocks in the global scope;
+    * as in functions, the first one is the self table */
+   vm->lsyms = buzzvm_lsyms_new(0, buzzdarray_new(1, sizeof(buzzobj_t), NULL));
+   buzzdarray_push(vm->lsymts, &(vm->lsyms));
+   buzzobj_t self = buzzheap_newobj(vm, BUZZTYPE_NIL);
+   buzzdarray_push(vm->lsyms->syms, &self);
    /* Create function list */
    vm->flist = buzzdarray_new(20, sizeof(buzzvm_funp), NULL);
    /* Create swarm list */
@@ -1359,6 +1364,11 @@ buzzvm_state buzzvm_gstore(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret0(buzzvm_t vm) {
+   /* Make sure there's a function to return from */
+   if(buzzdarray_size(vm->stacks) < 2) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
+      return vm->state;
+   }
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
@@ -1389,6 +1399,11 @@ buzzvm_state buzzvm_ret0(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret1(buzzvm_t vm) {
+   /* Make sure there's a function to return from */
+   if(buzzdarray_size(vm->stacks) < 2) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
+      return vm->state;
+   }
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
-- 
2.43.0


From 72aa90ce87e54b0a891a16c75a083a565ca3d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 11/97] fix: locals left unset by a call with missing
 parameters are nil

---
 src/buzz/buzzvm.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index a1dbf03..e35e6e8 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1738,16 +1738,25 @@ buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
    buzzvm_stack_assert((vm), 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    buzzvm_pop(vm);
+   /* The locals between the last one and the new one are nil
+    * (e.g. parameters not passed by the caller) */
+   if(buzzdarray_size(vm->lsyms->syms) < idx) {
+      buzzobj_t nil = buzzheap_newobj(vm, BUZZTYPE_NIL);
+      while(buzzdarray_size(vm->lsyms->syms) < idx)
+         buzzdarray_push(vm->lsyms->syms, &nil);
+   }
    buzzdarray_set((vm)->lsyms->syms, idx, &o);
    return vm->state;
 }
 
 buzzvm_state buzzvm_lremove(buzzvm_t vm, uint32_t num) {
-   if(buzzvm_lnum(vm) < num)
+   if(buzzvm_lnum(vm) < num) {
       buzzvm_seterror(vm,
                       BUZZVM_ERROR_LNUM,
                       "not enough local symbols in stack"
          );
+      return vm->state;
+   }
   for( uint32_t i =0 ; i < num ; i++ )
     buzzdarray_pop((vm)->lsyms->syms);
    return vm->state;
-- 
2.43.0


From dd7b687828b7da494936b398a29bcabfedc9bb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:05 +0000
Subject: [PATCH 12/97] fix: calling a function with arguments from C stores
 the closure, not its contents, on the stack

---
 src/buzz/buzzdebug.c | 10 ++++++----
 src/buzz/buzzvm.c    |  7 ++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 763d78a..ade8276 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -308,7 +308,8 @@ buzzvm_state buzzdebug_closure_call(buzzvm_t vm,
       else return vm->state;
    }
    /* Insert the self table */
-   buzzdarray_insert(vm->stack, buzzdarray_size(vm->stack) - argc - 1, buzzobj_new(BUZZTYPE_NIL));
+   buzzobj_t o = buzzheap_newobj(vm, BUZZTYPE_NIL);
+   buzzdarray_insert(vm->stack, buzzdarray_size(vm->stack) - argc - 1, &o);
    /* Push the argument count */
    buzzvm_pushi(vm, argc);
    /* Save the current stack depth */
@@ -348,10 +349,11 @@ buzzvm_state buzzdebug_function_call(buzzvm_t vm,
    buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
    /* Move closure before arguments */
    if(argc > 0) {
-      buzzdarray_insert(vm->stack,
-                        buzzdarray_size(vm->stack) - argc - 1,
-                        buzzvm_stack_at(vm, 1));
+      buzzobj_t c = buzzvm_stack_at(vm, 1);
       buzzvm_pop(vm);
+      buzzdarray_insert(vm->stack,
+                        buzzdarray_size(vm->stack) - argc,
+                        &c);
    }
    /* Call the closure */
    return buzzdebug_closure_call(vm, argc, dbg);
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index e35e6e8..1da89cb 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1058,10 +1058,11 @@ buzzvm_state buzzvm_function_call(buzzvm_t vm,
    }
    /* Move closure before arguments */
    if(argc > 0) {
-      buzzdarray_insert(vm->stack,
-                        buzzdarray_size(vm->stack) - argc - 1,
-                        buzzvm_stack_at(vm, 1));
+      buzzobj_t c = buzzvm_stack_at(vm, 1);
       buzzvm_pop(vm);
+      buzzdarray_insert(vm->stack,
+                        buzzdarray_size(vm->stack) - argc,
+                        &c);
    }
    /* Call the closure */
    return buzzvm_closure_call(vm, argc);
-- 
2.43.0


From 6e6dec2aca9978553b39bff32bcd7b0ef11efde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:05 +0000
Subject: [PATCH 13/97] fix: calling a C closure from C does not execute an
 extra instruction of the script

---
 src/buzz/buzzdebug.c | 5 ++---
 src/buzz/buzzvm.c    | 7 ++++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index ade8276..f5317c3 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -316,14 +316,13 @@ buzzvm_state buzzdebug_closure_call(buzzvm_t vm,
    uint32_t stacks = buzzdarray_size(vm->stacks);
    /* Call the closure and keep stepping until
     * the stack count is back to the saved value */
-   buzzvm_callc(vm);
-   do {
+   if(buzzvm_callc(vm) != BUZZVM_STATE_READY) return vm->state;
+   while(stacks < buzzdarray_size(vm->stacks)) {
       if(buzzdebug_breakpoint_exists(dbg, vm->pc))
          vm->state = BUZZVM_STATE_STOPPED;
       if(buzzvm_step(vm) != BUZZVM_STATE_READY)
          return vm->state;
    }
-   while(stacks < buzzdarray_size(vm->stacks));
    return vm->state;
 }
 
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 1da89cb..9f5eedf 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1017,9 +1017,10 @@ buzzvm_state buzzvm_closure_call(buzzvm_t vm,
    uint32_t stacks = buzzdarray_size(vm->stacks);
    /* Call the closure and keep stepping until
     * the stack count is back to the saved value */
-   buzzvm_callc(vm);
-   do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-   while(stacks < buzzdarray_size(vm->stacks));
+   if(buzzvm_callc(vm) != BUZZVM_STATE_READY) return vm->state;
+   /* A C closure has already returned */
+   while(stacks < buzzdarray_size(vm->stacks))
+      if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
    return vm->state;
 }
 
-- 
2.43.0


From 98844961eb83693fda86b95a2d9cf83b82a79e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:08 +0000
Subject: [PATCH 14/97] fix: registering a C function again does not grow the
 function list

---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 9f5eedf..f6b5205 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1081,7 +1081,7 @@ int buzzvm_function_cmp(const void* a, const void* b) {
 uint32_t buzzvm_function_register(buzzvm_t vm,
                                   buzzvm_funp funp) {
    /* Look for function pointer to avoid duplicates */
-   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, funp);
+   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, &funp);
    if(fpos == buzzdarray_size(vm->flist)) {
       /* Add function to the list */
       buzzdarray_push(vm->flist, &funp);
-- 
2.43.0


From 50089a57e283f534a6ee6bddc7468dbb989e6f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 15/97] fix: swarm.exec() of a C closure does not execute an
 extra instruction of the script

---
 src/buzz/buzzswarm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 996ddd9..3a84f6d 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -506,9 +506,10 @@ int buzzswarm_exec(buzzvm_t vm) {
       buzzvm_push(vm, c);
       int32_t numargs = 0;
       buzzvm_pushi(vm, numargs);
-      buzzvm_calls(vm);
-      do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-      while(stacks < buzzdarray_size(vm->stacks));
+      if(buzzvm_calls(vm) != BUZZVM_STATE_READY) return vm->state;
+      /* A C closure has already returned */
+      while(stacks < buzzdarray_size(vm->stacks))
+         if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
       return vm->state;
    }
    else {
-- 
2.43.0


From d4b74dce8279fd091ded383701b5a2be88eb4c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 16/97] fix: swarm.id() considers its argument, and an argument
 below 1 is not out of bounds

---
 src/buzz/buzzswarm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 3a84f6d..28459cd 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -315,14 +315,16 @@ int buzzswarm_id(struct buzzvm_s* vm) {
    }
    else {
       /* Take the stack top by default */
-      uint16_t stackpos = 1;
+      int64_t stackpos = 1;
       /* Do we have an argument? */
-      if(buzzvm_lnum(vm) > 1) {
+      if(buzzvm_lnum(vm) > 0) {
          buzzvm_lload(vm, 1);
          buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
          stackpos = buzzvm_stack_at(vm, 1)->i.value;
       }
       /* Limit stackpos value to avoid out-of-bounds operations */
+      if(stackpos < 1)
+         stackpos = 1;
       if(stackpos > buzzdarray_size(vm->swarmstack))
          stackpos = buzzdarray_size(vm->swarmstack);
       /* Push the swarm id located at stackpos */
-- 
2.43.0


From d9ef7655ae689f9af2630b0d00d1c3b471ad4e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 17/97] fix: swarm.select() of a multiple of 256 is a join

---
 src/buzz/buzzswarm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 28459cd..406b934 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -456,7 +456,7 @@ int buzzswarm_select(buzzvm_t vm) {
    /* Get the result of the condition check */
    buzzvm_lload(vm, 1);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
-   uint8_t in = buzzvm_stack_at(vm, 1)->i.value;
+   uint8_t in = (buzzvm_stack_at(vm, 1)->i.value != 0);
    /* Update the swarm, if known */
    if(buzzdict_exists(vm->swarms, &id)) {
       /* Store membership */
-- 
2.43.0


From 95233f11a499f4f3e9afe66b0333d5b56a1af574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 18/97] fix: swarm set operations stop when an argument is not
 a swarm

---
 src/buzz/buzzswarm.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 406b934..52a7162 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -528,7 +528,15 @@ static int buzzswarm_check(struct buzzvm_s* vm) {
     * Assert that the top of the stack element is a valid swarm
     */
    /* Mke sure it's a table */
-   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
+   if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_TABLE) {
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_TYPE,
+                      "expected %s, got %s",
+                      buzztype_desc[BUZZTYPE_TABLE],
+                      buzztype_desc[buzzvm_stack_at(vm, 1)->o.type]);
+      /* Return error */
+      return -1;
+   }
    /* Get the 'id' element */
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1));
    buzzvm_tget(vm);
-- 
2.43.0


From 751beb91cf9b99343d5a831fda74f8fb0ff1b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 19/97] fix: a truncated swarm list is discarded, and an empty
 one means that the robot left every swarm

---
 src/buzz/buzzvm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index f6b5205..17cc175 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -434,9 +434,8 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_SWARM_LIST message received\n", vm->robot);
                break;
             }
-            if(nsids < 1) break;
             /* Deserialize swarm ids */
-            buzzdarray_t sids = buzzdarray_new(nsids, sizeof(uint16_t), NULL);
+            buzzdarray_t sids = buzzdarray_new(nsids > 0 ? nsids : 1, sizeof(uint16_t), NULL);
             uint16_t i;
             for(i = 0; i < nsids; ++i) {
                pos = buzzmsg_deserialize_u16(buzzdarray_makeslot(sids, i), msg, pos);
@@ -445,6 +444,11 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   break;
                }
             }
+            /* Discard a truncated list */
+            if(pos < 0) {
+               buzzdarray_destroy(&sids);
+               break;
+            }
             /* Update the information */
             buzzswarm_members_refresh(vm->swarmmembers, rid, sids);
             break;
-- 
2.43.0


From c6339cebf249a7cd28637f3ed9d56ffd0637ec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 20/97] fix: error message when reading a table with an invalid
 key

---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 17cc175..38b6f23 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1329,7 +1329,7 @@ buzzvm_state buzzvm_tget(buzzvm_t vm) {
    if(k->o.type != BUZZTYPE_INT &&
       k->o.type != BUZZTYPE_FLOAT &&
       k->o.type != BUZZTYPE_STRING) {
-      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", k->o.type);
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", buzztype_desc[k->o.type]);
       return vm->state;
    }
    const buzzobj_t* v = buzzdict_get(t->t.value, &k, buzzobj_t);
-- 
2.43.0


From d9b1a8706856ee8d7634e0bcc7090ccef9d561c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 21/97] fix: the error message is released with the VM

---
 src/buzz/buzzvm.c | 2 ++
 src/buzz/buzzvm.h | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 38b6f23..dfe14a7 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -613,6 +613,8 @@ void buzzvm_destroy(buzzvm_t* vm) {
    buzzdict_destroy(&(*vm)->vstigs);
    /* Get rid of neighbor value listeners */
    buzzdict_destroy(&(*vm)->listeners);
+   /* Get rid of the error message */
+   free((*vm)->errormsg);
    free(*vm);
    *vm = 0;
 }
diff --git a/src/buzz/buzzvm.h b/src/buzz/buzzvm.h
index 1bf5c13..468482f 100644
--- a/src/buzz/buzzvm.h
+++ b/src/buzz/buzzvm.h
@@ -866,7 +866,7 @@ extern "C" {
  * @param vm The VM data.
  * @param num The number of expected local variables.
  */
-#define buzzvm_lnum_assert(vm, num) if(buzzvm_lnum(vm) != num) { (vm)->state = BUZZVM_STATE_ERROR; (vm)->error = BUZZVM_ERROR_LNUM; asprintf(&(vm)->errormsg, "%s: expected %d parameters, got %" PRId64, buzzvm_error_desc[(vm)->error], num, buzzvm_lnum(vm)); return (vm)->state; }
+#define buzzvm_lnum_assert(vm, num) if(buzzvm_lnum(vm) != num) { buzzvm_seterror((vm), BUZZVM_ERROR_LNUM, "expected %d parameters, got %" PRId64, num, buzzvm_lnum(vm)); return (vm)->state; }
 
 /**
  * Calls a normal closure.
-- 
2.43.0


From 8b084596bab4d9024f6a0c9ef40ff6aa228d325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:34 +0000
Subject: [PATCH 22/97] fix: replacing a stigmergy conflict manager does not
 free an object that the garbage collector owns

---
 src/buzz/buzzvstig.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 9375e3e..b8236ec 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -359,7 +359,6 @@ int buzzvstig_onconflict(struct buzzvm_s* vm) {
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
       /* Clone the closure */
-      if((*vs)->onconflict) free((*vs)->onconflict);
       (*vs)->onconflict = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
@@ -387,7 +386,6 @@ int buzzvstig_onconflictlost(struct buzzvm_s* vm) {
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
       /* Clone the closure */
-      if((*vs)->onconflictlost) free((*vs)->onconflictlost);
       (*vs)->onconflictlost = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
-- 
2.43.0


From 6f701f9bcd6e6fb7640618d748edcf6f0d71007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:34 +0000
Subject: [PATCH 23/97] fix: stigmergy conflict managers leave the stack
 balanced and survive errors and dropped keys

---
 src/buzz/buzzvstig.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index b8236ec..4d4b782 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -408,6 +408,8 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
                                            buzzvstig_elem_t rv) {
    /* Was a conflict manager defined? */
    if(vs->onconflict) {
+      /* Keep the key alive, the closure could drop its parameter */
+      buzzvm_push(vm, k);
       /* Push closure */
       buzzvm_push(vm, vs->onconflict);
       /* Push key */
@@ -423,19 +425,26 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       add_field(data, rv, push);
       add_field(timestamp, rv, pushi);
       /* Call closure (key, lv, rv on the stack) */
-      buzzvm_closure_call(vm, 3);
+      if(buzzvm_closure_call(vm, 3) != BUZZVM_STATE_READY) return NULL;
       /* Make new entry with return value */
       /* Make sure it's a table */
       if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_TABLE) {
          fprintf(stderr, "[WARNING] [ROBOT %u] virtual stigmergy onconflict(): Return value type is %s, expected table\n", vm->robot, buzztype_desc[buzzvm_stack_at(vm, 1)->o.type]);
+         /* Get rid of return value and key */
+         buzzvm_pop(vm);
+         buzzvm_pop(vm);
          return NULL;
       }
       /* Get the robot id */
       buzzobj_t ret = buzzvm_stack_at(vm, 1);
       buzzvm_pushs(vm, buzzvm_string_register(vm, "robot", 1));
       buzzvm_tget(vm);
-      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT)
+      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT) {
+         /* Get rid of the field and the key */
+         buzzvm_pop(vm);
+         buzzvm_pop(vm);
          return NULL;
+      }
       uint16_t robot = buzzvm_stack_at(vm, 1)->i.value;
       buzzvm_pop(vm);
       /* Get the data */
@@ -444,6 +453,8 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       buzzvm_tget(vm);
       buzzobj_t data = buzzvm_stack_at(vm, 1);
       buzzvm_pop(vm);
+      /* Get rid of the key */
+      buzzvm_pop(vm);
       /* Make new entry */
       return buzzvstig_elem_new(data, lv->timestamp, robot);
    }
@@ -487,7 +498,9 @@ void buzzvstig_onconflictlost_call(buzzvm_t vm,
       add_field(data, lv, push);
       add_field(timestamp, lv, pushi);
       /* Call closure (key and table are on the stack) */
-      buzzvm_closure_call(vm, 2);
+      if(buzzvm_closure_call(vm, 2) != BUZZVM_STATE_READY) return;
+      /* Get rid of the return value */
+      buzzvm_pop(vm);
    }
 }
 
-- 
2.43.0


From d6346b9b03584caa4465273db9d517008e44d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:34 +0000
Subject: [PATCH 24/97] fix: resolving a stigmergy conflict does not leak the
 losing element

---
 src/buzz/buzzvm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index dfe14a7..dde993d 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -308,6 +308,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   buzzvstig_onconflict_call(vm, *vs, k, *l, v);
                if(!c) {
                   fprintf(stderr, "[WARNING] [ROBOT %u] Error resolving PUT conflict\n", vm->robot);
+                  free(v);
                   break;
                }
                /* Get rid of useless vstig element */
@@ -322,6 +323,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   buzzvstig_store(*vs, &k, &c);
                   /* Call conflict lost manager */
                   buzzvstig_onconflictlost_call(vm, *vs, k, ol);
+                  free(ol);
                }
                else {
                   /* This robot did not lose the conflict */
@@ -411,6 +413,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   buzzvstig_store(*vs, &k, &c);
                   /* Call conflict lost manager */
                   buzzvstig_onconflictlost_call(vm, *vs, k, ol);
+                  free(ol);
                }
                else {
                   /* This robot did not lose the conflict */
-- 
2.43.0


From 3947ce07d29c05bc14b207376496b084963e13bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:55 +0000
Subject: [PATCH 25/97] fix: modifying a table while foreach(), map() or
 filter() visit it is not a memory error

---
 src/buzz/buzzdict.c | 18 +++++++++++-------
 src/buzz/buzztype.c | 32 +++++++++++++++++++++++---------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/buzz/buzzdict.c b/src/buzz/buzzdict.c
index acefe98..25a3a7a 100644
--- a/src/buzz/buzzdict.c
+++ b/src/buzz/buzzdict.c
@@ -113,11 +113,11 @@ void buzzdict_set(buzzdict_t dt,
       for(i = 0; i < buzzdarray_size(dt->buckets[h]); ++i) {
          const struct buzzdict_entry_s* e = &buzzdarray_get(dt->buckets[h], i, struct buzzdict_entry_s);
          if(dt->keycmpf(key, e->key) == 0) {
-            /* Yes, destroy the entry */
+            /* Yes, destroy the entry and replace it in the same position */
             dt->dstryf(e->key, e->data, dt);
-            buzzdarray_remove(dt->buckets[h], i);
-            --(dt->size);
-            break;
+            buzzdict_entry_new(dt, ne, key, data);
+            buzzdarray_set(dt->buckets[h], i, &ne);
+            return;
          }
       }
       /* Add new entry */
@@ -168,9 +168,13 @@ void buzzdict_foreach(buzzdict_t dt,
    for(i = 0; i < dt->num_buckets; ++i) {
       /* Is the bucket used? */
       if(dt->buckets[i] != NULL) {
-         /* Go through elements in the bucket */
-         for(j = 0; j < buzzdarray_size(dt->buckets[i]); ++j) {
-            const struct buzzdict_entry_s* e = &buzzdarray_get(dt->buckets[i], j, struct buzzdict_entry_s);
+         /* Go through elements in the bucket, last to first; the function
+          * can add elements, and it can update or remove the current one */
+         for(j = buzzdarray_size(dt->buckets[i]); j > 0; --j) {
+            /* The function might have emptied the bucket */
+            if(dt->buckets[i] == NULL) break;
+            if(j > buzzdarray_size(dt->buckets[i])) continue;
+            const struct buzzdict_entry_s* e = &buzzdarray_get(dt->buckets[i], j-1, struct buzzdict_entry_s);
             fun(e->key, e->data, params);
          }
       }
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 77be554..9a292d0 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -360,12 +360,17 @@ void buzzobj_map_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzobj_map_params* p = (struct buzzobj_map_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* Keep key and value on the stack: the closure could remove them from the table */
+   buzzobj_t k = *(buzzobj_t*)key;
+   buzzobj_t v = *(buzzobj_t*)data;
+   buzzvm_push(p->vm, k);
+   buzzvm_push(p->vm, v);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(p->vm);
    /* Push closure and params (key and value) */
    buzzvm_push(p->vm, p->fun);
-   buzzvm_push(p->vm, *(buzzobj_t*)key);
-   buzzvm_push(p->vm, *(buzzobj_t*)data);
+   buzzvm_push(p->vm, k);
+   buzzvm_push(p->vm, v);
    /* Call closure */
    p->vm->state = buzzvm_closure_call(p->vm, 2);
    if(p->vm->state != BUZZVM_STATE_READY) return;
@@ -380,12 +385,14 @@ void buzzobj_map_entry(const void* key, void* data, void* params) {
    /* Manage return value */
    buzzobj_t r = buzzvm_stack_at(p->vm, 1);
    if(r->o.type != BUZZTYPE_NIL) {
-      buzzdict_set(p->result, key, &r);
+      buzzdict_set(p->result, &k, &r);
    }
    else {
-      buzzdict_remove(p->result, key);
+      buzzdict_remove(p->result, &k);
    }
-   /* Get rid of return value */
+   /* Get rid of return value, value, and key */
+   buzzvm_pop(p->vm);
+   buzzvm_pop(p->vm);
    buzzvm_pop(p->vm);
 }
 
@@ -480,12 +487,17 @@ void buzzobj_filter_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzobj_filter_params* p = (struct buzzobj_filter_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* Keep key and value on the stack: the closure could remove them from the table */
+   buzzobj_t k = *(buzzobj_t*)key;
+   buzzobj_t v = *(buzzobj_t*)data;
+   buzzvm_push(p->vm, k);
+   buzzvm_push(p->vm, v);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(p->vm);
    /* Push closure and params (key and value) */
    buzzvm_push(p->vm, p->fun);
-   buzzvm_push(p->vm, *(buzzobj_t*)key);
-   buzzvm_push(p->vm, *(buzzobj_t*)data);
+   buzzvm_push(p->vm, k);
+   buzzvm_push(p->vm, v);
    /* Call closure */
    p->vm->state = buzzvm_closure_call(p->vm, 2);
    if(p->vm->state != BUZZVM_STATE_READY) return;
@@ -502,9 +514,11 @@ void buzzobj_filter_entry(const void* key, void* data, void* params) {
    if(retval->o.type != BUZZTYPE_NIL &&
       (retval->o.type != BUZZTYPE_INT ||
        retval->i.value != 0)) {
-      buzzdict_set(p->result, key, data);
+      buzzdict_set(p->result, &k, &v);
    }
-   /* Get rid of return value */
+   /* Get rid of return value, value, and key */
+   buzzvm_pop(p->vm);
+   buzzvm_pop(p->vm);
    buzzvm_pop(p->vm);
 }
 
-- 
2.43.0


From 667d4bd00327c49d002c1ae1057c834569560d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:45 +0000
Subject: [PATCH 26/97] fix: NaN is not equal to every number

---
 src/buzz/buzztype.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 9a292d0..ce64e6e 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -168,17 +168,17 @@ int buzzobj_cmp(const buzzobj_t a,
    if(a->o.type == BUZZTYPE_INT && b->o.type == BUZZTYPE_FLOAT) {
       if(a->i.value < b->f.value) return -1;
       if(a->i.value > b->f.value) return 1;
-      return 0;
+      return (a->i.value == b->f.value) ? 0 : 2;
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_INT) {
       if(a->f.value < b->i.value) return -1;
       if(a->f.value > b->i.value) return 1;
-      return 0;
+      return (a->f.value == b->i.value) ? 0 : 2;
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_FLOAT) {
       if(a->f.value < b->f.value) return -1;
       if(a->f.value > b->f.value) return 1;
-      return 0;
+      return (a->f.value == b->f.value) ? 0 : 2;
    }
    /* String and other types */
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_STRING) {
-- 
2.43.0


From 3008f2e90d55af6d2e208db624709651b40e32a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:45 +0000
Subject: [PATCH 27/97] fix: stigmergy keys 5 and "5" are distinct, and huge
 float keys are not undefined behavior

---
 src/buzz/buzzoutmsg.c |  2 +-
 src/buzz/buzztype.c   | 19 ++++++++++++-------
 src/buzz/buzztype.h   | 11 +++++++++++
 src/buzz/buzzvstig.c  |  2 +-
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index e7af5b1..dbcb2a8 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -57,7 +57,7 @@ uint32_t buzzoutmsg_obj_hash(const void* key) {
 }
 
 int buzzoutmsg_obj_cmp(const void* a, const void* b) {
-   return buzzobj_cmp(*(const buzzobj_t*)a, *(const buzzobj_t*)b);
+   return buzzobj_keycmp(*(const buzzobj_t*)a, *(const buzzobj_t*)b);
 }
 
 void buzzoutmsg_destroy(uint32_t pos, void* data, void* params) {
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index ce64e6e..531b76e 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -34,13 +34,15 @@ uint32_t buzzobj_table_hash(const void* key) {
    }
 }
 
-int buzzobj_table_keycmp(const void* a, const void* b) {
-   buzzobj_t x = *(buzzobj_t*)a;
-   buzzobj_t y = *(buzzobj_t*)b;
+int buzzobj_keycmp(const buzzobj_t a, const buzzobj_t b) {
    /* A string is never the same key as a number */
-   if((x->o.type == BUZZTYPE_STRING) != (y->o.type == BUZZTYPE_STRING))
-      return x->o.type == BUZZTYPE_STRING ? 1 : -1;
-   return buzzobj_cmp(x, y);
+   if((a->o.type == BUZZTYPE_STRING) != (b->o.type == BUZZTYPE_STRING))
+      return a->o.type == BUZZTYPE_STRING ? 1 : -1;
+   return buzzobj_cmp(a, b);
+}
+
+int buzzobj_table_keycmp(const void* a, const void* b) {
+   return buzzobj_keycmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
 }
 
 buzzobj_t buzzobj_new(uint16_t type) {
@@ -92,7 +94,10 @@ uint32_t buzzobj_hash(const buzzobj_t o) {
          return buzzdict_int32keyhash(&(o->i.value));
       }
       case BUZZTYPE_FLOAT: {
-         int32_t x = o->f.value;
+         /* Values out of range (and NaN) can't be converted to int */
+         int32_t x =
+            (o->f.value >= INT32_MIN && o->f.value < -(float)INT32_MIN) ?
+            o->f.value : 0;
          return buzzdict_int32keyhash(&x);
       }
       case BUZZTYPE_STRING: {
diff --git a/src/buzz/buzztype.h b/src/buzz/buzztype.h
index 92fe8c4..e550d34 100644
--- a/src/buzz/buzztype.h
+++ b/src/buzz/buzztype.h
@@ -164,6 +164,17 @@ extern "C" {
    extern int buzzobj_cmp(const buzzobj_t a,
                           const buzzobj_t b);
 
+   /*
+    * Compares two objects used as keys.
+    * Differently from buzzobj_cmp(), a string and a number are never
+    * the same key.
+    * @param a The first object.
+    * @param b The second object.
+    * @return 0 if the keys are the same, another value otherwise.
+    */
+   extern int buzzobj_keycmp(const buzzobj_t a,
+                             const buzzobj_t b);
+
    /*
     * C-closure to return the type of an object.
     * @param vm The VM data.
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 4d4b782..d07774b 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -50,7 +50,7 @@ uint32_t buzzvstig_key_hash(const void* key) {
 }
 
 int buzzvstig_key_cmp(const void* a, const void* b) {
-   return buzzobj_cmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
+   return buzzobj_keycmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
 }
 
 /****************************************/
-- 
2.43.0


From a953b672e8e546f083fe8573beee33281d8b90cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:45 +0000
Subject: [PATCH 28/97] fix: a closure as stigmergy key is an error, it does
 not abort the process

---
 src/buzz/buzzvstig.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index d07774b..1b343c8 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -25,6 +25,15 @@
    buzzvm_ ## METHOD(vm, VAL->FIELD);                       \
    buzzvm_tput(vm);
 
+#define key_assert(KEY)                                                 \
+   if(KEY->o.type == BUZZTYPE_CLOSURE) {                                \
+      buzzvm_seterror(vm,                                               \
+                      BUZZVM_ERROR_TYPE,                                \
+                      "a %s value can't be used as stigmergy key",      \
+                      buzztype_desc[KEY->o.type]);                      \
+      return vm->state;                                                 \
+   }
+
 /****************************************/
 /****************************************/
 
@@ -137,6 +146,7 @@ int64_t buzzvstig_elem_deserialize(buzzobj_t* key,
    /* Deserialize the key */
    p = buzzobj_deserialize(key, buf, p, vm);
    if(p < 0) return -1;
+   if((*key)->o.type == BUZZTYPE_CLOSURE) return -1;
    /* Deserialize the data */
    p = buzzobj_deserialize(&((*data)->data), buf, p, vm);
    if(p < 0) return -1;
@@ -195,6 +205,7 @@ int buzzvstig_put(buzzvm_t vm) {
    /* Get key */
    buzzvm_lload(vm, 1);
    buzzobj_t k = buzzvm_stack_at(vm, 1);
+   key_assert(k);
    /* Get value */
    buzzvm_lload(vm, 2);
    buzzobj_t v = buzzvm_stack_at(vm, 1);
@@ -311,6 +322,7 @@ int buzzvstig_get(buzzvm_t vm) {
    /* Get key */
    buzzvm_lload(vm, 1);
    buzzobj_t k = buzzvm_stack_at(vm, 1);
+   key_assert(k);
    /* Look for virtual stigmergy */
    const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
    if(vs) {
-- 
2.43.0


From 3cb9c8062167bd5a8e9dd1c0b29f757b0c492ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:45 +0000
Subject: [PATCH 29/97] fix: deleting a stigmergy element keeps its timestamp,
 so that later writes reach the other robots

---
 src/buzz/buzzvstig.c | 45 ++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 1b343c8..056bc8f 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -215,27 +215,15 @@ int buzzvstig_put(buzzvm_t vm) {
       /* Look for the element */
       const buzzvstig_elem_t* x = buzzvstig_fetch(*vs, &k);
       if(x) {
-         /* Element found */
-         if(v->o.type != BUZZTYPE_NIL) {
-            /* New value is not nil, update the existing element */
-            (*x)->data = v;
-            ++((*x)->timestamp);
-            (*x)->robot = vm->robot;
-            /* Append a PUT message to the out message queue */
-            buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, *x);
-         }
-         else {
-            /* New value is nil, must delete the existing element */
-            /* Make a new element with nil as value to update neighbors */
-            buzzvstig_elem_t y = buzzvstig_elem_new(
-               buzzobj_new(BUZZTYPE_NIL), // nil value
-               (*x)->timestamp + 1,       // new timestamp
-               vm->robot);                // robot id
-            /* Append a PUT message to the out message queue with nil in it */
-            buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, y);
-            /* Delete the existing element */
-            buzzvstig_remove(*vs, &k);
-         }
+         /* Element found, update it */
+         /* A nil value deletes the element; the entry is kept to remember
+          * its timestamp, otherwise the next put() would look older than
+          * the deletion to the other robots */
+         (*x)->data = v;
+         ++((*x)->timestamp);
+         (*x)->robot = vm->robot;
+         /* Append a PUT message to the out message queue */
+         buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, *x);
       }
       else if(v->o.type != BUZZTYPE_NIL) {
          /* Element not found and new value is not nil, store it */
@@ -261,6 +249,8 @@ void buzzvstig_foreach_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzvstig_foreach_params* p = (struct buzzvstig_foreach_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* Ignore deleted elements */
+   if((*(buzzvstig_elem_t*)data)->data->o.type == BUZZTYPE_NIL) return;
    /* Push closure and params (key, value, robot) */
    buzzvm_push(p->vm, p->fun);
    buzzvm_push(p->vm, *(buzzobj_t*)key);
@@ -268,6 +258,9 @@ void buzzvstig_foreach_entry(const void* key, void* data, void* params) {
    buzzvm_pushi(p->vm, (*(buzzvstig_elem_t*)data)->robot);
    /* Call closure */
    p->vm->state = buzzvm_closure_call(p->vm, 3);
+   if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* Get rid of the return value */
+   buzzvm_pop(p->vm);
 }
 
 int buzzvstig_foreach(struct buzzvm_s* vm) {
@@ -294,6 +287,12 @@ int buzzvstig_foreach(struct buzzvm_s* vm) {
 /****************************************/
 /****************************************/
 
+void buzzvstig_size_entry(const void* key, void* data, void* params) {
+   /* Deleted elements do not count */
+   if((*(buzzvstig_elem_t*)data)->data->o.type != BUZZTYPE_NIL)
+      ++(*(int32_t*)params);
+}
+
 int buzzvstig_size(buzzvm_t vm) {
    buzzvm_lnum_assert(vm, 0);
    /* Get vstig id */
@@ -302,7 +301,9 @@ int buzzvstig_size(buzzvm_t vm) {
    const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
    if(vs) {
       /* Virtual stigmergy found, return its size */
-      buzzvm_pushi(vm, buzzdict_size((*vs)->data));
+      int32_t size = 0;
+      buzzvstig_foreach_elem(*vs, buzzvstig_size_entry, &size);
+      buzzvm_pushi(vm, size);
    }
    else {
       /* Virtual stigmergy not found, return 0 */
-- 
2.43.0


From 7d18a1435f6672c84f71de0f01a141161745dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:45 +0000
Subject: [PATCH 30/97] fix: the result of a stigmergy conflict replaces the
 queued losing value

---
 src/buzz/buzzoutmsg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index dbcb2a8..f914c22 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -338,7 +338,11 @@ void buzzoutmsg_queue_append_vstig(buzzvm_t vm,
    int etype = -1, eidx = -1; /* No message to remove from the queue */
    if(e) {
       /* Yes; if the duplicate is newer than the passed message, nothing to do */
-      if((*e)->data->timestamp >= data->timestamp) return;
+      if((*e)->data->timestamp > data->timestamp) return;
+      /* Same for the same element; an element with the same timestamp but
+       * another robot is the result of a conflict and must be sent */
+      if((*e)->data->timestamp == data->timestamp &&
+         (*e)->data->robot == data->robot) return;
       /* The duplicate is older, store data to remove it later */
       etype = (*e)->type;
       eidx = buzzdarray_find(vm->outmsgs->queues[etype], buzzoutmsg_vstig_cmp, e);
-- 
2.43.0


From 6e87390e8495deef399a03ad40a8dede70a0a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:45 +0000
Subject: [PATCH 31/97] fix: an empty swarm list message does not leak

---
 src/buzz/buzzoutmsg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index f914c22..3dd833d 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -68,7 +68,7 @@ void buzzoutmsg_destroy(uint32_t pos, void* data, void* params) {
       case BUZZMSG_SWARM_JOIN:
       case BUZZMSG_SWARM_LEAVE:
       case BUZZMSG_SWARM_LIST:
-         if(m->sw.size > 0) free(m->sw.ids);
+         free(m->sw.ids);
          break;
       case BUZZMSG_VSTIG_PUT:
       case BUZZMSG_VSTIG_QUERY:
-- 
2.43.0


From a87cf393e0e03923c9260e429b986ad9de85e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:04 +0000
Subject: [PATCH 32/97] fix: messages still queued when the VM is destroyed are
 released

---
 src/buzz/buzzinmsg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buzz/buzzinmsg.c b/src/buzz/buzzinmsg.c
index 1185491..e26cf81 100644
--- a/src/buzz/buzzinmsg.c
+++ b/src/buzz/buzzinmsg.c
@@ -10,6 +10,12 @@
 
 void buzzvm_inmsg_queue_destroy_entry(const void* key, void* data, void* param) {
    free((void*)key);
+   /* Get rid of the payloads that were not processed */
+   buzzdarray_t q = *(buzzdarray_t*)data;
+   for(uint32_t i = 0; i < buzzdarray_size(q); ++i) {
+      buzzmsg_payload_t m = buzzdarray_get(q, i, buzzmsg_payload_t);
+      buzzmsg_payload_destroy(&m);
+   }
    buzzdarray_destroy((buzzdarray_t*)data);
    free(data);
 }
-- 
2.43.0


From 0e76dde5e4a46094b45ae5637abb807bbb209b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:04 +0000
Subject: [PATCH 33/97] fix: messages from the same robot are processed in the
 order in which they were received

---
 src/buzz/buzzinmsg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzinmsg.c b/src/buzz/buzzinmsg.c
index e26cf81..0ed56cf 100644
--- a/src/buzz/buzzinmsg.c
+++ b/src/buzz/buzzinmsg.c
@@ -65,9 +65,9 @@ int buzzinmsg_queue_extract(buzzvm_t vm,
          break;
       }
    }
-   /* Extract payload from array */
-   *payload = buzzdarray_last(q, buzzmsg_payload_t);
-   buzzdarray_pop(q);
+   /* Extract the oldest payload from array */
+   *payload = buzzdarray_get(q, 0, buzzmsg_payload_t);
+   buzzdarray_remove(q, 0);
    /* If array is empty, remove (id,array entry) from dict */
    if(buzzdarray_isempty(q))
       buzzdict_remove(vm->inmsgs, rid);
-- 
2.43.0


From fa267b72cc744ab0f53564214a5feb317afb0df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:47 +0000
Subject: [PATCH 34/97] fix: deserializing an integer does not shift into the
 sign bit

---
 src/buzz/buzzmsg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzmsg.c b/src/buzz/buzzmsg.c
index 640c9aa..ca84913 100644
--- a/src/buzz/buzzmsg.c
+++ b/src/buzz/buzzmsg.c
@@ -76,7 +76,7 @@ int64_t buzzmsg_deserialize_u32(uint32_t* data,
       buzzdarray_get(buf, pos,   uint8_t)         +
       (buzzdarray_get(buf, pos+1, uint8_t) << 8)  +
       (buzzdarray_get(buf, pos+2, uint8_t) << 16) +
-      (buzzdarray_get(buf, pos+3, uint8_t) << 24);
+      ((uint32_t)buzzdarray_get(buf, pos+3, uint8_t) << 24);
    *data = ntohl(*data);
    return pos + sizeof(uint32_t);
 }
-- 
2.43.0


From 3600e9203a23ba679e0e9db43a1bd2aee7b72221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:47 +0000
Subject: [PATCH 35/97] fix: infinite and NaN floats are preserved by
 serialization

---
 src/buzz/buzzmsg.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/buzz/buzzmsg.c b/src/buzz/buzzmsg.c
index ca84913..ef3452f 100644
--- a/src/buzz/buzzmsg.c
+++ b/src/buzz/buzzmsg.c
@@ -10,6 +10,10 @@
 
 static int32_t MAX_MANTISSA = 2147483646; // 2 << 31 - 2;
 
+/* Values of the mantissa that are never used for finite numbers */
+static int32_t INF_MANTISSA = 2147483647;
+static int32_t NAN_MANTISSA = -2147483647 - 1;
+
 /****************************************/
 /****************************************/
 
@@ -90,6 +94,13 @@ void buzzmsg_serialize_float(buzzdarray_t buf,
    int32_t mant;
    /* The exponent */
    int32_t exp;
+   /* Numbers that are not finite have no mantissa and exponent */
+   if(!isfinite(data)) {
+      mant = isnan(data) ? NAN_MANTISSA : (data < 0.0f ? -INF_MANTISSA : INF_MANTISSA);
+      buzzmsg_serialize_u32(buf, mant);
+      buzzmsg_serialize_u32(buf, 0);
+      return;
+   }
    /*
     * Split the data into a normalized fraction (nf) and an integral power of 2
     * when data == 0, nf = 0 and exp = 0
@@ -140,6 +151,12 @@ int64_t buzzmsg_deserialize_float(float* data,
    if(mant == 0) {
       *data = 0;
    }
+   else if(mant == NAN_MANTISSA) {
+      *data = NAN;
+   }
+   else if(abs(mant) == INF_MANTISSA) {
+      *data = mant < 0 ? -INFINITY : INFINITY;
+   }
    else {
       /* We must calculate the float
        *
-- 
2.43.0


From 3e0d926d4e13cbb15b936d82244fef8daa700b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:47 +0000
Subject: [PATCH 36/97] fix: serializing a string longer than 65535 characters
 does not corrupt what follows

---
 src/buzz/buzzmsg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzmsg.c b/src/buzz/buzzmsg.c
index ef3452f..8724d1c 100644
--- a/src/buzz/buzzmsg.c
+++ b/src/buzz/buzzmsg.c
@@ -185,12 +185,14 @@ int64_t buzzmsg_deserialize_float(float* data,
 void buzzmsg_serialize_string(buzzdarray_t buf,
                               const char* data) {
    /* Get the length of the string */
-   uint16_t len = strlen(data);
+   size_t slen = strlen(data);
+   /* The length is serialized with 16 bits, truncate longer strings */
+   uint16_t len = slen > UINT16_MAX ? UINT16_MAX : slen;
    /* Push that into the buffer */
    buzzmsg_serialize_u16(buf, len);
    /* Go through the characters and push them into the buffer */
    const char* c = data;
-   while(*c) {
+   while(c < data + len) {
       buzzdarray_push(buf, (uint8_t*)(c));
       ++c;
    }
-- 
2.43.0


From da1e10e51eb9c5a471e5c4776e8f768759cb19f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:47 +0000
Subject: [PATCH 37/97] fix: tables with more than 255 elements are serialized
 completely

---
 src/buzz/buzztype.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 531b76e..bdc8590 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -580,7 +580,7 @@ void buzzobj_serialize(buzzdarray_t buf,
          break;
       }
       case BUZZTYPE_TABLE: {
-         buzzmsg_serialize_u8(buf, buzzdict_size(data->t.value));
+         buzzmsg_serialize_u16(buf, buzzdict_size(data->t.value));
          buzzdict_foreach(data->t.value, buzzobj_serialize_tableelem, buf);
          break;
       }
@@ -640,9 +640,9 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
          return p;
       }
       case BUZZTYPE_TABLE: {
-         uint8_t size;
+         uint16_t size;
          uint16_t i;
-         p = buzzmsg_deserialize_u8(&size, buf, p);
+         p = buzzmsg_deserialize_u16(&size, buf, p);
          if(p < 0) return -1;
          for(i = 0; i < size; ++i) {
             buzzobj_t k;
-- 
2.43.0


From fb66ccd3b4b4ee42e922191bb8f5991ed388b913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:47 +0000
Subject: [PATCH 38/97] fix: an object that can't be serialized does not
 corrupt the rest of the message

---
 src/buzz/buzztype.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index bdc8590..aa1ba4c 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -562,6 +562,15 @@ void buzzobj_serialize_tableelem(const void* key, void* data, void* params) {
 
 void buzzobj_serialize(buzzdarray_t buf,
                        const buzzobj_t data) {
+   /* Objects that can't be serialized are replaced by nil */
+   if(data->o.type == BUZZTYPE_USERDATA ||
+      (data->o.type == BUZZTYPE_CLOSURE &&
+       buzzdarray_size(data->c.value.actrec) != 1)) {
+      fprintf(stderr, "[TODO] %s:%d: can't serialize a %s\n", __FILE__, __LINE__,
+              data->o.type == BUZZTYPE_USERDATA ? "userdata" : "nested closure");
+      buzzmsg_serialize_u8(buf, BUZZTYPE_NIL);
+      return;
+   }
    buzzmsg_serialize_u8(buf, data->o.type);
    switch(data->o.type) {
       case BUZZTYPE_NIL: {
@@ -594,13 +603,8 @@ void buzzobj_serialize(buzzdarray_t buf,
          // closures completely. The only supported cases are
          // serializing a function and the test case in
          // testmobilecode.bzz, which involves a table.
-         if(buzzdarray_size(data->c.value.actrec) == 1) {
-            buzzmsg_serialize_u8(buf, data->c.value.isnative);
-            buzzmsg_serialize_u32(buf, data->c.value.ref);
-         }
-         else {
-            fprintf(stderr, "[TODO] %s:%d: can't serialize a nested closure\n", __FILE__, __LINE__);
-         }
+         buzzmsg_serialize_u8(buf, data->c.value.isnative);
+         buzzmsg_serialize_u32(buf, data->c.value.ref);
          break;
       }
       default:
@@ -651,7 +655,9 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
             if(p < 0) return -1;
             p = buzzobj_deserialize(&v, buf, p, vm);
             if(p < 0) return -1;
-            buzzdict_set((*data)->t.value, &k, &v);
+            /* A nil value means that the table has no such element */
+            if(v->o.type != BUZZTYPE_NIL)
+               buzzdict_set((*data)->t.value, &k, &v);
          }
          return p;
       }
-- 
2.43.0


From aa59180003ff5918f07f8e4e65d7cca360c40308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:47 +0000
Subject: [PATCH 39/97] fix: malformed messages are discarded

---
 src/buzz/buzztype.c |  6 ++++++
 src/buzz/buzzvm.c   | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index aa1ba4c..5d1ae97 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -623,6 +623,8 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
    uint8_t type;
    p = buzzmsg_deserialize_u8(&type, buf, p);
    if(p < 0) return -1;
+   /* Discard types that can't be in a message */
+   if(type >= BUZZTYPE_USERDATA) return -1;
    *data = buzzheap_newobj(vm, type);
    switch(type) {
       case BUZZTYPE_NIL: {
@@ -653,6 +655,10 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
             buzzobj_t v;
             p = buzzobj_deserialize(&k, buf, p, vm);
             if(p < 0) return -1;
+            /* Make sure the key is valid */
+            if(k->o.type != BUZZTYPE_INT &&
+               k->o.type != BUZZTYPE_FLOAT &&
+               k->o.type != BUZZTYPE_STRING) return -1;
             p = buzzobj_deserialize(&v, buf, p, vm);
             if(p < 0) return -1;
             /* A nil value means that the table has no such element */
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index dde993d..75609a9 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -242,12 +242,21 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
       uint16_t rid;
       buzzmsg_payload_t msg;
       buzzinmsg_queue_extract(vm, &rid, &msg);
+      /* Discard empty messages */
+      if(buzzmsg_payload_size(msg) == 0) {
+         buzzmsg_payload_destroy(&msg);
+         continue;
+      }
       /* Dispatch the message wrt its type in msg->payload[0] */
       switch(buzzmsg_payload_get(msg, 0)) {
          case BUZZMSG_BROADCAST: {
             /* Deserialize the topic */
             buzzobj_t topic;
             int64_t pos = buzzobj_deserialize(&topic, msg, 1, vm);
+            if(pos < 0 || topic->o.type != BUZZTYPE_STRING) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make sure there's a listener to call */
             const buzzobj_t* l = buzzdict_get(vm->listeners, &topic->s.value.sid, buzzobj_t);
             if(!l) {
@@ -257,6 +266,10 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             /* Deserialize value */
             buzzobj_t value;
             pos = buzzobj_deserialize(&value, msg, pos, vm);
+            if(pos < 0) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make an object for the robot id */
             buzzobj_t rido = buzzheap_newobj(vm, BUZZTYPE_INT);
             rido->i.value = rid;
-- 
2.43.0


From a7cc608111bef630d68d34c61e3a3ea1fca85e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:47 +0000
Subject: [PATCH 40/97] fix: comparing a string with a huge float does not
 overflow a buffer

---
 src/buzz/buzztype.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 5d1ae97..9acfe89 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -191,23 +191,23 @@ int buzzobj_cmp(const buzzobj_t a,
    }
 
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_INT) {
-      char str[30];
+      char str[64];
       sprintf(str, "%d", b->i.value);
       return buzzobj_strcmp(a->s.value.str, str);
    }
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_FLOAT) {
-      char str[30];
+      char str[64];
       sprintf(str, "%f", b->f.value);
       return buzzobj_strcmp(a->s.value.str, str);
    }
 
    if(a->o.type == BUZZTYPE_INT && b->o.type == BUZZTYPE_STRING) {
-      char str[30];
+      char str[64];
       sprintf(str, "%d", a->i.value);
       return buzzobj_strcmp(str, b->s.value.str);
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_STRING) {
-      char str[30];
+      char str[64];
       sprintf(str, "%f", a->f.value);
       return buzzobj_strcmp(str, b->s.value.str);
    }
-- 
2.43.0


From c99d0092a46a113279178a7b16b5a476bc985690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:47 +0000
Subject: [PATCH 41/97] fix: cloning a table that contains itself terminates

---
 src/buzz/buzzheap.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzheap.c b/src/buzz/buzzheap.c
index f8b65f0..8edbafa 100644
--- a/src/buzz/buzzheap.c
+++ b/src/buzz/buzzheap.c
@@ -60,17 +60,38 @@ buzzobj_t buzzheap_newobj(buzzvm_t vm,
 
 struct buzzheap_clone_tableelem_s {
    buzzvm_t vm;
-   buzzdict_t t;
+   /* The table being cloned */
+   buzzobj_t orig;
+   /* The clone */
+   buzzobj_t copy;
+   /* The table that contains the one being cloned */
+   struct buzzheap_clone_tableelem_s* parent;
 };
 
+static buzzobj_t buzzheap_clone_nested(buzzvm_t vm,
+                                       const buzzobj_t o,
+                                       struct buzzheap_clone_tableelem_s* parent);
+
 void buzzheap_clone_tableelem(const void* key, void* data, void* params) {
    struct buzzheap_clone_tableelem_s* p = (struct buzzheap_clone_tableelem_s*)params;
    buzzobj_t k = buzzheap_clone(p->vm, *(buzzobj_t*)key);
-   buzzobj_t d = buzzheap_clone(p->vm, *(buzzobj_t*)data);
-   buzzdict_set(p->t, &k, &d);
+   buzzobj_t d = buzzheap_clone_nested(p->vm, *(buzzobj_t*)data, p);
+   buzzdict_set(p->copy->t.value, &k, &d);
 }
 
 buzzobj_t buzzheap_clone(buzzvm_t vm, const buzzobj_t o) {
+   return buzzheap_clone_nested(vm, o, NULL);
+}
+
+static buzzobj_t buzzheap_clone_nested(buzzvm_t vm,
+                                       const buzzobj_t o,
+                                       struct buzzheap_clone_tableelem_s* parent) {
+   /* A table that contains itself corresponds to a clone that contains itself */
+   if(o->o.type == BUZZTYPE_TABLE) {
+      struct buzzheap_clone_tableelem_s* a;
+      for(a = parent; a; a = a->parent)
+         if(a->orig == o) return a->copy;
+   }
    buzzobj_t x = (buzzobj_t)malloc(sizeof(union buzzobj_u));
    x->o.type = o->o.type;
    x->o.marker = o->o.marker;
@@ -112,7 +133,9 @@ buzzobj_t buzzheap_clone(buzzvm_t vm, const buzzobj_t o) {
                                    orig->dstryf);
          struct buzzheap_clone_tableelem_s p = {
             .vm = vm,
-            .t = x->t.value
+            .orig = o,
+            .copy = x,
+            .parent = parent
          };
          buzzdict_foreach(orig, buzzheap_clone_tableelem, &p);
          return x;
-- 
2.43.0


From 4f38ef138cf2bece3d71aacf9ce3cef28fdd9014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:47 +0000
Subject: [PATCH 42/97] fix: serializing a table that contains itself and
 deserializing deeply nested tables terminate

---
 src/buzz/buzztype.c | 62 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 9acfe89..55c4786 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -555,13 +555,47 @@ int buzzobj_filter(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+/* Maximum number of nested tables in a message */
+#define BUZZOBJ_SERIALIZE_MAX_DEPTH 128
+
+struct buzzobj_serialize_s {
+   /* The buffer */
+   buzzdarray_t buf;
+   /* The table being serialized */
+   buzzobj_t table;
+   /* The table that contains the one being serialized */
+   struct buzzobj_serialize_s* parent;
+};
+
+static void buzzobj_serialize_nested(buzzdarray_t buf,
+                                     const buzzobj_t data,
+                                     struct buzzobj_serialize_s* parent);
+
 void buzzobj_serialize_tableelem(const void* key, void* data, void* params) {
-   buzzobj_serialize((buzzdarray_t)params, *(buzzobj_t*)key);
-   buzzobj_serialize((buzzdarray_t)params, *(buzzobj_t*)data);
+   struct buzzobj_serialize_s* p = (struct buzzobj_serialize_s*)params;
+   buzzobj_serialize(p->buf, *(buzzobj_t*)key);
+   buzzobj_serialize_nested(p->buf, *(buzzobj_t*)data, p);
 }
 
 void buzzobj_serialize(buzzdarray_t buf,
                        const buzzobj_t data) {
+   buzzobj_serialize_nested(buf, data, NULL);
+}
+
+static void buzzobj_serialize_nested(buzzdarray_t buf,
+                                     const buzzobj_t data,
+                                     struct buzzobj_serialize_s* parent) {
+   /* A table that contains itself, or too deeply nested, is replaced by nil */
+   if(data->o.type == BUZZTYPE_TABLE) {
+      int depth = 0;
+      struct buzzobj_serialize_s* a;
+      for(a = parent; a && a->table != data; a = a->parent) ++depth;
+      if(a || depth >= BUZZOBJ_SERIALIZE_MAX_DEPTH) {
+         fprintf(stderr, "[TODO] %s:%d: can't serialize a cyclic table\n", __FILE__, __LINE__);
+         buzzmsg_serialize_u8(buf, BUZZTYPE_NIL);
+         return;
+      }
+   }
    /* Objects that can't be serialized are replaced by nil */
    if(data->o.type == BUZZTYPE_USERDATA ||
       (data->o.type == BUZZTYPE_CLOSURE &&
@@ -590,7 +624,8 @@ void buzzobj_serialize(buzzdarray_t buf,
       }
       case BUZZTYPE_TABLE: {
          buzzmsg_serialize_u16(buf, buzzdict_size(data->t.value));
-         buzzdict_foreach(data->t.value, buzzobj_serialize_tableelem, buf);
+         struct buzzobj_serialize_s p = { .buf = buf, .table = data, .parent = parent };
+         buzzdict_foreach(data->t.value, buzzobj_serialize_tableelem, &p);
          break;
       }
       case BUZZTYPE_CLOSURE: {
@@ -615,10 +650,11 @@ void buzzobj_serialize(buzzdarray_t buf,
 /****************************************/
 /****************************************/
 
-int64_t buzzobj_deserialize(buzzobj_t* data,
-                            buzzdarray_t buf,
-                            uint32_t pos,
-                            struct buzzvm_s* vm) {
+static int64_t buzzobj_deserialize_nested(buzzobj_t* data,
+                                          buzzdarray_t buf,
+                                          uint32_t pos,
+                                          struct buzzvm_s* vm,
+                                          int depth) {
    int64_t p = pos;
    uint8_t type;
    p = buzzmsg_deserialize_u8(&type, buf, p);
@@ -646,6 +682,7 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
          return p;
       }
       case BUZZTYPE_TABLE: {
+         if(depth >= BUZZOBJ_SERIALIZE_MAX_DEPTH) return -1;
          uint16_t size;
          uint16_t i;
          p = buzzmsg_deserialize_u16(&size, buf, p);
@@ -653,13 +690,13 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
          for(i = 0; i < size; ++i) {
             buzzobj_t k;
             buzzobj_t v;
-            p = buzzobj_deserialize(&k, buf, p, vm);
+            p = buzzobj_deserialize_nested(&k, buf, p, vm, depth + 1);
             if(p < 0) return -1;
             /* Make sure the key is valid */
             if(k->o.type != BUZZTYPE_INT &&
                k->o.type != BUZZTYPE_FLOAT &&
                k->o.type != BUZZTYPE_STRING) return -1;
-            p = buzzobj_deserialize(&v, buf, p, vm);
+            p = buzzobj_deserialize_nested(&v, buf, p, vm, depth + 1);
             if(p < 0) return -1;
             /* A nil value means that the table has no such element */
             if(v->o.type != BUZZTYPE_NIL)
@@ -680,6 +717,13 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
    }
 }
 
+int64_t buzzobj_deserialize(buzzobj_t* data,
+                            buzzdarray_t buf,
+                            uint32_t pos,
+                            struct buzzvm_s* vm) {
+   return buzzobj_deserialize_nested(data, buf, pos, vm, 0);
+}
+
 /****************************************/
 /****************************************/
 
-- 
2.43.0


From 10d9270dc096d5b02b70cf6d6cfcc94f93139bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:18 +0000
Subject: [PATCH 43/97] fix: calling a closure with an invalid address, as
 received from a message, is a VM error

---
 src/buzz/buzzvm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 75609a9..36590f9 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1127,10 +1127,15 @@ buzzvm_state buzzvm_call(buzzvm_t vm, int isswrm) {
    buzzobj_t c = buzzvm_stack_at(vm, argn+1);
    /* Make sure that that data about C closures is correct */
    if((!c->c.value.isnative) &&
-      ((c->c.value.ref) >= buzzdarray_size(vm->flist))) {
+      (c->c.value.ref < 0 ||
+       c->c.value.ref >= buzzdarray_size(vm->flist))) {
       buzzvm_seterror(vm, BUZZVM_ERROR_FLIST, NULL);
       return vm->state;
    }
+   /* Make sure that the address of native closures is correct */
+   if(c->c.value.isnative) {
+      assert_pc(c->c.value.ref);
+   }
    /* Create a new local symbol list copying the parent's */
    vm->lsyms =
       buzzvm_lsyms_new(isswrm,
-- 
2.43.0


From d7e5e2cfe1f13db124559e305ac97ea8c5c0f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:18 +0000
Subject: [PATCH 44/97] fix: executing past the end of the bytecode is a VM
 error

---
 src/buzz/buzzvm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 36590f9..1e5dd93 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -686,7 +686,7 @@ int buzzvm_set_bcode(buzzvm_t vm,
       /* Store string */
       buzzvm_string_register(vm, (char*)(bcode + i), 1);
       /* Advance to first character of next string */
-      while(*(bcode + i) != 0) ++i;
+      while((i < bcode_size) && *(bcode + i) != 0) ++i;
       ++i;
    }
    /* Initialize VM state */
@@ -702,7 +702,7 @@ int buzzvm_set_bcode(buzzvm_t vm,
     * Register function definitions
     * Stop when you find a 'nop'
     */
-   while(vm->bcode[vm->pc] != BUZZVM_INSTR_NOP)
+   while((vm->pc >= vm->bcode_size) || vm->bcode[vm->pc] != BUZZVM_INSTR_NOP)
       if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
    buzzvm_step(vm);
    /* Initialize empty neighbors */
@@ -743,6 +743,7 @@ buzzvm_state buzzvm_step(buzzvm_t vm) {
    /* Execute GC */
    buzzheap_gc(vm);
    /* Fetch instruction and (potential) argument */
+   assert_pc(vm->pc);
    uint8_t instr = vm->bcode[vm->pc];
    /* Execute instruction */
    switch(instr) {
-- 
2.43.0


From 616bd4fb4c8dc2998dc7847bd0c1151b531b96cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:07 +0000
Subject: [PATCH 45/97] fix: string.sub() with a negative index does not read
 out of bounds

---
 src/buzz/buzzstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 288dc7e..1a25d74 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -71,7 +71,7 @@ int buzzstring_sub(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    int32_t n = buzzvm_stack_at(vm, 1)->i.value;
-   if(n >= ls) {
+   if(n < 0 || n >= ls) {
       /* Out of bounds */
       buzzvm_pushnil(vm);
       return buzzvm_ret1(vm);
-- 
2.43.0


From 1dde181dd82564fc5bbac98200d629eb0198fa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:07 +0000
Subject: [PATCH 46/97] fix: string.tostring() of an object that is not a
 number is nil

---
 src/buzz/buzzstring.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 1a25d74..a497cb6 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -152,10 +152,11 @@ int buzzstring_tostring(buzzvm_t vm) {
       o->o.type != BUZZTYPE_FLOAT) {
       /* Can't convert */
       buzzvm_pushnil(vm);
+      return buzzvm_ret1(vm);
    }
    /* Perform conversion */
    char* str;
-   if(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_INT)
+   if(o->o.type == BUZZTYPE_INT)
       asprintf(&str, "%" PRId32, o->i.value);
    else
       asprintf(&str, "%f", o->f.value);
-- 
2.43.0


From 3238d0c254a8d8ad19d94a680d0fe10e749909c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:07 +0000
Subject: [PATCH 47/97] fix: string.toint() of a number that is not an int is
 nil

---
 src/buzz/buzzstring.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index a497cb6..7ad7586 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -179,10 +179,11 @@ int buzzstring_toint(buzzvm_t vm) {
    /* Convert the string to int */
    char* endptr;
    errno = 0;
-   int32_t i = strtol(s, &endptr, 10);
+   long i = strtol(s, &endptr, 10);
    /* Was the conversion successful? */
-   if((errno != 0 && i == 0) || /* An error occurred */
-      (endptr == s)) {          /* No digit found */
+   if((errno != 0) ||                     /* An error occurred */
+      (i < INT32_MIN || i > INT32_MAX) || /* Not an int */
+      (endptr == s)) {                    /* No digit found */
       /* Yes, an error occurred */
       buzzvm_pushnil(vm);
    }
-- 
2.43.0


From f692f098717a99b85b1a6baf961e19523ced9394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:07 +0000
Subject: [PATCH 48/97] fix: converting a float out of range to int and abs()
 of the smallest int are not undefined behavior

---
 src/buzz/buzzmath.c |  8 ++++----
 src/buzz/buzztype.c | 12 +++++++++++-
 src/buzz/buzztype.h |  9 +++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index a2479cb..1fdd6eb 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -149,7 +149,7 @@ int buzzmath_abs(buzzvm_t vm) {
    buzzvm_lload(vm, 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    if(o->o.type == BUZZTYPE_FLOAT)    buzzvm_pushf(vm, fabsf(o->f.value));
-   else if(o->o.type == BUZZTYPE_INT) buzzvm_pushi(vm, abs(o->i.value));
+   else if(o->o.type == BUZZTYPE_INT) buzzvm_pushi(vm, o->i.value < 0 ? (int32_t)-(uint32_t)o->i.value : o->i.value);
    else buzzmath_error(o);
    /* Return result */
    return buzzvm_ret1(vm);
@@ -163,7 +163,7 @@ int buzzmath_floor(buzzvm_t vm) {
    /* Get argument */
    buzzvm_lload(vm, 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
-   if(o->o.type == BUZZTYPE_FLOAT)    buzzvm_pushi(vm, floor(o->f.value));
+   if(o->o.type == BUZZTYPE_FLOAT)    buzzvm_pushi(vm, buzzobj_ftoi(floorf(o->f.value)));
    else if(o->o.type == BUZZTYPE_INT) buzzvm_pushi(vm, o->i.value);
    else buzzmath_error(o);
    /* Return result */
@@ -178,7 +178,7 @@ int buzzmath_ceil(buzzvm_t vm) {
    /* Get argument */
    buzzvm_lload(vm, 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
-   if(o->o.type == BUZZTYPE_FLOAT)    buzzvm_pushi(vm, ceil(o->f.value));
+   if(o->o.type == BUZZTYPE_FLOAT)    buzzvm_pushi(vm, buzzobj_ftoi(ceilf(o->f.value)));
    else if(o->o.type == BUZZTYPE_INT) buzzvm_pushi(vm, o->i.value);
    else buzzmath_error(o);
    /* Return result */
@@ -193,7 +193,7 @@ int buzzmath_round(buzzvm_t vm) {
    /* Get argument */
    buzzvm_lload(vm, 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
-   if(o->o.type == BUZZTYPE_FLOAT)    buzzvm_pushi(vm, round(o->f.value));
+   if(o->o.type == BUZZTYPE_FLOAT)    buzzvm_pushi(vm, buzzobj_ftoi(roundf(o->f.value)));
    else if(o->o.type == BUZZTYPE_INT) buzzvm_pushi(vm, o->i.value);
    else buzzmath_error(o);
    /* Return result */
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 55c4786..a592c1d 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -259,6 +259,16 @@ int buzzobj_type(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+int32_t buzzobj_ftoi(float f) {
+   if(f != f) return 0;
+   if(f >= -(float)INT32_MIN) return INT32_MAX;
+   if(f < (float)INT32_MIN) return INT32_MIN;
+   return f;
+}
+
+/****************************************/
+/****************************************/
+
 int buzzobj_int(struct buzzvm_s* vm) {
    /* Get float parameter and make sure it's a float */
    buzzvm_lnum_assert(vm, 1);
@@ -266,7 +276,7 @@ int buzzobj_int(struct buzzvm_s* vm) {
    buzzvm_type_assert(vm, 1, BUZZTYPE_FLOAT);
    buzzobj_t f = buzzvm_stack_at(vm, 1);
    buzzvm_pop(vm);
-   buzzvm_pushi(vm, f->f.value);
+   buzzvm_pushi(vm, buzzobj_ftoi(f->f.value));
    return buzzvm_ret1(vm);
 }
 
diff --git a/src/buzz/buzztype.h b/src/buzz/buzztype.h
index e550d34..90dcca1 100644
--- a/src/buzz/buzztype.h
+++ b/src/buzz/buzztype.h
@@ -147,6 +147,15 @@ extern "C" {
    extern int buzzobj_eq(const buzzobj_t a,
                          const buzzobj_t b);
 
+   /*
+    * Converts a float to an int.
+    * The fractional part is discarded. Values that exceed the range of
+    * int are converted to the closest limit, and NaN is converted to 0.
+    * @param f The float.
+    * @return The int.
+    */
+   extern int32_t buzzobj_ftoi(float f);
+
    /*
     * Compares two Buzz objects.
     * Returns:
-- 
2.43.0


From 8f4bae0bdf3aaa2ed8af1ef0a8c4f0fb76ec4162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:07 +0000
Subject: [PATCH 49/97] fix: math.rng.uniform() of negative integers or of a
 large interval is within the limits

---
 src/buzz/buzzmath.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index 1fdd6eb..f66084b 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -502,7 +502,7 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
       if(max->o.type == BUZZTYPE_INT) {
          /* Integer value */
          buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * max->i.value / INT_MAX);
+                      (int64_t)mt_uniform32(vm) * max->i.value / (int64_t)INT_MAX);
       }
       else if(max->o.type == BUZZTYPE_FLOAT) {
          /* Float value */
@@ -521,7 +521,7 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
          max->o.type == BUZZTYPE_INT) {
          /* Both integers */
          buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->i.value - min->i.value) / INT_MAX + min->i.value);
+                      (int64_t)((double)mt_uniform32(vm) * ((int64_t)max->i.value - min->i.value) / INT_MAX) + min->i.value);
       }
       else if(min->o.type == BUZZTYPE_FLOAT &&
               max->o.type == BUZZTYPE_INT) {
-- 
2.43.0


From 85452a9c38ff8171e8c81a3a9096bcd77cf26b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:07 +0000
Subject: [PATCH 50/97] fix: math.rng.gaussian() accepts one argument and
 considers the second

---
 src/buzz/buzzmath.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index f66084b..cb2fcba 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -594,7 +594,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
       }
       if(buzzvm_lnum(vm) == 2) {
          /* Take second argument */
-         buzzvm_lload(vm, 1);
+         buzzvm_lload(vm, 2);
          o = buzzvm_stack_at(vm, 1);
          if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
          else if(o->o.type == BUZZTYPE_INT) mean = o->i.value;
@@ -608,7 +608,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
             return vm->state;
          }
       }
-      else {
+      else if(buzzvm_lnum(vm) > 2) {
          /* Error */
          buzzvm_seterror(vm,
                          BUZZVM_ERROR_LNUM,
@@ -627,7 +627,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
       n2 = (float)mt_uniform32(vm) * 2.0f / INT_MAX - 1.0;
       sq = n1 * n1 + n2 * n2;
    }
-   while(sq >= 1.0f);
+   while(sq >= 1.0f || sq == 0.0f);
    buzzvm_pushf(vm,
                 mean + stddev * n1 * sqrt(-2.0f * logf(sq) / sq));
    return buzzvm_ret1(vm);
-- 
2.43.0


From f350affe519c796703d19d58b94309ad5eff1c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:07 +0000
Subject: [PATCH 51/97] fix: math.rng.exponential() reads its argument and is
 never infinite

---
 src/buzz/buzzmath.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index cb2fcba..18358e1 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -639,13 +639,14 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
 int buzzmath_rng_exponential(buzzvm_t vm) {
    /* Get the mean */
    buzzvm_lnum_assert(vm, 1);
+   buzzvm_lload(vm, 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    float mean;
    if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
    else if(o->o.type == BUZZTYPE_INT) mean = o->i.value;
    else buzzmath_error(o);
    /* Push result */
-   buzzvm_pushf(vm, -logf((float)mt_uniform32(vm) / INT_MAX) * mean);
+   buzzvm_pushf(vm, -logf(((float)mt_uniform32(vm) + 1.0f) / ((float)INT_MAX + 1.0f)) * mean);
    return buzzvm_ret1(vm);
 }
 
-- 
2.43.0


From 4e7b74512d5bfa6e99b37608685df92608a7ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 52/97] fix: io.fforeach() keeps the stack balanced and
 initializes its buffer

---
 src/buzz/buzzio.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index e1d6a1f..5763b46 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -159,7 +159,7 @@ int buzzio_fforeach(buzzvm_t vm) {
    buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
    /* Go through the file lines */
    int vmstate = vm->state;
-   size_t cap; /* line buffer capacity */
+   size_t cap = 0; /* line buffer capacity */
    char* line = NULL;
    ssize_t len = getline(&line, &cap, f);
    while(len >= 0 &&
@@ -175,8 +175,6 @@ int buzzio_fforeach(buzzvm_t vm) {
       buzzvm_pop(vm);
       /* Next line */
       len = getline(&line, &cap, f);
-      /* Remove the nil (return value) left by closure_call */
-      buzzvm_pop(vm);
    }
    /* Register error information */
    buzzio_update_error(vm);
-- 
2.43.0


From 7462494e077f15266122e409f2ef557437bd935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 53/97] fix: using a file that is not open is a type error

---
 src/buzz/buzzio.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index 5763b46..ec36e41 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -17,6 +17,7 @@
    buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);                 \
    buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1)); \
    buzzvm_tget(vm);                                           \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_USERDATA);              \
    FILE* VAR = buzzvm_stack_at(vm, 1)->u.value;               \
    buzzvm_pop(vm);
 
@@ -117,6 +118,11 @@ int buzzio_fclose(buzzvm_t vm) {
    filehandle_get(f);
    /* Close the file */
    fclose(f);
+   /* The handle can't be used any longer */
+   buzzvm_lload(vm, 1);
+   buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1));
+   buzzvm_pushnil(vm);
+   buzzvm_tput(vm);
    /* Register error information */
    buzzio_update_error(vm);
    /* All done */
-- 
2.43.0


From f0686167b72980bed6ebedf5f25d6f6023c7afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 54/97] fix: io.errno refers to the last operation

---
 src/buzz/buzzio.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index ec36e41..7274f2e 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -81,6 +81,7 @@ int buzzio_fopen(buzzvm_t vm) {
    const char* fmode = buzzvm_stack_at(vm, 1)->s.value.str;
    buzzvm_pop(vm);
    /* Try to open the file */
+   errno = 0;
    FILE* f = fopen(fname, fmode);
    /* Register error information */
    buzzio_update_error(vm);
@@ -117,6 +118,7 @@ int buzzio_fclose(buzzvm_t vm) {
    /* Get file handle */
    filehandle_get(f);
    /* Close the file */
+   errno = 0;
    fclose(f);
    /* The handle can't be used any longer */
    buzzvm_lload(vm, 1);
@@ -138,6 +140,7 @@ int buzzio_fsize(buzzvm_t vm) {
    /* Get file handle */
    filehandle_get(f);
    /* Remember the current position */
+   errno = 0;
    long int cur = ftell(f);
    /* Get the file size */
    fseek(f, 0, SEEK_END);
@@ -167,6 +170,7 @@ int buzzio_fforeach(buzzvm_t vm) {
    int vmstate = vm->state;
    size_t cap = 0; /* line buffer capacity */
    char* line = NULL;
+   errno = 0;
    ssize_t len = getline(&line, &cap, f);
    while(len >= 0 &&
          vmstate == BUZZVM_STATE_READY) {
@@ -180,6 +184,7 @@ int buzzio_fforeach(buzzvm_t vm) {
       vmstate = buzzvm_closure_call(vm, 1);
       buzzvm_pop(vm);
       /* Next line */
+      errno = 0;
       len = getline(&line, &cap, f);
    }
    /* Register error information */
@@ -205,6 +210,7 @@ int buzzio_fwrite(buzzvm_t vm) {
    int err = 0;
    /* Get file handle */
    filehandle_get(f);
+   errno = 0;
    /* Go through the arguments */
    for(int i = 2; err >= 0 && i <= buzzvm_lnum(vm); ++i) {
       /* Get argument */
-- 
2.43.0


From 8f52a37d15b3c447e813294f555935c2d88c9d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:45 +0000
Subject: [PATCH 55/97] fix: removing an element from a set releases that
 element only

---
 src/buzz/buzzset.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzset.c b/src/buzz/buzzset.c
index 5126bc2..7a123db 100644
--- a/src/buzz/buzzset.c
+++ b/src/buzz/buzzset.c
@@ -91,6 +91,23 @@ static buzzset_tree_t buzzset_tree_find_min(buzzset_tree_t n) {
 /****************************************/
 /****************************************/
 
+/* Removes the smallest node from a tree */
+static buzzset_tree_t buzzset_tree_remove_min(buzzset_t s,
+                                              buzzset_tree_t n) {
+   if(n->left) {
+      n->left = buzzset_tree_remove_min(s, n->left);
+      return n;
+   }
+   buzzset_tree_t x = n->right;
+   if(s->dstryf) s->dstryf(n->data, NULL);
+   free(n->data);
+   free(n);
+   return x;
+}
+
+/****************************************/
+/****************************************/
+
 /* Removes a node with the given data from the tree */
 static buzzset_tree_t buzzset_tree_remove(buzzset_t s,
                                           buzzset_tree_t n,
@@ -112,10 +129,10 @@ static buzzset_tree_t buzzset_tree_remove(buzzset_t s,
    else {
       /* We found the node to remove */
       *removed = 1;
-      /* Get rid of the data */
-      if(s->dstryf) s->dstryf(n->data, NULL);
       /* If the node has no children, simply remove it */
       if(!n->left && !n->right) {
+         if(s->dstryf) s->dstryf(n->data, NULL);
+         free(n->data);
          free(n);
          n = NULL;
       }
@@ -124,21 +141,27 @@ static buzzset_tree_t buzzset_tree_remove(buzzset_t s,
       else if(!n->right) {
          buzzset_tree_t x = n;
          n = n->left;
+         if(s->dstryf) s->dstryf(x->data, NULL);
+         free(x->data);
          free(x);
       }
       else if(!n->left) {
          buzzset_tree_t x = n;
          n = n->right;
+         if(s->dstryf) s->dstryf(x->data, NULL);
+         free(x->data);
          free(x);
       }
       /* Both children exist for this node */
       else {
          /* Look for the minimum id on the right of the node to eliminate */
          buzzset_tree_t m = buzzset_tree_find_min(n->right);
-         /* Copy its value over the current root */
+         /* Swap its value with that of the current root */
+         void* x = n->data;
          n->data = m->data;
-         /* Delete the minimum node */
-         n->right = buzzset_tree_remove(s, n->right, m->data, removed);
+         m->data = x;
+         /* Delete the minimum node, which is smaller than the others */
+         n->right = buzzset_tree_remove_min(s, n->right);
       }
    }
    return n;
-- 
2.43.0


From 31f5b35b00b44ffbbd261111b9272978973c697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:11 +0000
Subject: [PATCH 56/97] fix: reading debug information with a long file name
 does not overflow a buffer

---
 src/buzz/buzzdebug.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index f5317c3..e3ea55d 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -120,7 +120,8 @@ int buzzdebug_fromfile(buzzdebug_t dbg,
    /* Keep reading until you reach the end of the data or an error */
    uint32_t offset;
    uint64_t line, col;
-   uint16_t srcfnlen, srcfnlenmax = 512;
+   uint16_t srcfnlen;
+   uint32_t srcfnlenmax = 512;
    char* srcfname = (char*)malloc(srcfnlenmax);
    /* char fepmark; */
    while(!feof(fd) && !ferror(fd)) {
@@ -130,7 +131,7 @@ int buzzdebug_fromfile(buzzdebug_t dbg,
          fread(&col,      sizeof(col),      1, fd) == 1 &&
          fread(&srcfnlen, sizeof(srcfnlen), 1, fd) == 1) {
          /* Read source file name, resizing buffer if necessary */
-         if(srcfnlen > srcfnlenmax) {
+         if(srcfnlen >= srcfnlenmax) {
             srcfnlenmax = srcfnlen + 1;
             srcfname = realloc(srcfname, srcfnlenmax);
          }
-- 
2.43.0


From b57600bd13ecd1389210d90476d03f8c4ec2f867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:11 +0000
Subject: [PATCH 57/97] fix: execution can continue past a breakpoint, and a
 breakpoint does not hide the end or an error

---
 src/buzz/buzzdebug.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index e3ea55d..88ccaf8 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -284,14 +284,17 @@ buzzvm_state buzzdebug_continue(buzzvm_t vm,
                                 buzzdebug_t dbg) {
    /* Make sure the VM is either ready or stopped */
    if(vm->state != BUZZVM_STATE_READY) {
-      if(vm->state == BUZZVM_STATE_STOPPED)
+      if(vm->state == BUZZVM_STATE_STOPPED) {
          vm->state = BUZZVM_STATE_READY;
+         /* Execute the instruction at the breakpoint */
+         if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
+      }
       else return vm->state;
    }
    /* Go on until the end, an error, or a breakpoint */
    while(!buzzdebug_breakpoint_exists(dbg, vm->pc) &&
          buzzvm_step(vm) == BUZZVM_STATE_READY);
-   if(buzzdebug_breakpoint_exists(dbg, vm->pc))
+   if(vm->state == BUZZVM_STATE_READY)
       vm->state = BUZZVM_STATE_STOPPED;
    return vm->state;
 }
-- 
2.43.0


From b594da30b6a448e7d4e99c7ca7f3ff3fefd14d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:08 +0000
Subject: [PATCH 58/97] fix: the closing quote is not part of a string with
 escape sequences

---
 src/buzz/buzzlex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index f80003f..a14102f 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -144,7 +144,8 @@ static char* buzzlex_newstring(const char* s,
    /* Pointer for current current */
    char* pns = ns;
    /* Go through original string */
-   for(size_t i = 0; i < len; ++i) {
+   const char* end = s + len;
+   while(s < end) {
       /* Escape sequence? */
       if(*s != '\\') {
          /* No, normal character - just copy it */
-- 
2.43.0


From 27553808ed0292741bd752f61c2ba6030b9714bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:08 +0000
Subject: [PATCH 59/97] fix: strings that end with escaped backslashes, and
 line numbers after strings with newlines

---
 src/buzz/buzzlex.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index a14102f..f4ce663 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -560,16 +560,22 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
    else if(buzzlex_isquote(c)) {
       /* String - eat any character until you find the next matching quote */
       size_t start = lexf->cur_c;
-      char last1 = 0, last2 = 0;
+      uint64_t startline = lexf->cur_line;
       while(lexf->cur_c < lexf->buf_size &&    /* Not end of stream */
-            ((lexf->buf[lexf->cur_c] != c) ||  /* Matching quote not found */
-             (lexf->buf[lexf->cur_c] == c &&   /* Matching quote found, but preceded by \ and not \\ */
-              last1 == '\\' && last2 != '\\'))) {
-         /* Remember the last two characters read */
-         last2 = last1;
-         last1 = lexf->buf[lexf->cur_c];
+            lexf->buf[lexf->cur_c] != c) {     /* Matching quote not found */
+         /* The character after a \ can't close the string */
+         if(lexf->buf[lexf->cur_c] == '\\' &&
+            lexf->cur_c + 1 < lexf->buf_size) {
+            nextchar();
+         }
+         /* Keep track of the lines */
+         int newline = (lexf->buf[lexf->cur_c] == '\n');
          /* Keep parsing the string */
          nextchar();
+         if(newline) {
+            ++lexf->cur_line;
+            lexf->cur_col = 0;
+         }
       }
       /* End of stream? Syntax error */
       if(lexf->cur_c >= lexf->buf_size) {
@@ -586,7 +592,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
       nextchar();
       return buzzlex_newtok(BUZZTOK_STRING,
                             val,
-                            lexf->cur_line,
+                            startline,
                             tokstart,
                             lexf->fname);
    }
-- 
2.43.0


From ceff516d6bc7ea4953edf163f6997f69fd7e5f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:08 +0000
Subject: [PATCH 60/97] fix: identifiers can start with include

---
 src/buzz/buzzlex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index f4ce663..a8f4670 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -308,7 +308,8 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
             ++lexf->cur_c;
          }
       }
-      else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0) {
+      else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0 &&
+              !buzzlex_isid(lexf->buf[lexf->cur_c + 7])) {
          /* Manage file inclusion */
          lexf->cur_c += 7;
          lexf->cur_col += 7;
-- 
2.43.0


From d24ca5712ad7999a1b6a302ec32876d8145300ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:08 +0000
Subject: [PATCH 61/97] fix: reading a token after the end of the script is not
 out of bounds

---
 src/buzz/buzzlex.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index a8f4670..8f40224 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -119,7 +119,7 @@ static int buzzlex_isspace(char c) {
 }
 
 static int buzzlex_isid(char c) {
-   return isalnum(c) || (c == '_');
+   return isalnum((unsigned char)c) || (c == '_');
 }
 
 static int buzzlex_isarithlogic(char c) {
@@ -131,7 +131,7 @@ static int buzzlex_isquote(char c) {
 }
 
 static int buzzlex_isnumber(char c) {
-   return isdigit(c) || (c == '.');
+   return isdigit((unsigned char)c) || (c == '.');
 }
 
 /****************************************/
@@ -262,6 +262,8 @@ buzzlex_t buzzlex_new(const char* fname) {
                             lexf->fname);
 
 buzztok_t buzzlex_nexttok(buzzlex_t lex) {
+   /* Nothing left to read? */
+   if(buzzdarray_isempty(lex)) return eoftok;
    buzzlex_file_t lexf = buzzlex_getfile(lex);
    do {
       /* Look for a non-space character */
@@ -410,7 +412,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
    /* If we get here, it's because we found either a constant, an
     * identifier, a keyword, an assignment, a comparison operator,
     * an arithmetic operator, or an unexpected character */
-   if(isdigit(c)) {
+   if(isdigit((unsigned char)c)) {
       /* It's a constant */
       readval(buzzlex_isnumber);
       return buzzlex_newtok(BUZZTOK_CONST,
@@ -419,7 +421,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
                             tokstart,
                             lexf->fname);
    }
-   else if(isalpha(c)) {
+   else if(isalpha((unsigned char)c)) {
       /* It's either a keyword or an identifier */
       readval(buzzlex_isid);
       /* Go through the possible keywords */
-- 
2.43.0


From c0ba8fd6982c53ba911c02e98347ca57d7f3fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:08 +0000
Subject: [PATCH 62/97] fix: the last statement of a script has a position in
 the debug information

---
 src/buzz/buzzlex.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 8f40224..6c4f21c 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -276,10 +276,17 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
          /* End of stream? */
          if(lexf->cur_c >= lexf->buf_size) {
             /* Done with current file, go back to previous */
-            buzzdarray_pop(lex);
-            if(buzzdarray_isempty(lex))
+            if(buzzdarray_size(lex) == 1) {
                /* No file to go back to, done parsing */
-               return eoftok;
+               buzztok_t tok = buzzlex_newtok(BUZZTOK_EOF,
+                                              NULL,
+                                              lexf->cur_line,
+                                              lexf->cur_col,
+                                              lexf->fname);
+               buzzdarray_pop(lex);
+               return tok;
+            }
+            buzzdarray_pop(lex);
             lexf = buzzlex_getfile(lex);
          }
          else
@@ -297,10 +304,17 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
          /* End of stream? */
          if(lexf->cur_c >= lexf->buf_size) {
             /* Done with current file, go back to previous */
-            buzzdarray_pop(lex);
-            if(buzzdarray_isempty(lex))
+            if(buzzdarray_size(lex) == 1) {
                /* No file to go back to, done parsing */
-               return eoftok;
+               buzztok_t tok = buzzlex_newtok(BUZZTOK_EOF,
+                                              NULL,
+                                              lexf->cur_line,
+                                              lexf->cur_col,
+                                              lexf->fname);
+               buzzdarray_pop(lex);
+               return tok;
+            }
+            buzzdarray_pop(lex);
             lexf = buzzlex_getfile(lex);
          }
          else {
-- 
2.43.0


From ccd793f19d03d7555740aa23d883a0e6b3138987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:08 +0000
Subject: [PATCH 63/97] fix: a script with a lexical error or an unmatched } is
 not compiled as if it ended there

---
 src/buzz/buzzparser.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index e568048..9d7a1af 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -425,13 +425,26 @@ int parse_script(buzzparser_t par) {
       buzzlex_destroytok(&par->tok);
       par->tok = buzzlex_nexttok(par->lex);
    }
-   if(par->tok->type == BUZZTOK_EOF) return PARSE_OK;
+   /* Make sure that reading the first token did not fail */
+   if(par->tok->type == BUZZTOK_EOF)
+      return buzzlex_done(par->lex) ? PARSE_OK : PARSE_ERROR;
    /* Add a symbol table */
    symt_push();
    /* Add the first chunk for the global scope */
    chunk_push(0);
    /* Parse the statements */
    if(!parse_statlist(par)) return PARSE_ERROR;
+   /* Make sure that the script was read completely */
+   if(par->tok->type != BUZZTOK_EOF) {
+      fprintf(stderr,
+              "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected end of file, found %s\n",
+              buzzlex_getfile(par->lex)->fname,
+              par->tok->line,
+              par->tok->col,
+              buzztok_desc[par->tok->type]);
+      return PARSE_ERROR;
+   }
+   if(!buzzlex_done(par->lex)) return PARSE_ERROR;
    /* Finalize the output */
    chunk_append("\n@__exitpoint");
    chunk_append("\tdone");
@@ -1388,6 +1401,7 @@ buzzparser_t buzzparser_new(int argc,
    /* Initialize symbol table stack */
    par->symstack = buzzdarray_new(10, sizeof(buzzdict_t), symt_destroy);
    par->syms = NULL;
+   par->tok = NULL;
    /* Initialize string list */
    par->strings = buzzdict_new(100,
                                sizeof(char*),
-- 
2.43.0


From 8881488fad1680dcffab38446a68476140239fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:45 +0000
Subject: [PATCH 64/97] fix: an empty script terminates correctly

---
 src/buzz/buzzparser.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 9d7a1af..260274c 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -425,15 +425,13 @@ int parse_script(buzzparser_t par) {
       buzzlex_destroytok(&par->tok);
       par->tok = buzzlex_nexttok(par->lex);
    }
-   /* Make sure that reading the first token did not fail */
-   if(par->tok->type == BUZZTOK_EOF)
-      return buzzlex_done(par->lex) ? PARSE_OK : PARSE_ERROR;
    /* Add a symbol table */
    symt_push();
    /* Add the first chunk for the global scope */
    chunk_push(0);
    /* Parse the statements */
-   if(!parse_statlist(par)) return PARSE_ERROR;
+   if(par->tok->type != BUZZTOK_EOF &&
+      !parse_statlist(par)) return PARSE_ERROR;
    /* Make sure that the script was read completely */
    if(par->tok->type != BUZZTOK_EOF) {
       fprintf(stderr,
-- 
2.43.0


From dfd266ed1530e3a53b66d5556fa505177d50eec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:45 +0000
Subject: [PATCH 65/97] fix: strings with newlines can be assembled

---
 src/buzz/buzzasm.c    | 21 ++++++++++++++++++---
 src/buzz/buzzparser.c | 10 +++++++++-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index bcd8c25..48173aa 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -189,7 +189,16 @@ int buzz_asm(const char* fname,
       /* Is the line a string? */
       if(*trimline == '\'') {
          ++trimline;
-         trimline[strlen(trimline)-1] = 0;
+         if(trimline[strlen(trimline)-1] == '\n')
+            trimline[strlen(trimline)-1] = 0;
+         /* Replace the escape sequences */
+         char* dst = trimline;
+         for(char* src = trimline; *src; ++src, ++dst) {
+            if(src[0] == '\\' && src[1] == 'n')       { *dst = '\n'; ++src; }
+            else if(src[0] == '\\' && src[1] == '\\') { *dst = '\\'; ++src; }
+            else *dst = *src;
+         }
+         *dst = 0;
          size_t l = strlen(trimline) + 1;
          bcode_resize(l);
          strcpy((char*)(*buf + *size), trimline);
@@ -369,9 +378,15 @@ int buzz_deasm(const uint8_t* buf,
    long int c = 0;
    for(; (c < count) && (i < size); ++c) {
       /* Print string */
-      fprintf(fd, "'%s\n", ((char*)buf + i));
+      fputc('\'', fd);
       /* Advance to first character of next string */
-      while(*(buf + i) != 0) ++i;
+      while((i < size) && *(buf + i) != 0) {
+         if(buf[i] == '\n')      fputs("\\n", fd);
+         else if(buf[i] == '\\') fputs("\\\\", fd);
+         else                    fputc(buf[i], fd);
+         ++i;
+      }
+      fputc('\n', fd);
       ++i;
    }
    if(c < count) {
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 260274c..a342039 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -73,7 +73,15 @@ uint32_t string_add(buzzdict_t strings, const char* str) {
 }
 
 void string_print(uint32_t pos, void* data, void* params) {
-   fprintf((FILE*)params, "'%s\n", (*(struct strarray_data_s**)data)->str);
+   FILE* f = (FILE*)params;
+   fputc('\'', f);
+   /* Strings take one line, escape the characters that don't fit */
+   for(const char* c = (*(struct strarray_data_s**)data)->str; *c; ++c) {
+      if(*c == '\n')      fputs("\\n", f);
+      else if(*c == '\\') fputs("\\\\", f);
+      else                fputc(*c, f);
+   }
+   fputc('\n', f);
 }
 
 /****************************************/
-- 
2.43.0


From 92065a7d0f76054ca5d810d0bd10b581ca13c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:45 +0000
Subject: [PATCH 66/97] fix: deassembling does not access memory unaligned

---
 src/buzz/buzzasm.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 48173aa..3377544 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -347,7 +347,9 @@ int buzz_asm(const char* fname,
       fclose(fd);                                                       \
       return 2;                                                         \
    }                                                                    \
-   fprintf(fd, " " FMT, (*(T*)(buf+i+1)));                              \
+   T arg;                                                               \
+   memcpy(&arg, buf+i+1, sizeof(T));                                    \
+   fprintf(fd, " " FMT, arg);                                           \
    if(buzzdebug_info_exists_offset(dbg, &i)) {                          \
       fprintf(fd, "\t|%" PRIu64 ",%" PRIu64 ",%s",                                    \
               (*buzzdebug_info_get_fromoffset(dbg, &i))->line,          \
@@ -449,15 +451,19 @@ int buzz_instruction_deasm(const uint8_t* bcode,
    /* Does the opcode have an argument? */
    if(op == BUZZVM_INSTR_PUSHF) {
       /* Float argument */
+      float arg;
+      memcpy(&arg, bcode+off+1, sizeof(arg));
       asprintf(buf, "%s %f",
                buzzvm_instr_desc[op],
-               *(float*)(bcode+off+1));
+               arg);
    }
    else if(op > BUZZVM_INSTR_PUSHF) {
       /* Integer argument */
+      int32_t arg;
+      memcpy(&arg, bcode+off+1, sizeof(arg));
       asprintf(buf, "%s %d",
                buzzvm_instr_desc[op],
-               *(int32_t*)(bcode+off+1));
+               arg);
    }
    else {
       /* No argument */
-- 
2.43.0


From 59d4e8b951e9adaa9a14e094fce8339d665c0787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:17 +0000
Subject: [PATCH 67/97] fix: declaring a variable with the name of a function
 is not a use after free

---
 src/buzz/buzzparser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index a342039..fb91645 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -221,7 +221,7 @@ struct chunk_s {
    /* The code for this chunk */
    char* code;
    /* not-NULL if a symbol must be registered (function), NULL if not (lambda) */
-   const struct sym_s* sym;
+   struct sym_s* sym;
    /* The code size */
    size_t csize;
    /* The buffer capacity */
@@ -235,13 +235,19 @@ chunk_t chunk_new(uint32_t label, const struct sym_s* sym) {
    c->csize = 0;
    c->ccap = 10;
    c->code = (char*)malloc(c->ccap);
-   c->sym = sym;
+   c->sym = NULL;
+   if(sym) {
+      /* Copy the symbol, the symbol tables might change */
+      c->sym = (struct sym_s*)malloc(sizeof(struct sym_s));
+      *c->sym = *sym;
+   }
    return c;
 }
 
 void chunk_destroy(uint32_t pos, void* data, void* params) {
    chunk_t* c = (chunk_t*)data;
    free((*c)->code);
+   free((*c)->sym);
    free(*c);
    *c = NULL;
 }
-- 
2.43.0


From 5f256af72d1c77cdf7dc31fe0ae45a18403f05e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:04 +0000
Subject: [PATCH 68/97] fix: locate runtime errors at the instruction that
 failed

---
 src/buzz/buzzvm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 1e5dd93..091d7a5 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -745,6 +745,8 @@ buzzvm_state buzzvm_step(buzzvm_t vm) {
    /* Fetch instruction and (potential) argument */
    assert_pc(vm->pc);
    uint8_t instr = vm->bcode[vm->pc];
+   /* Remember the instruction being executed, errors are located with it */
+   vm->oldpc = vm->pc;
    /* Execute instruction */
    switch(instr) {
       case BUZZVM_INSTR_NOP: {
-- 
2.43.0


From 447dad2a35d011e5e93fea0cd3c01b7329ea8267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:49 +0000
Subject: [PATCH 69/97] fix: the lexer returns NULL after the end of the script
 and the parser does not read past it

---
 src/buzz/buzzlex.c    | 2 +-
 src/buzz/buzzparser.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 6c4f21c..daee35c 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -263,7 +263,7 @@ buzzlex_t buzzlex_new(const char* fname) {
 
 buzztok_t buzzlex_nexttok(buzzlex_t lex) {
    /* Nothing left to read? */
-   if(buzzdarray_isempty(lex)) return eoftok;
+   if(buzzdarray_isempty(lex)) return NULL;
    buzzlex_file_t lexf = buzzlex_getfile(lex);
    do {
       /* Look for a non-space character */
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index fb91645..920f6dc 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -357,7 +357,8 @@ void chunk_print(uint32_t pos, void* data, void* params) {
 
 #define fetchtok()                                                      \
    {                                                                    \
-      do {                                                              \
+      /* There is nothing after the end of the script */                \
+      if(par->tok->type != BUZZTOK_EOF) do {                            \
          buzzlex_destroytok(&par->tok);                                 \
          par->tok = buzzlex_nexttok(par->lex);                          \
       } while(par->tok->type != BUZZTOK_EOF && par->tok->type == BUZZTOK_STATEND); \
-- 
2.43.0


From 3def24aeb1449441b32e680170d71aff3d0d476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:59 +0000
Subject: [PATCH 70/97] fix: the names of global variables are not collected as
 garbage

---
 src/buzz/buzzheap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzheap.c b/src/buzz/buzzheap.c
index 8edbafa..d196844 100644
--- a/src/buzz/buzzheap.c
+++ b/src/buzz/buzzheap.c
@@ -215,6 +215,7 @@ void buzzheap_listener_mark(const void* key, void* data, void* params) {
 }
 
 void buzzheap_gsymobj_mark(const void* key, void* data, void* params) {
+   buzzstrman_gc_mark(((buzzvm_t)params)->strings, *(uint16_t*)key);
    buzzheap_obj_mark(*(buzzobj_t*)data, params);
 }
 
-- 
2.43.0


From 64c958a9492eda22fb3606e75ba4892f852da856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:57 +0000
Subject: [PATCH 71/97] fix: lexical errors are reported at the position of the
 token

The column was one too small, and 2^64-1 at the beginning of a line. An
unterminated string was reported at the end of the file.
---
 src/buzz/buzzlex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index daee35c..96b4c97 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -599,8 +599,8 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
          fprintf(stderr,
                  "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: string closing quote not found\n",
                  lexf->fname,
-                 lexf->cur_line,
-                 tokstart);
+                 startline,
+                 tokstart + 1);
          return eoftok;
       }
       /* We have a valid string */
@@ -619,7 +619,7 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: unknown character '%c' (octal: %o; hex: %x)\n",
               lexf->fname,
               lexf->cur_line,
-              tokstart,
+              tokstart + 1,
               c, c, c);
       return eoftok;
    }
-- 
2.43.0


From 0e1c6c807484a37cf951d340bf1cb7ae31ffd17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:45 +0000
Subject: [PATCH 72/97] fix: a syntax error at the end of a file is reported in
 that file

The messages took the file name from the lexer, which after the last token of
a file refers to the including file, or to no file at all (reading out of
bounds).
---
 src/buzz/buzzparser.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 920f6dc..a7ce7b2 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -364,6 +364,9 @@ void chunk_print(uint32_t pos, void* data, void* params) {
       } while(par->tok->type != BUZZTOK_EOF && par->tok->type == BUZZTOK_STATEND); \
    }
 
+/* The file of the current token; the lexer might be past its end already */
+#define tokfname() (par->tok->fname ? par->tok->fname : par->scriptfn)
+
 int match(buzzparser_t par,
           buzztok_type_e type) {
    if(par->tok->type == BUZZTOK_EOF) {
@@ -376,7 +379,7 @@ int match(buzzparser_t par,
    if(par->tok->type != type) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected %s, found %s\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfname(),
               par->tok->line,
               par->tok->col,
               buzztok_desc[type],
@@ -451,7 +454,7 @@ int parse_script(buzzparser_t par) {
    if(par->tok->type != BUZZTOK_EOF) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected end of file, found %s\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfname(),
               par->tok->line,
               par->tok->col,
               buzztok_desc[par->tok->type]);
@@ -598,7 +601,7 @@ int parse_var(buzzparser_t par) {
    if(s && s->global == SCOPE_LOCAL) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Duplicated symbol '%s'\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfname(),
               par->tok->line,
               par->tok->col,
               par->tok->value);
@@ -650,7 +653,7 @@ int parse_fun(buzzparser_t par) {
    if(buzzdarray_size(par->symstack) > 1) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: the definition of function %s() is nested within another scope. To define local functions, use the lambda syntax %s = function() { ... }.\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfname(),
               par->tok->line,
               par->tok->col,
               par->tok->value,
@@ -886,7 +889,7 @@ int parse_expression(buzzparser_t par) {
          par->tok->type != BUZZTOK_BLOCKCLOSE) {
          fprintf(stderr,
                  "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected .id = expression or }, found %s\n",
-                 buzzlex_getfile(par->lex)->fname,
+                 tokfname(),
                  par->tok->line,
                  par->tok->col,
                  buzztok_desc[par->tok->type]);
@@ -913,7 +916,7 @@ int parse_expression(buzzparser_t par) {
          else {
             fprintf(stderr,
                     "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected id or numeric constant, found %s\n",
-                    buzzlex_getfile(par->lex)->fname,
+                    tokfname(),
                     par->tok->line,
                     par->tok->col,
                     buzztok_desc[par->tok->type]);
@@ -949,7 +952,7 @@ int parse_expression(buzzparser_t par) {
             else {
                fprintf(stderr,
                        "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected id or numeric constant, found %s\n",
-                       buzzlex_getfile(par->lex)->fname,
+                       tokfname(),
                        par->tok->line,
                        par->tok->col,
                        buzztok_desc[par->tok->type]);
@@ -1143,7 +1146,7 @@ int parse_command(buzzparser_t par) {
          if(idrefinfo.info == TYPE_CLOSURE) {
             fprintf(stderr,
                     "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: can't have a function call as lvalue\n",
-                    buzzlex_getfile(par->lex)->fname,
+                    tokfname(),
                     par->tok->line,
                     par->tok->col);
             return PARSE_ERROR;
@@ -1179,7 +1182,7 @@ int parse_command(buzzparser_t par) {
       }
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected function call or assignment\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfname(),
               par->tok->line,
               par->tok->col);
       return PARSE_ERROR;
@@ -1237,7 +1240,7 @@ int parse_idreflist(buzzparser_t par) {
    }
    fprintf(stderr,
            "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected , or ), found %s\n",
-           buzzlex_getfile(par->lex)->fname,
+           tokfname(),
            par->tok->line,
            par->tok->col,
            buzztok_desc[par->tok->type]);
-- 
2.43.0


From 426235a27c422e0e44559d6a4af572937048fbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:36 +0000
Subject: [PATCH 73/97] fix: a long file name in an include does not overflow a
 buffer

---
 src/buzz/buzzlex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 96b4c97..059ad9b 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -44,11 +44,11 @@ buzzlex_file_t buzzlex_file_new(const char* fname) {
             fpath[PATH_MAX-1] = '\0';
             /* Add / at the end if missing */
             if(fpath[strlen(fpath)-1] != '/') {
-               strncat(fpath, "/", PATH_MAX-1);
+               strncat(fpath, "/", PATH_MAX-1-strlen(fpath));
                fpath[PATH_MAX-1] = '\0';
             }
             /* fpath += fname */
-            strncat(fpath, fname, PATH_MAX-1);
+            strncat(fpath, fname, PATH_MAX-1-strlen(fpath));
             fpath[PATH_MAX-1] = '\0';
             /* Try to open the file */
             fd = fopen(fpath, "rb");
-- 
2.43.0


From 6de4b73901ab58b320ea2459d70f8c20e39cc745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:16 +0000
Subject: [PATCH 74/97] fix: the debug information keeps file names with ',' or
 '|'

---
 src/buzz/buzzasm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 3377544..239b494 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -222,13 +222,13 @@ int buzz_asm(const char* fname,
       if(*trimline == '@') {
          /* Parse label and debug info */
          char* labelinfo = strsep(&trimline, "|\n");
-         char* debuginfo = strsep(&trimline, "|\n");
+         char* debuginfo = strsep(&trimline, "\n");
          /* Add debug information, if any */
          if(debuginfo && *debuginfo) {
             /* Parse line and column data */
             char* line = strsep(&debuginfo, ",\n");
             char* col = strsep(&debuginfo, ",\n");
-            char* srcfname = strsep(&debuginfo, ",\n");
+            char* srcfname = strsep(&debuginfo, "\n");
             if(srcfname) {
                uint64_t l = 0;
                uint64_t c = 0;
@@ -248,7 +248,7 @@ int buzz_asm(const char* fname,
       }
       /* Fetch the instruction */
       char* instrinfo = strsep(&trimline, "|\n");
-      char* debuginfo = strsep(&trimline, "|\n");
+      char* debuginfo = strsep(&trimline, "\n");
       char* instr = strsep(&instrinfo, " \n\t");
       char* argstr = strsep(&instrinfo, " \n\t");
       /* Add debug information, if any */
@@ -256,7 +256,7 @@ int buzz_asm(const char* fname,
          /* Parse line and column data */
          char* line = strsep(&debuginfo, ",\n");
          char* col = strsep(&debuginfo, ",\n");
-         char* srcfname = strsep(&debuginfo, ",\n");
+         char* srcfname = strsep(&debuginfo, "\n");
          if(srcfname) {
             uint64_t l = 0;
             uint64_t c = 0;
-- 
2.43.0


From f0d33af66bffd72eb6d26cbcc2c04743e0957cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:36 +0000
Subject: [PATCH 75/97] fix: dumping a stack with a table that contains itself
 terminates

---
 src/buzz/buzzdebug.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 88ccaf8..63e91fa 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -365,41 +365,54 @@ buzzvm_state buzzdebug_function_call(buzzvm_t vm,
 /****************************************/
 /****************************************/
 
-static void buzzdebug_print_obj(FILE* stream,
-                                buzzobj_t o,
-                                buzzvm_t vm);
-
 struct buzzdebug_print_table_params_s {
    FILE* stream;
    buzzvm_t vm;
+   /* The table being printed */
+   buzzdict_t table;
+   /* The table that contains it, or NULL */
+   const struct buzzdebug_print_table_params_s* parent;
 };
 
+static void buzzdebug_print_obj(FILE* stream,
+                                buzzobj_t o,
+                                buzzvm_t vm,
+                                const struct buzzdebug_print_table_params_s* parent);
+
 static void buzzdebug_print_table_elem(const void* key,
                                        void* data,
                                        void* params) {
    struct buzzdebug_print_table_params_s* p =
       (struct buzzdebug_print_table_params_s*)params;
    fprintf(p->stream, "\t\t\t");
-   buzzdebug_print_obj(p->stream, *(buzzobj_t*)key, p->vm);
+   buzzdebug_print_obj(p->stream, *(buzzobj_t*)key, p->vm, p);
    fprintf(p->stream, " -> ");
-   buzzdebug_print_obj(p->stream, *(buzzobj_t*)data, p->vm);
+   buzzdebug_print_obj(p->stream, *(buzzobj_t*)data, p->vm, p);
    fprintf(p->stream, "\n");
 }
 
 static void buzzdebug_print_table(FILE* stream,
                                   buzzdict_t t,
-                                  buzzvm_t vm) {
+                                  buzzvm_t vm,
+                                  const struct buzzdebug_print_table_params_s* parent) {
    fprintf(stream, "[table] %" PRIu32 " elements\n", buzzdict_size(t));
+   /* Do not print again the content of a table that contains this one */
+   const struct buzzdebug_print_table_params_s* p;
+   for(p = parent; p; p = p->parent)
+      if(p->table == t) return;
    struct buzzdebug_print_table_params_s params = {
       .stream = stream,
-      .vm = vm
+      .vm = vm,
+      .table = t,
+      .parent = parent
    };
    buzzdict_foreach(t, buzzdebug_print_table_elem, &params);
 }
 
 void buzzdebug_print_obj(FILE* stream,
                          buzzobj_t o,
-                         buzzvm_t vm) {
+                         buzzvm_t vm,
+                         const struct buzzdebug_print_table_params_s* parent) {
    switch(o->o.type) {
       case BUZZTYPE_NIL:
          fprintf(stream, "[nil]");
@@ -411,7 +424,7 @@ void buzzdebug_print_obj(FILE* stream,
          fprintf(stream, "[float] %f", o->f.value);
          break;
       case BUZZTYPE_TABLE:
-         buzzdebug_print_table(stream, o->t.value, vm);
+         buzzdebug_print_table(stream, o->t.value, vm, parent);
          break;
       case BUZZTYPE_CLOSURE:
          if(o->c.value.isnative)
@@ -445,7 +458,7 @@ void buzzdebug_stack_dump(buzzvm_t vm,
    for(i = buzzdarray_size(s)-1; i >= 0; --i) {
       fprintf(stream, "\t%" PRIu64 "\t", i);
       buzzobj_t o = buzzdarray_get(s, i, buzzobj_t);
-      buzzdebug_print_obj(stream, o, vm);
+      buzzdebug_print_obj(stream, o, vm, NULL);
       fprintf(stream, "\n");
    }
    fprintf(stream, "============================================================\n\n");
-- 
2.43.0


From c8a32709de00e82240e24e4b300c241d67ed6a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:52 +0000
Subject: [PATCH 76/97] fix: io.fforeach() stops when the closure closes the
 file

---
 src/buzz/buzzio.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index 7274f2e..cb5ab9a 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -185,6 +185,16 @@ int buzzio_fforeach(buzzvm_t vm) {
       buzzvm_pop(vm);
       /* Next line */
       errno = 0;
+      if(vmstate == BUZZVM_STATE_READY) {
+         /* Stop if the closure closed the file */
+         buzzvm_lload(vm, 1);
+         buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1));
+         buzzvm_tget(vm);
+         int closed = (buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_USERDATA ||
+                       buzzvm_stack_at(vm, 1)->u.value != f);
+         buzzvm_pop(vm);
+         if(closed) break;
+      }
       len = getline(&line, &cap, f);
    }
    /* Register error information */
-- 
2.43.0


From dd6794f85c8125a6ec98f0c4f87aafdd9ac914e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:04 +0000
Subject: [PATCH 77/97] fix: a parameter with the name of a variable of the
 enclosing function receives its argument

---
 src/buzz/buzzparser.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index a7ce7b2..181127a 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -1192,32 +1192,38 @@ int parse_command(buzzparser_t par) {
 /****************************************/
 /****************************************/
 
+/*
+ * Adds a parameter to the current symbol table.
+ * A lambda can use the parameters and local variables of its parent. If one of
+ * them has the same name as the parameter, it becomes inaccessible but it keeps
+ * its position in the activation record.
+ */
+static void param_add(buzzparser_t par, const char* name) {
+   const struct sym_s* sym = buzzdict_get(par->syms, &name, struct sym_s);
+   if(sym && !sym->global) {
+      struct sym_s hidden = *sym;
+      /* Names with a space can't be written in a script */
+      char* key = (char*)malloc(strlen(name) + 24);
+      sprintf(key, "%s %" PRId64, name, hidden.pos);
+      buzzdict_remove(par->syms, &name);
+      buzzdict_set(par->syms, &key, &hidden);
+   }
+   sym_add(par, name, SCOPE_LOCAL);
+}
+
 int parse_idlist(buzzparser_t par) {
    /* Empty list */
    if(par->tok->type == BUZZTOK_PARCLOSE)
       return PARSE_OK;
    /* Match an id for the first argument */
    tokmatch(BUZZTOK_ID);
-   /* Look for the argument symbol in the context
-    * If a symbol is found and is not global,
-    * do not add a new symbol; otherwise do
-    * This allows lambdas and nested functions to
-    * reuse the parameters and local variables of
-    * the parent
-    */
-   const struct sym_s* sym = sym_lookup(par->tok->value, par->symstack);
-   if(!sym || sym->global) {
-      sym_add(par, par->tok->value, SCOPE_LOCAL);
-   }
+   param_add(par, par->tok->value);
    fetchtok();
    /* Match rest of the argument list */
    while(par->tok->type == BUZZTOK_LISTSEP) {
       fetchtok();
       tokmatch(BUZZTOK_ID);
-      const struct sym_s* sym = sym_lookup(par->tok->value, par->symstack);
-      if(!sym || sym->global) {
-         sym_add(par, par->tok->value, SCOPE_LOCAL);
-      }
+      param_add(par, par->tok->value);
       fetchtok();
    }
    return PARSE_OK;
-- 
2.43.0


From 5ddedcd3f422dbecd22e07665ab82a699db2c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:04 +0000
Subject: [PATCH 78/97] fix: a sequence made with arrows.next() runs from its
 beginning

---
 src/include/arrows.bzz | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/include/arrows.bzz b/src/include/arrows.bzz
index d779f4f..0463622 100644
--- a/src/include/arrows.bzz
+++ b/src/include/arrows.bzz
@@ -26,8 +26,11 @@ arrows.wrap = function(f) {
   return {
     .f = f,
     .next = function(f) {
-      self.n = arrows.wrap(f)
-      return self.n
+      # Append the new arrow to the end of the sequence
+      var last = self
+      while(last.n) last = last.n
+      last.n = arrows.wrap(f)
+      return self
     }
   }
 }
-- 
2.43.0


From a509189ba4e63c5590fcf62693adcf60eaea6719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:37 +0000
Subject: [PATCH 79/97] fix: storing a local symbol with a wild index is an
 error

---
 src/buzz/buzzvm.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 091d7a5..ff4eaa5 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1768,6 +1768,14 @@ buzzvm_state buzzvm_lload(buzzvm_t vm, uint32_t idx) {
 
 buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
    buzzvm_stack_assert((vm), 1);
+   /* No function has that many locals, the bytecode must be wrong */
+   if(idx > UINT16_MAX) {
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_LNUM,
+                      "local symbol %u out of bounds",
+                      idx);
+      return vm->state;
+   }
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    buzzvm_pop(vm);
    /* The locals between the last one and the new one are nil
-- 
2.43.0


From daee2d8ce9c693e054d5f8fa390c748311f8b231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:37 +0000
Subject: [PATCH 80/97] fix: a call with a wrong number of arguments on the
 stack is an error

---
 src/buzz/buzzvm.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index ff4eaa5..564da14 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1123,8 +1123,14 @@ buzzvm_state buzzvm_call(buzzvm_t vm, int isswrm) {
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    int32_t argn = buzzvm_stack_at(vm, 1)->i.value;
    buzzvm_pop(vm);
-   /* Make sure the stack has enough elements */
-   buzzvm_stack_assert(vm, argn+1);
+   /* Make sure the stack has enough elements: self table, closure, arguments */
+   if(argn < 0 || argn > buzzvm_stack_top(vm) - 2) {
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_STACK,
+                      "not enough elements for a call with %d arguments",
+                      argn);
+      return vm->state;
+   }
    /* Make sure the closure is where expected */
    buzzvm_type_assert(vm, argn+1, BUZZTYPE_CLOSURE);
    buzzobj_t c = buzzvm_stack_at(vm, argn+1);
-- 
2.43.0


From 433d445cd9d7152b854203eb08b9e58d6b4f3410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:37 +0000
Subject: [PATCH 81/97] fix: truncated bytecode is refused

---
 src/buzz/buzzvm.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 564da14..f427abe 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -676,6 +676,11 @@ void buzzvm_seterror(buzzvm_t vm,
 int buzzvm_set_bcode(buzzvm_t vm,
                      const uint8_t* bcode,
                      uint32_t bcode_size) {
+   /* Make sure the string count is there */
+   if(bcode_size < sizeof(uint16_t)) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STRING, "the bytecode has no string count");
+      return vm->state;
+   }
    /* Fetch the string count */
    uint16_t count;
    memcpy(&count, bcode, sizeof(uint16_t));
@@ -683,6 +688,11 @@ int buzzvm_set_bcode(buzzvm_t vm,
    uint32_t i = sizeof(uint16_t);
    long int c = 0;
    for(; (c < count) && (i < bcode_size); ++c) {
+      /* Make sure the string is terminated */
+      if(!memchr(bcode + i, 0, bcode_size - i)) {
+         buzzvm_seterror(vm, BUZZVM_ERROR_STRING, "unterminated string in the bytecode");
+         return vm->state;
+      }
       /* Store string */
       buzzvm_string_register(vm, (char*)(bcode + i), 1);
       /* Advance to first character of next string */
-- 
2.43.0


From 7616dffe0a9d6927ef17ce685c4b5bea2a0f62d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:37 +0000
Subject: [PATCH 82/97] fix: counting neighbors works when the script overwrote
 the poses

---
 src/buzz/buzzneighbors.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index b8d07e6..58219ee 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -618,7 +618,7 @@ int buzzneighbors_count(struct buzzvm_s* vm) {
    buzzvm_pushs(vm, buzzvm_string_register(vm, POSES, 1));
    buzzvm_tget(vm);
    int32_t count = 0;
-   if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_NIL) {
+   if(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_TABLE) {
       count = buzzdarray_size(buzzvm_stack_at(vm, 1)->t.value);
    }
    buzzvm_pushi(vm, count);
-- 
2.43.0


From a7e96d3ee297b904f2f67bfa9dc315f3ca900d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:37 +0000
Subject: [PATCH 83/97] fix: disassembling less than two bytes is refused

---
 src/buzz/buzzasm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 239b494..90a7542 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -372,6 +372,11 @@ int buzz_deasm(const uint8_t* buf,
     * Phase 1: fetch the strings
     */
    /* Fetch and print the string count */
+   if(size < sizeof(uint16_t)) {
+      fprintf(stderr, "ERROR: %s: the bytecode has no string count\n", fname);
+      fclose(fd);
+      return 2;
+   }
    uint16_t count;
    memcpy(&count, buf, sizeof(uint16_t));
    fprintf(fd, "!%u\n", count);
-- 
2.43.0


From b3579efa09152fff31bfb1daa921bcb6fb1a87d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:47 +0000
Subject: [PATCH 84/97] fix: conflict handlers and foreach functions can write
 or create again their stigmergy

---
 src/buzz/buzzvm.c    | 20 ++++++++++++++++++--
 src/buzz/buzzvstig.c | 27 +++++++++++++++++++++------
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index f427abe..b36caf5 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -326,6 +326,13 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                }
                /* Get rid of useless vstig element */
                free(v);
+               /* The conflict manager could have written the entry or emptied
+                * the stigmergy, making the resolution stale */
+               l = buzzvstig_fetch(*vs, &k);
+               if(!l || (*l)->timestamp > c->timestamp) {
+                  free(c);
+                  break;
+               }
                /* Did this robot lose the conflict? */
                if((c->robot != vm->robot) &&
                   ((*l)->robot == vm->robot)) {
@@ -334,6 +341,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, *l);
                   /* Store winning value */
                   buzzvstig_store(*vs, &k, &c);
+                  buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
                   /* Call conflict lost manager */
                   buzzvstig_onconflictlost_call(vm, *vs, k, ol);
                   free(ol);
@@ -342,8 +350,8 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   /* This robot did not lose the conflict */
                   /* Just propagate the PUT message */
                   buzzvstig_store(*vs, &k, &c);
+                  buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
                }
-               buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
             }
             else {
                /* Remote element is older, ignore it */
@@ -416,6 +424,13 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                free(v);
                /* Make sure conflict manager returned with an element to process */
                if(!c) break;
+               /* The conflict manager could have written the entry or emptied
+                * the stigmergy, making the resolution stale */
+               l = buzzvstig_fetch(*vs, &k);
+               if(!l || (*l)->timestamp > c->timestamp) {
+                  free(c);
+                  break;
+               }
                /* Did this robot lose the conflict? */
                if((c->robot != vm->robot) &&
                   ((*l)->robot == vm->robot)) {
@@ -424,6 +439,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, *l);
                   /* Store winning value */
                   buzzvstig_store(*vs, &k, &c);
+                  buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
                   /* Call conflict lost manager */
                   buzzvstig_onconflictlost_call(vm, *vs, k, ol);
                   free(ol);
@@ -432,8 +448,8 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   /* This robot did not lose the conflict */
                   /* Just propagate the PUT message */
                   buzzvstig_store(*vs, &k, &c);
+                  buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
                }
-               buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
             }
             else {
                /* Remote element is same as local, ignore it */
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 056bc8f..c2e635e 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -162,6 +162,10 @@ int64_t buzzvstig_elem_deserialize(buzzobj_t* key,
 /****************************************/
 /****************************************/
 
+static void buzzvstig_collect_key(const void* key, void* data, void* params) {
+   buzzdarray_push((buzzdarray_t)params, key);
+}
+
 int buzzvstig_create(buzzvm_t vm) {
    buzzvm_lnum_assert(vm, 1);
    /* Get vstig id */
@@ -172,12 +176,21 @@ int buzzvstig_create(buzzvm_t vm) {
    /* Look for virtual stigmergy */
    const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
    if(vs) {
-      /* Found, destroy it */
-      buzzdict_remove(vm->vstigs, &id);
+      /* Found, empty it - it can't be destroyed because the caller
+       * could be a closure called by one of its methods */
+      buzzdarray_t keys = buzzdarray_new(10, sizeof(buzzobj_t), NULL);
+      buzzdict_foreach((*vs)->data, buzzvstig_collect_key, keys);
+      for(int64_t i = 0; i < buzzdarray_size(keys); ++i)
+         buzzdict_remove((*vs)->data, &buzzdarray_get(keys, i, buzzobj_t));
+      buzzdarray_destroy(&keys);
+      (*vs)->onconflict = NULL;
+      (*vs)->onconflictlost = NULL;
+   }
+   else {
+      /* Create a new virtual stigmergy */
+      buzzvstig_t nvs = buzzvstig_new();
+      buzzdict_set(vm->vstigs, &id, &nvs);
    }
-   /* Create a new virtual stigmergy */
-   buzzvstig_t nvs = buzzvstig_new();
-   buzzdict_set(vm->vstigs, &id, &nvs);
    /* Create a table */
    buzzvm_pusht(vm);
    /* Add data and methods */
@@ -421,6 +434,8 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
                                            buzzvstig_elem_t rv) {
    /* Was a conflict manager defined? */
    if(vs->onconflict) {
+      /* The closure could modify or remove the local entry */
+      uint16_t timestamp = lv->timestamp;
       /* Keep the key alive, the closure could drop its parameter */
       buzzvm_push(vm, k);
       /* Push closure */
@@ -469,7 +484,7 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       /* Get rid of the key */
       buzzvm_pop(vm);
       /* Make new entry */
-      return buzzvstig_elem_new(data, lv->timestamp, robot);
+      return buzzvstig_elem_new(data, timestamp, robot);
    }
    else {
       /* No conflict manager, use default behavior */
-- 
2.43.0


From a5421a1818f7307c7338d67ed21d67f352c442a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:47 +0000
Subject: [PATCH 85/97] fix: a table with more than 65535 elements is not sent
 as a malformed message

---
 src/buzz/buzztype.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index a592c1d..8d7ddab 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -609,9 +609,12 @@ static void buzzobj_serialize_nested(buzzdarray_t buf,
    /* Objects that can't be serialized are replaced by nil */
    if(data->o.type == BUZZTYPE_USERDATA ||
       (data->o.type == BUZZTYPE_CLOSURE &&
-       buzzdarray_size(data->c.value.actrec) != 1)) {
+       buzzdarray_size(data->c.value.actrec) != 1) ||
+      (data->o.type == BUZZTYPE_TABLE &&
+       buzzdict_size(data->t.value) > UINT16_MAX)) {
       fprintf(stderr, "[TODO] %s:%d: can't serialize a %s\n", __FILE__, __LINE__,
-              data->o.type == BUZZTYPE_USERDATA ? "userdata" : "nested closure");
+              data->o.type == BUZZTYPE_USERDATA ? "userdata" :
+              data->o.type == BUZZTYPE_CLOSURE ? "nested closure" : "table with too many elements");
       buzzmsg_serialize_u8(buf, BUZZTYPE_NIL);
       return;
    }
-- 
2.43.0


From e51cdb5a29345f1860b228b1d3e9e49322077f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:11 +0000
Subject: [PATCH 86/97] fix: a set operation that makes the robot leave a swarm
 announces it

---
 src/buzz/buzzswarm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 52a7162..9ea8413 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -362,11 +362,13 @@ int buzzswarm_others(buzzvm_t vm) {
    uint16_t id2 = buzzvm_stack_at(vm, 1)->i.value;
    /* Add a new entry for the swarm */
    uint8_t v = *x ? 0 : 1;
+   const uint8_t* old = buzzdict_get(vm->swarms, &id2, uint8_t);
+   int wasin = old && *old;
    buzzdict_set(vm->swarms, &id2, &v);
    /* Send update, if necessary */
-   if(v)
+   if(v || wasin)
       buzzoutmsg_queue_append_swarm_joinleave(
-         vm, BUZZMSG_SWARM_JOIN, id2);
+         vm, v ? BUZZMSG_SWARM_JOIN : BUZZMSG_SWARM_LEAVE, id2);
    /* Create a table to return */
    make_table(vm, id2);
    /* Return */
@@ -581,13 +583,15 @@ static int buzzswarm_check(struct buzzvm_s* vm) {
    /* Membership condition */                                     \
    uint8_t v = COND;                                              \
    /* Add a new entry to the swarm list */                        \
+   const uint8_t* old = buzzdict_get(vm->swarms, &id, uint8_t);   \
+   int wasin = old && *old;                                       \
    buzzdict_set(vm->swarms, &id, &v);                             \
    /* Create a table */                                           \
    make_table(vm, id);                                            \
    /* Send update, if necessary */                                \
-   if(v)                                                          \
+   if(v || wasin)                                                 \
       buzzoutmsg_queue_append_swarm_joinleave(                    \
-         vm, BUZZMSG_SWARM_JOIN, id);                             \
+         vm, v ? BUZZMSG_SWARM_JOIN : BUZZMSG_SWARM_LEAVE, id);   \
    /* Return swarm */                                             \
    return buzzvm_ret1(vm);
 
-- 
2.43.0


From f8201e001d42bff66ed0a00fc650ef30310386fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:43 +0000
Subject: [PATCH 87/97] fix: print swarm membership tables on the given stream

---
 src/buzz/buzzswarm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 9ea8413..56f9320 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -175,7 +175,7 @@ typedef struct buzzswarm_members_print_s* buzzswarm_members_print_t;
 void print_swarm_elem(const void* key, void* data, void* params) {
    buzzswarm_elem_t e = *(buzzswarm_elem_t*)data;
    buzzswarm_members_print_t p = (buzzswarm_members_print_t)params;
-   fprintf(stdout, "   %u:%u:", p->robot, *(uint16_t*)key);
+   fprintf(p->stream, "   %u:%u:", p->robot, *(uint16_t*)key);
    if(!buzzdarray_isempty(e->swarms)) {
       fprintf(p->stream,
               "%u",
@@ -186,7 +186,7 @@ void print_swarm_elem(const void* key, void* data, void* params) {
                  buzzdarray_get(e->swarms, i, uint16_t));
       }
    }
-   fprintf(stdout, "\n");
+   fprintf(p->stream, "\n");
 }
 
 void buzzswarm_members_print(FILE* stream,
-- 
2.43.0


From e74a7afac47e831ade7bec2748b7bbcc66030d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:35 +0000
Subject: [PATCH 88/97] fix: bzzdeasm refuses bytecode files it cannot read

---
 src/buzz/buzzdeasm_main.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzdeasm_main.c b/src/buzz/buzzdeasm_main.c
index 10416fc..624d480 100644
--- a/src/buzz/buzzdeasm_main.c
+++ b/src/buzz/buzzdeasm_main.c
@@ -16,8 +16,17 @@ int main(int argc, char** argv) {
    }
    /* Open bytecode file */
    int ifd = open(argv[1], O_RDONLY);
-   if(ifd < 0) perror(argv[1]);
+   if(ifd < 0) {
+      perror(argv[1]);
+      return 1;
+   }
    /* Read data */
+   struct stat st;
+   if(fstat(ifd, &st) < 0 || !S_ISREG(st.st_mode)) {
+      fprintf(stderr, "%s: not a regular file\n", argv[1]);
+      close(ifd);
+      return 1;
+   }
    size_t bcode_size = lseek(ifd, 0, SEEK_END);
    lseek(ifd, 0, SEEK_SET);
    uint8_t* bcode_buf = (uint8_t*)malloc(bcode_size);
@@ -25,7 +34,12 @@ int main(int argc, char** argv) {
    size_t tot = 0;
    while(tot < bcode_size) {
       rd = read(ifd, bcode_buf + tot, bcode_size - tot);
-      if(rd < 0) perror(argv[1]);
+      if(rd <= 0) {
+         perror(argv[1]);
+         free(bcode_buf);
+         close(ifd);
+         return 1;
+      }
       tot += rd;
    }
    close(ifd);
-- 
2.43.0


From 63913d1d8a9fc47a8bd5e72f4c62c4ec98d4c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:35 +0000
Subject: [PATCH 89/97] fix: buzzdebug_tofile returns 1 on success and 0 on
 error as documented

---
 src/buzz/buzzdebug.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 63e91fa..1c545b3 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -188,8 +188,8 @@ int buzzdebug_tofile(const char* fname,
    };
    buzzdict_foreach(dbg->off2script, buzzdebug_entry_dump, &i);
    /* Close file */
-   fclose(fd);
-   return i.ok ? 0 : 1;
+   if(fclose(fd) != 0) i.ok = 0;
+   return i.ok;
 }
 
 /****************************************/
-- 
2.43.0


From a2131fc2b18e56c7599735f7fe14561203a9c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:35 +0000
Subject: [PATCH 90/97] fix: bzzasm fails when it cannot write its output files

---
 src/buzz/buzzasm_main.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzasm_main.c b/src/buzz/buzzasm_main.c
index 80332bc..638c0be 100644
--- a/src/buzz/buzzasm_main.c
+++ b/src/buzz/buzzasm_main.c
@@ -16,11 +16,15 @@ int main(int argc, char** argv) {
    int of = open(argv[2],
                  O_WRONLY | O_CREAT | O_TRUNC,
                  S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
-   if(of < 0) perror(argv[2]);
+   if(of < 0) {
+      perror(argv[2]);
+      return 1;
+   }
    /* Parse script */
    uint8_t* bcode_buf;
    uint32_t bcode_size;
    buzzdebug_t dbg;
+   int retval = 0;
    if(buzz_asm(argv[1], &bcode_buf, &bcode_size, &dbg) != 0) {
       return 1;
    }
@@ -29,13 +33,20 @@ int main(int argc, char** argv) {
    size_t tot = 0;
    while(tot < bcode_size) {
       written = write(of, bcode_buf + tot, bcode_size - tot);
-      if(written < 0) perror(argv[2]);
+      if(written < 0) {
+         perror(argv[2]);
+         retval = 1;
+         break;
+      }
       tot += written;
    }
-   buzzdebug_tofile(argv[3], dbg);
+   if(!buzzdebug_tofile(argv[3], dbg)) {
+      perror(argv[3]);
+      retval = 1;
+   }
    /* Cleanup */
    free(bcode_buf);
    buzzdebug_destroy(&dbg);
    close(of);
-   return 0;
+   return retval;
 }
-- 
2.43.0


From 0d4cdfa2f9830cbe772c46dd0d3f9d473dab6445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:35 +0000
Subject: [PATCH 91/97] fix: the parser fails when it cannot write the assembly

---
 src/buzz/buzzparser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 181127a..1787dce 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -1500,6 +1500,11 @@ int buzzparser_parse(buzzparser_t par) {
    fprintf(par->asmstream, "\tnop\n");
    /* Write actual chunks */
    buzzdarray_foreach(par->chunks, chunk_print, par->asmstream);
+   /* Make sure everything was written */
+   if(fflush(par->asmstream) != 0 || ferror(par->asmstream)) {
+      perror(par->asmfn);
+      return PARSE_ERROR;
+   }
    return PARSE_OK;
 }
 
-- 
2.43.0


From e237f4395e8cf3e94ded19d3070f08d152cce96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:35 +0000
Subject: [PATCH 92/97] fix: the disassembler fails when it cannot write the
 listing

---
 src/buzz/buzzasm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 90a7542..44cbaca 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -439,7 +439,11 @@ int buzz_deasm(const uint8_t* buf,
       fprintf(fd, "\n");
    }
    /* Close file */
-   fclose(fd);
+   int failed = ferror(fd);
+   if(fclose(fd) != 0 || failed) {
+      perror(fname);
+      return 1;
+   }
    return 0;
 }
 
-- 
2.43.0


From eb0d973c093841e8fca10088086b904a3a2edd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:35 +0000
Subject: [PATCH 93/97] fix: bzzc derives its output files from any script name

---
 src/utility/bzzc.in | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utility/bzzc.in b/src/utility/bzzc.in
index f06af7c..0b0510a 100755
--- a/src/utility/bzzc.in
+++ b/src/utility/bzzc.in
@@ -33,8 +33,6 @@ if [[ -z $BZZASM ]]; then
     command -v bzzasm >/dev/null 2>&1 || { echo >&2 "$0: error: can't find bzzasm"; exit 1; }
     BZZASM=bzzasm
 fi
-command -v rev >/dev/null 2>&1 || { echo >&2 "$0: error: can't find rev"; exit 1; }
-command -v cut >/dev/null 2>&1 || { echo >&2 "$0: error: can't find cut"; exit 1; }
 
 #
 # Check command line
@@ -119,11 +117,15 @@ if [[ -z $BASM ]]; then
     KEEPBASM=n
     BASM=$(mktemp bzz.XXXXXX)
 fi
+STEM=$BZZ
+if [[ ${BZZ##*/} = *.* ]]; then
+    STEM=${BZZ%.*}
+fi
 if [[ -z $BO ]]; then
-    BO="$(echo $BZZ | rev | cut -d. -f 2- | rev).bo"
+    BO="$STEM.bo"
 fi
 if [[ -z $BDB ]]; then
-    BDB="$(echo $BZZ | rev | cut -d. -f 2- | rev).bdb"
+    BDB="$STEM.bdb"
 fi
 
 #
-- 
2.43.0


From 5784f3ef877f759a8d53f90a4cf0aab20cbc4a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:35 +0000
Subject: [PATCH 94/97] fix: bzzc removes its temporary file when the assembler
 fails

---
 src/utility/bzzc.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/bzzc.in b/src/utility/bzzc.in
index 0b0510a..116ddce 100755
--- a/src/utility/bzzc.in
+++ b/src/utility/bzzc.in
@@ -131,8 +131,8 @@ fi
 #
 # Compilation
 #
-$BZZPARSE "$BZZ" "$BASM" && $BZZASM "$BASM" "$BO" "$BDB"
-RETVAL=$?
+RETVAL=0
+$BZZPARSE "$BZZ" "$BASM" && $BZZASM "$BASM" "$BO" "$BDB" || RETVAL=$?
 if [[ "${KEEPBASM}" = "n" ]]; then
     rm -f "$BASM"
 fi
-- 
2.43.0


From 4a9d43b0a88b5cf9d758fc16561a83af5e651e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:10 +0000
Subject: [PATCH 95/97] fix: report a missing script when BUZZ_INCLUDE_PATH is
 not set

---
 src/buzz/buzzlex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 059ad9b..9455047 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -29,6 +29,7 @@ buzzlex_file_t buzzlex_file_new(const char* fname) {
    if(!fd) {
       /* Get the include path from the environment, if present */
       if(!getenv("BUZZ_INCLUDE_PATH")) {
+         fprintf(stderr, "Can't find file '%s'\n", fname);
          return NULL;
       }
       /* Fetch the directories in the include path */
-- 
2.43.0


From fb0b674924675644eb4e3885ff5748dfebc7abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:31 +0000
Subject: [PATCH 96/97] fix: the assembler refuses a file it cannot read to the
 end

---
 src/buzz/buzzasm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 44cbaca..b282fe8 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -317,6 +317,11 @@ int buzz_asm(const char* fname,
       fprintf(stderr, "ERROR: %s:%zu unknown instruction \"%s\"\n", fname, lineno, instr);
       return 2;
    }
+   /* Make sure the file was read to the end */
+   if(ferror(fd)) {
+      perror(fname);
+      return 2;
+   }
    /* Close file */
    fclose(fd);
    /*
-- 
2.43.0


From 1af8db57bdb150a8f9e375c933a1e7df938d567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:28 +0000
Subject: [PATCH 97/97] fix: bzzrun refuses bytecode files it cannot read

---
 src/buzz/buzzrun.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzrun.c b/src/buzz/buzzrun.c
index 2455043..42cdc1e 100644
--- a/src/buzz/buzzrun.c
+++ b/src/buzz/buzzrun.c
@@ -70,13 +70,19 @@ int main(int argc, char** argv) {
    }
    /* Read bytecode and fill in data structure */
    FILE* fd = fopen(bcfname, "rb");
-   if(!fd) perror(bcfname);
+   if(!fd) {
+      perror(bcfname);
+      return 1;
+   }
    fseek(fd, 0, SEEK_END);
    size_t bcode_size = ftell(fd);
    rewind(fd);
    uint8_t* bcode_buf = (uint8_t*)malloc(bcode_size);
-   if(fread(bcode_buf, 1, bcode_size, fd) < bcode_size) {
+   if(!bcode_buf || fread(bcode_buf, 1, bcode_size, fd) < bcode_size) {
       perror(bcfname);
+      free(bcode_buf);
+      fclose(fd);
+      return 1;
    }
    fclose(fd);
    /* Read debug information */
-- 
2.43.0

