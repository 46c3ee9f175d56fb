From 68e01c4b3880a8abd30f6b88a0308f332bc29481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 01/74] fix: the minimum integer divided by -1 or modulo -1 no
 longer kills the process

---
 lib/SPVM/Builder/include/spvm_implement.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index bb9b843..de63b1c 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -214,6 +214,10 @@ static inline void SPVM_IMPLEMENT_DIVIDE_INT(SPVM_ENV* env, SPVM_VALUE* stack, i
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  // The minimum value divided by -1 wraps. C leaves it undefined, and the CPU traps it.
+  else if (in2 == -1) {
+    *out = (int32_t)(0 - (uint32_t)in1);
+  }
   else {
     *out = in1 / in2;
   }
@@ -225,6 +229,10 @@ static inline void SPVM_IMPLEMENT_DIVIDE_LONG(SPVM_ENV* env, SPVM_VALUE* stack,
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  // The minimum value divided by -1 wraps. C leaves it undefined, and the CPU traps it.
+  else if (in2 == -1) {
+    *out = (int64_t)(0 - (uint64_t)in1);
+  }
   else {
     *out = in1 / in2;
   }
@@ -262,6 +270,10 @@ static inline void SPVM_IMPLEMENT_MODULO_INT(SPVM_ENV* env, SPVM_VALUE* stack, i
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  // C leaves the minimum value modulo -1 undefined, and the CPU traps it.
+  else if (in2 == -1) {
+    *out = 0;
+  }
   else {
     int32_t ret = in1 % in2;
     if ((in1 < 0) != (in2 < 0) && ret) { ret += in2; }
@@ -275,6 +287,10 @@ static inline void SPVM_IMPLEMENT_MODULO_LONG(SPVM_ENV* env, SPVM_VALUE* stack,
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  // C leaves the minimum value modulo -1 undefined, and the CPU traps it.
+  else if (in2 == -1) {
+    *out = 0;
+  }
   else {
     int64_t ret = in1 % in2;
     if ((in1 < 0) != (in2 < 0) && ret) { ret += in2; }
-- 
2.43.0


From c618c4eabfd18616ad394d4ab5ae321bb6524d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 02/74] fix: integer overflow wraps in precompiled methods as
 it does in the VM

---
 lib/SPVM/Builder/include/spvm_implement.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index de63b1c..7049dea 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -184,25 +184,26 @@ static inline void SPVM_IMPLEMENT_LEAVE_SCOPE(SPVM_ENV* env, SPVM_VALUE* stack,
   env->api->internal->leave_scope_local(env, stack, object_vars, mortal_stack, mortal_stack_top_ptr, original_mortal_stack_top);
 }
 
-#define SPVM_IMPLEMENT_ADD_INT(out, in1, in2) (out = in1 + in2)
+// Integer operations that can overflow are done unsigned so that they wrap whatever the compiler and its options are.
+#define SPVM_IMPLEMENT_ADD_INT(out, in1, in2) (out = (int32_t)((uint32_t)(in1) + (uint32_t)(in2)))
 
-#define SPVM_IMPLEMENT_ADD_LONG(out, in1, in2) (out = in1 + in2)
+#define SPVM_IMPLEMENT_ADD_LONG(out, in1, in2) (out = (int64_t)((uint64_t)(in1) + (uint64_t)(in2)))
 
 #define SPVM_IMPLEMENT_ADD_FLOAT(out, in1, in2) (out = in1 + in2)
 
 #define SPVM_IMPLEMENT_ADD_DOUBLE(out, in1, in2) (out = in1 + in2)
 
-#define SPVM_IMPLEMENT_SUBTRACT_INT(out, in1, in2) (out = in1 - in2)
+#define SPVM_IMPLEMENT_SUBTRACT_INT(out, in1, in2) (out = (int32_t)((uint32_t)(in1) - (uint32_t)(in2)))
 
-#define SPVM_IMPLEMENT_SUBTRACT_LONG(out, in1, in2) (out = in1 - in2)
+#define SPVM_IMPLEMENT_SUBTRACT_LONG(out, in1, in2) (out = (int64_t)((uint64_t)(in1) - (uint64_t)(in2)))
 
 #define SPVM_IMPLEMENT_SUBTRACT_FLOAT(out, in1, in2) (out = in1 - in2)
 
 #define SPVM_IMPLEMENT_SUBTRACT_DOUBLE(out, in1, in2) (out = in1 - in2)
 
-#define SPVM_IMPLEMENT_MULTIPLY_INT(out, in1, in2) (out = in1 * in2)
+#define SPVM_IMPLEMENT_MULTIPLY_INT(out, in1, in2) (out = (int32_t)((uint32_t)(in1) * (uint32_t)(in2)))
 
-#define SPVM_IMPLEMENT_MULTIPLY_LONG(out, in1, in2) (out = in1 * in2)
+#define SPVM_IMPLEMENT_MULTIPLY_LONG(out, in1, in2) (out = (int64_t)((uint64_t)(in1) * (uint64_t)(in2)))
 
 #define SPVM_IMPLEMENT_MULTIPLY_FLOAT(out, in1, in2) (out = in1 * in2)
 
@@ -320,8 +321,8 @@ static inline void SPVM_IMPLEMENT_MODULO_UNSIGNED_LONG(SPVM_ENV* env, SPVM_VALUE
   }
 }
 
-#define SPVM_IMPLEMENT_LEFT_SHIFT_INT(out, in1, in2) (out = in1 << in2)
-#define SPVM_IMPLEMENT_LEFT_SHIFT_LONG(out, in1, in2) (out = in1 << in2)
+#define SPVM_IMPLEMENT_LEFT_SHIFT_INT(out, in1, in2) (out = (int32_t)((uint32_t)(in1) << in2))
+#define SPVM_IMPLEMENT_LEFT_SHIFT_LONG(out, in1, in2) (out = (int64_t)((uint64_t)(in1) << in2))
 
 #define SPVM_IMPLEMENT_RIGHT_ARITHMETIC_SHIFT_INT(out, in1, in2) (out = in1 >> in2)
 #define SPVM_IMPLEMENT_RIGHT_ARITHMETIC_SHIFT_LONG(out, in1, in2) (out = in1 >> in2)
@@ -427,8 +428,8 @@ static inline void SPVM_IMPLEMENT_MOVE_OBJECT_CHECK_READ_ONLY_STRING(SPVM_ENV* e
 
 #define SPVM_IMPLEMENT_BIT_NOT_INT(out, in) (out = ~in)
 #define SPVM_IMPLEMENT_BIT_NOT_LONG(out, in) (out = ~in)
-#define SPVM_IMPLEMENT_NEGATE_INT(out, in) (out = -in)
-#define SPVM_IMPLEMENT_NEGATE_LONG(out, in) (out = -in)
+#define SPVM_IMPLEMENT_NEGATE_INT(out, in) (out = (int32_t)(0 - (uint32_t)(in)))
+#define SPVM_IMPLEMENT_NEGATE_LONG(out, in) (out = (int64_t)(0 - (uint64_t)(in)))
 #define SPVM_IMPLEMENT_NEGATE_FLOAT(out, in) (out = -in)
 #define SPVM_IMPLEMENT_NEGATE_DOUBLE(out, in) (out = -in)
 
-- 
2.43.0


From f7a0fdfbace142c8b110abec076bc35965cce709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 03/74] fix: die with an undefined message throws "Error"
 instead of crashing

---
 lib/SPVM/Builder/src/spvm_api.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 567c659..59769a8 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -3129,7 +3129,7 @@ SPVM_OBJECT* SPVM_API_get_compile_type_name(SPVM_ENV* env, SPVM_VALUE* stack, co
 
 SPVM_OBJECT* SPVM_API_new_stack_trace_no_mortal(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* exception, SPVM_RUNTIME_METHOD* method, int32_t line) {
   
-  if (stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival > 100) {
+  if (exception && stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival > 100) {
     return exception;
   }
   
@@ -3147,8 +3147,12 @@ SPVM_OBJECT* SPVM_API_new_stack_trace_no_mortal(SPVM_ENV* env, SPVM_VALUE* stack
   const char* at_part = " at ";
   
   // Exception
-  const char* exception_bytes = SPVM_API_get_chars(env, stack, exception);
-  int32_t exception_length = SPVM_API_length(env, stack, exception);
+  const char* exception_bytes = "Error";
+  int32_t exception_length = strlen(exception_bytes);
+  if (exception) {
+    exception_bytes = SPVM_API_get_chars(env, stack, exception);
+    exception_length = SPVM_API_length(env, stack, exception);
+  }
   
   // Total string length
   int32_t total_length = 0;
-- 
2.43.0


From 6491f62c431c98a661b6c6f9e0e6e16a113fc6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 04/74] fix: leaving a scope releases exactly the object
 variables declared in it

The position of a variable on the mortal stack was decided at compile time, but
pushes in operands of &&, || and ! and in the condition and increment of a loop
are executed conditionally or repeatedly. Variables of an enclosing scope were
released too early, and a while loop with a temporary in its condition wrote
beyond the mortal stack.
---
 lib/SPVM/Builder/include/spvm_api.h          |  4 +-
 lib/SPVM/Builder/include/spvm_api_internal.h |  2 +-
 lib/SPVM/Builder/include/spvm_block.h        |  3 ++
 lib/SPVM/Builder/include/spvm_implement.h    |  6 +--
 lib/SPVM/Builder/include/spvm_native.h       |  2 +-
 lib/SPVM/Builder/include/spvm_opcode.h       |  1 -
 lib/SPVM/Builder/src/spvm_api.c              |  7 +--
 lib/SPVM/Builder/src/spvm_api_internal.c     |  4 +-
 lib/SPVM/Builder/src/spvm_check.c            | 17 +++++++
 lib/SPVM/Builder/src/spvm_opcode.c           |  1 -
 lib/SPVM/Builder/src/spvm_opcode_builder.c   | 53 +++++++-------------
 lib/SPVM/Builder/src/spvm_precompile.c       | 24 ++-------
 lib/SPVM/Builder/src/spvm_vm.c               | 16 +-----
 13 files changed, 52 insertions(+), 88 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_api.h b/lib/SPVM/Builder/include/spvm_api.h
index abddcf1..d686afd 100644
--- a/lib/SPVM/Builder/include/spvm_api.h
+++ b/lib/SPVM/Builder/include/spvm_api.h
@@ -284,7 +284,7 @@ SPVM_OBJECT* SPVM_API_get_object_no_weaken_address(SPVM_ENV* env, SPVM_VALUE* st
 int32_t SPVM_API_enter_scope(SPVM_ENV* env, SPVM_VALUE* stack);
 int32_t SPVM_API_push_mortal(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object);
 void SPVM_API_leave_scope(SPVM_ENV* env, SPVM_VALUE* stack, int32_t original_mortal_stack_top);
-void SPVM_API_leave_scope_local(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** object_vars, int32_t* mortal_stack, int32_t* mortal_stack_top_ptr, int32_t original_mortal_stack_top);
+void SPVM_API_leave_scope_local(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** object_vars, int32_t object_vars_begin, int32_t object_vars_end);
 
 // Get type name
 SPVM_OBJECT* SPVM_API_get_type_name_no_mortal(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object);
@@ -352,7 +352,7 @@ void SPVM_API_INTERNAL_inc_ref_count(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJE
 
 void SPVM_API_INTERNAL_dec_ref_count(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object);
 
-void SPVM_API_INTERNAL_leave_scope_local(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** object_vars, int32_t* mortal_stack, int32_t* mortal_stack_top_ptr, int32_t original_mortal_stack_top);
+void SPVM_API_INTERNAL_leave_scope_local(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** object_vars, int32_t object_vars_begin, int32_t object_vars_end);
 
 FILE* SPVM_API_spvm_stdin(SPVM_ENV* env, SPVM_VALUE* stack);
 
diff --git a/lib/SPVM/Builder/include/spvm_api_internal.h b/lib/SPVM/Builder/include/spvm_api_internal.h
index 2b8591d..74e9a9f 100644
--- a/lib/SPVM/Builder/include/spvm_api_internal.h
+++ b/lib/SPVM/Builder/include/spvm_api_internal.h
@@ -17,7 +17,7 @@ void SPVM_API_INTERNAL_inc_ref_count(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJE
 
 void SPVM_API_INTERNAL_dec_ref_count(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object);
 
-void SPVM_API_INTERNAL_leave_scope_local(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** object_vars, int32_t* mortal_stack, int32_t* mortal_stack_top_ptr, int32_t original_mortal_stack_top);
+void SPVM_API_INTERNAL_leave_scope_local(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** object_vars, int32_t object_vars_begin, int32_t object_vars_end);
 
 void SPVM_API_INTERNAL_lock_object(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object);
 
diff --git a/lib/SPVM/Builder/include/spvm_block.h b/lib/SPVM/Builder/include/spvm_block.h
index 5e00352..f9a2f10 100644
--- a/lib/SPVM/Builder/include/spvm_block.h
+++ b/lib/SPVM/Builder/include/spvm_block.h
@@ -24,6 +24,9 @@ struct spvm_block {
   int32_t no_scope;
   int32_t has_object_var_decls;
   int32_t need_leave_scope;
+  int32_t object_vars_begin;
+  int32_t object_vars_end;
+  int32_t loop_object_vars_begin;
 };
 
 SPVM_BLOCK* SPVM_BLOCK_new(SPVM_COMPILER* compiler);
diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index 7049dea..3764151 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -180,8 +180,8 @@ static inline void SPVM_IMPLEMENT_MOVE_OBJECT_UNDEF(SPVM_ENV* env, SPVM_VALUE* s
   env->assign_object(env, stack, dist_address, NULL);
 }
 
-static inline void SPVM_IMPLEMENT_LEAVE_SCOPE(SPVM_ENV* env, SPVM_VALUE* stack, void** object_vars, int32_t* mortal_stack, int32_t* mortal_stack_top_ptr, int32_t original_mortal_stack_top) {
-  env->api->internal->leave_scope_local(env, stack, object_vars, mortal_stack, mortal_stack_top_ptr, original_mortal_stack_top);
+static inline void SPVM_IMPLEMENT_LEAVE_SCOPE(SPVM_ENV* env, SPVM_VALUE* stack, void** object_vars, int32_t object_vars_begin, int32_t object_vars_end) {
+  env->api->internal->leave_scope_local(env, stack, object_vars, object_vars_begin, object_vars_end);
 }
 
 // Integer operations that can overflow are done unsigned so that they wrap whatever the compiler and its options are.
@@ -339,8 +339,6 @@ static inline void SPVM_IMPLEMENT_MODULO_UNSIGNED_LONG(SPVM_ENV* env, SPVM_VALUE
 #define SPVM_IMPLEMENT_BIT_XOR_INT(out, in1, in2) (out = in1 ^ in2)
 #define SPVM_IMPLEMENT_BIT_XOR_LONG(out, in1, in2) (out = in1 ^ in2)
 
-#define SPVM_IMPLEMENT_PUSH_MORTAL(mortal_stack, mortal_stack_top, object_vars_index) (mortal_stack[mortal_stack_top++] = object_vars_index)
-
 #define SPVM_IMPLEMENT_MOVE_BYTE_ZERO(out) (out = 0)
 #define SPVM_IMPLEMENT_MOVE_SHORT_ZERO(out) (out = 0)
 #define SPVM_IMPLEMENT_MOVE_INT_ZERO(out) (out = 0)
diff --git a/lib/SPVM/Builder/include/spvm_native.h b/lib/SPVM/Builder/include/spvm_native.h
index 3dcbe47..9b59c0f 100644
--- a/lib/SPVM/Builder/include/spvm_native.h
+++ b/lib/SPVM/Builder/include/spvm_native.h
@@ -493,7 +493,7 @@ struct spvm_api_internal {
   int32_t (*get_ref_count)(SPVM_ENV* env, SPVM_VALUE* stack, void* object);
   void (*inc_ref_count)(SPVM_ENV* env, SPVM_VALUE* stack, void* object);
   void (*dec_ref_count)(SPVM_ENV* env, SPVM_VALUE* stack, void* object);
-  void (*leave_scope_local)(SPVM_ENV* env, SPVM_VALUE* stack, void** object_vars, int32_t* mortal_stack, int32_t* mortal_stack_top_ptr, int32_t original_mortal_stack_top);
+  void (*leave_scope_local)(SPVM_ENV* env, SPVM_VALUE* stack, void** object_vars, int32_t object_vars_begin, int32_t object_vars_end);
   char* (*get_stack_tmp_buffer)(SPVM_ENV* env, SPVM_VALUE* stack);
 };
 
diff --git a/lib/SPVM/Builder/include/spvm_opcode.h b/lib/SPVM/Builder/include/spvm_opcode.h
index 8acf598..3917c13 100644
--- a/lib/SPVM/Builder/include/spvm_opcode.h
+++ b/lib/SPVM/Builder/include/spvm_opcode.h
@@ -108,7 +108,6 @@ enum {
   SPVM_OPCODE_C_ID_LOOKUP_SWITCH,
   SPVM_OPCODE_C_ID_CASE_INFO,
   SPVM_OPCODE_C_ID_ENTER_SCOPE,
-  SPVM_OPCODE_C_ID_PUSH_MORTAL,
   SPVM_OPCODE_C_ID_LEAVE_SCOPE,
   SPVM_OPCODE_C_ID_MOVE_CONSTANT_BYTE,
   SPVM_OPCODE_C_ID_MOVE_CONSTANT_INT,
diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 59769a8..d9f26bd 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -4947,17 +4947,14 @@ void SPVM_API_leave_scope(SPVM_ENV* env, SPVM_VALUE* stack, int32_t original_mor
   *current_mortal_stack_top_ptr = original_mortal_stack_top;
 }
 
-void SPVM_API_leave_scope_local(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** object_vars, int32_t* mortal_stack, int32_t* mortal_stack_top_ptr, int32_t original_mortal_stack_top) {
+void SPVM_API_leave_scope_local(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** object_vars, int32_t object_vars_begin, int32_t object_vars_end) {
   
-  for (int32_t mortal_stack_index = original_mortal_stack_top; mortal_stack_index < *mortal_stack_top_ptr; mortal_stack_index++) {
-    int32_t var_index = mortal_stack[mortal_stack_index];
+  for (int32_t var_index = object_vars_begin; var_index < object_vars_end; var_index++) {
     SPVM_OBJECT** ref = (SPVM_OBJECT**)&object_vars[var_index];
     if (*ref != NULL) {
       SPVM_API_assign_object(env, stack, ref, NULL);
     }
   }
-  *mortal_stack_top_ptr = original_mortal_stack_top;
-  
 }
 
 SPVM_OBJECT* SPVM_API_get_object_no_weaken_address(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object) {
diff --git a/lib/SPVM/Builder/src/spvm_api_internal.c b/lib/SPVM/Builder/src/spvm_api_internal.c
index e20cc61..8397a70 100644
--- a/lib/SPVM/Builder/src/spvm_api_internal.c
+++ b/lib/SPVM/Builder/src/spvm_api_internal.c
@@ -43,9 +43,9 @@ void SPVM_API_INTERNAL_dec_ref_count(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJE
   SPVM_API_dec_ref_count(env, stack, object);
 }
 
-void SPVM_API_INTERNAL_leave_scope_local(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** object_vars, int32_t* mortal_stack, int32_t* mortal_stack_top_ptr, int32_t original_mortal_stack_top) {
+void SPVM_API_INTERNAL_leave_scope_local(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** object_vars, int32_t object_vars_begin, int32_t object_vars_end) {
   
-  SPVM_API_leave_scope_local(env, stack, object_vars, mortal_stack, mortal_stack_top_ptr, original_mortal_stack_top);
+  SPVM_API_leave_scope_local(env, stack, object_vars, object_vars_begin, object_vars_end);
 }
 
 char* SPVM_API_INTERNAL_get_stack_tmp_buffer(SPVM_ENV* env, SPVM_VALUE* stack) {
diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 1c582fd..f84e614 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3743,6 +3743,19 @@ void SPVM_CHECK_check_ast_typed_var_indexs(SPVM_COMPILER* compiler, SPVM_BASIC_T
   while (op_cur) {
     // [START]Preorder traversal position
     switch (op_cur->id) {
+      case SPVM_OP_C_ID_BLOCK: {
+        op_cur->uv.block->object_vars_begin = runtime_vars_object->length;
+        break;
+      }
+      case SPVM_OP_C_ID_CONDITION:
+      case SPVM_OP_C_ID_CONDITION_NOT:
+      {
+        if (op_cur->flag & SPVM_OP_C_FLAG_CONDITION_LOOP) {
+          SPVM_OP* op_block_init = SPVM_OP_get_parent(compiler, op_cur);
+          op_block_init->uv.block->loop_object_vars_begin = runtime_vars_object->length;
+        }
+        break;
+      }
     }
 
     if (op_cur->first) {
@@ -3754,6 +3767,10 @@ void SPVM_CHECK_check_ast_typed_var_indexs(SPVM_COMPILER* compiler, SPVM_BASIC_T
         switch (op_cur->id) {
           case SPVM_OP_C_ID_BLOCK: {
             SPVM_BLOCK* block = op_cur->uv.block;
+            
+            // The object variables declared in the block, including those declared in its inner blocks
+            block->object_vars_end = runtime_vars_object->length;
+            
             // Move loop condition to last sibling before opcode building
             if (op_cur->uv.block->id == SPVM_BLOCK_C_ID_LOOP_INIT) {
               SPVM_OP* op_init = op_cur->first;
diff --git a/lib/SPVM/Builder/src/spvm_opcode.c b/lib/SPVM/Builder/src/spvm_opcode.c
index f96443f..b0f7436 100644
--- a/lib/SPVM/Builder/src/spvm_opcode.c
+++ b/lib/SPVM/Builder/src/spvm_opcode.c
@@ -108,7 +108,6 @@ const char* const* SPVM_OPCODE_C_ID_NAMES(void) {
     "LOOKUP_SWITCH",
     "CASE_INFO",
     "ENTER_SCOPE",
-    "PUSH_MORTAL",
     "LEAVE_SCOPE",
     "MOVE_CONSTANT_BYTE",
     "MOVE_CONSTANT_INT",
diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 0c82b47..ce1afb6 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -237,8 +237,6 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
         goto END_OF_FUNCTION;
       }
       
-      SPVM_LIST* block_stack_typed_var_index_top = SPVM_LIST_new(compiler->current_each_compile_allocator, 0, SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP);
-      
       SPVM_LIST* if_block_stack_goto_end_opcode_index = SPVM_LIST_new(compiler->current_each_compile_allocator, 0, SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP);
       
       SPVM_LIST* loop_block_stack_goto_opcode_index = SPVM_LIST_new(compiler->current_each_compile_allocator, 0, SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP);
@@ -267,15 +265,11 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
       
       SPVM_LIST* goto_end_of_method_on_exception_opcode_index_stack = SPVM_LIST_new(compiler->current_each_compile_allocator, 0, SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP);
       
-      SPVM_LIST* mortal_stack = SPVM_LIST_new(compiler->current_each_compile_allocator, 0, SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP);
-      
       // Run OPs
       SPVM_OP* op_base = method->op_block;
       SPVM_OP* op_cur = op_base;
       int32_t finish = 0;
       
-      int32_t mortal_stack_top = 0;
-
       while (op_cur) {
         
         // [START]Preorder traversal position
@@ -328,9 +322,6 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
               }
             }
             
-            int32_t typed_var_indexs_top = mortal_stack->length;
-            SPVM_LIST_push(block_stack_typed_var_index_top, (void*)(intptr_t)typed_var_indexs_top);
-            
             break;
           }
           case SPVM_OP_C_ID_SWITCH: {
@@ -468,28 +459,36 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                   }
                 }
                 
-                int32_t typed_var_indexs_top = (intptr_t)SPVM_LIST_get(block_stack_typed_var_index_top, block_stack_typed_var_index_top->length - 1);
-                
                 // Leave scope
                 if (block->need_leave_scope) {
                   
                   SPVM_OPCODE opcode = {0};
                   
                   SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_LEAVE_SCOPE);
-                  opcode.operand0 = typed_var_indexs_top;
+                  opcode.operand0 = block->object_vars_begin;
+                  opcode.operand1 = block->object_vars_end;
                   
                   SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
                 }
                 
-                while (mortal_stack->length > typed_var_indexs_top) {
-                  SPVM_LIST_pop(mortal_stack);
-                }
-                
-                SPVM_LIST_pop(block_stack_typed_var_index_top);
-                
                 break;
               }
               case SPVM_OP_C_ID_LOOP_INCREMENT: {
+                // Leave the scope of the condition and the increment of this iteration
+                SPVM_OP* op_block_init = SPVM_OP_get_parent(compiler, op_cur);
+                SPVM_OP* op_block_statements = op_block_init->first->sibparent;
+                SPVM_BLOCK* block_init = op_block_init->uv.block;
+                SPVM_BLOCK* block_statements = op_block_statements->uv.block;
+                if (block_statements->object_vars_begin > block_init->loop_object_vars_begin || block_init->object_vars_end > block_statements->object_vars_end) {
+                  SPVM_OPCODE opcode = {0};
+                  
+                  SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_LEAVE_SCOPE);
+                  opcode.operand0 = block_init->loop_object_vars_begin;
+                  opcode.operand1 = block_init->object_vars_end;
+                  
+                  SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
+                }
+                
                 // Set loop first GOTO opcode
                 int32_t loop_first_goto_opcode_index = (intptr_t)SPVM_LIST_get(loop_block_stack_goto_opcode_index, loop_block_stack_goto_opcode_index->length - 1);
                 
@@ -791,20 +790,6 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                   SPVM_VAR_DECL* var_decl = op_cur->uv.var->var_decl;
                   
                   SPVM_TYPE* type = SPVM_CHECK_get_type(compiler, var_decl->op_var_decl);
-                  if (SPVM_TYPE_is_object_type(compiler, type->basic_type->id, type->dimension, type->flag)) {
-                    
-                    SPVM_OPCODE opcode = {0};
-                    
-                    SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_PUSH_MORTAL);
-                    int32_t typed_var_index = SPVM_OPCODE_BUILDER_get_typed_var_index(compiler, op_cur);
-                    opcode.operand0 = typed_var_index;
-                    
-                    SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
-                    
-                    SPVM_LIST_push(mortal_stack, (void*)(intptr_t)typed_var_index);
-                    
-                    mortal_stack_top++;
-                  }
                   
                   // Initialized not initialized variable
                   if (!op_cur->uv.var->is_initialized && !op_cur->uv.var->var_decl->is_arg) {
@@ -5086,8 +5071,6 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
       SPVM_LIST_free(loop_block_stack_next_base);
       SPVM_LIST_free(loop_block_stack_last_base);
       SPVM_LIST_free(switch_block_stack_break_base);
-      SPVM_LIST_free(mortal_stack);
-      SPVM_LIST_free(block_stack_typed_var_index_top);
       
       END_OF_FUNCTION: {
       
@@ -5095,8 +5078,6 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
         
         SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode,  SPVM_OPCODE_C_ID_END_METHOD);
         SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
-        
-        method->mortal_stack_length = mortal_stack_top + 1;
       }
     }
   }
diff --git a/lib/SPVM/Builder/src/spvm_precompile.c b/lib/SPVM/Builder/src/spvm_precompile.c
index fdfca4d..79d677b 100644
--- a/lib/SPVM/Builder/src/spvm_precompile.c
+++ b/lib/SPVM/Builder/src/spvm_precompile.c
@@ -199,14 +199,6 @@ void SPVM_PRECOMPILE_build_method_source(SPVM_PRECOMPILE* precompile, SPVM_STRIN
   
   SPVM_STRING_BUFFER_add(string_buffer, "  int32_t eval_error_id = 0;\n");
 
-  int32_t method_mortal_stack_length = current_method->mortal_stack_length;
-  if (method_mortal_stack_length > 0) {
-    SPVM_STRING_BUFFER_add(string_buffer, "  int32_t mortal_stack[");
-    SPVM_STRING_BUFFER_add_int(string_buffer, method_mortal_stack_length);
-    SPVM_STRING_BUFFER_add(string_buffer, "];\n");
-    SPVM_STRING_BUFFER_add(string_buffer, "  int32_t mortal_stack_top = 0;\n");
-  }
-  
   // short variable declarations
   int32_t short_vars_width = current_method->short_vars_width;
   if (short_vars_width > 0) {
@@ -231,7 +223,6 @@ void SPVM_PRECOMPILE_build_method_source(SPVM_PRECOMPILE* precompile, SPVM_STRIN
   SPVM_STRING_BUFFER_add(string_buffer, "  void* object_basic_type = NULL;\n");
   SPVM_STRING_BUFFER_add(string_buffer, "  void* src_basic_type = NULL;\n");
   SPVM_STRING_BUFFER_add(string_buffer, "  void* invocant_decl_basic_type = NULL;\n");
-  SPVM_STRING_BUFFER_add(string_buffer, "  int32_t original_mortal_stack_top = 0;\n");
   SPVM_STRING_BUFFER_add(string_buffer, "  int32_t line = 0;\n");
   SPVM_STRING_BUFFER_add(string_buffer, "  int32_t arg_mem_id = 0;\n");
   SPVM_STRING_BUFFER_add(string_buffer, "  int32_t stack_index = 0;\n");
@@ -679,21 +670,14 @@ void SPVM_PRECOMPILE_build_method_source(SPVM_PRECOMPILE* precompile, SPVM_STRIN
       case SPVM_OPCODE_C_ID_CASE_INFO: {
         break;
       }
-      case SPVM_OPCODE_C_ID_PUSH_MORTAL: {
-        SPVM_STRING_BUFFER_add(string_buffer, "  SPVM_IMPLEMENT_PUSH_MORTAL(mortal_stack, mortal_stack_top, ");
+      case SPVM_OPCODE_C_ID_LEAVE_SCOPE: {
+        SPVM_STRING_BUFFER_add(string_buffer, "  SPVM_IMPLEMENT_LEAVE_SCOPE(env, stack, object_vars, ");
         SPVM_STRING_BUFFER_add_int(string_buffer, opcode->operand0);
+        SPVM_STRING_BUFFER_add(string_buffer, ", ");
+        SPVM_STRING_BUFFER_add_int(string_buffer, opcode->operand1);
         SPVM_STRING_BUFFER_add(string_buffer, ");\n");
         break;
       }
-      case SPVM_OPCODE_C_ID_LEAVE_SCOPE: {
-        int32_t original_mortal_stack_top = opcode->operand0;
-        if (method_mortal_stack_length > 0) {
-          SPVM_STRING_BUFFER_add(string_buffer, "  SPVM_IMPLEMENT_LEAVE_SCOPE(env, stack, object_vars, mortal_stack, &mortal_stack_top, original_mortal_stack_top = ");
-          SPVM_STRING_BUFFER_add_int(string_buffer, original_mortal_stack_top);
-          SPVM_STRING_BUFFER_add(string_buffer, ");\n");
-        }
-        break;
-      }
       case SPVM_OPCODE_C_ID_MOVE_BYTE_ZERO: {
         SPVM_STRING_BUFFER_add(string_buffer, "  SPVM_IMPLEMENT_MOVE_BYTE_ZERO(");
         SPVM_PRECOMPILE_add_operand(precompile, string_buffer, SPVM_PRECOMPILE_C_CTYPE_ID_BYTE, opcode->operand0);
diff --git a/lib/SPVM/Builder/src/spvm_vm.c b/lib/SPVM/Builder/src/spvm_vm.c
index 63f0cf8..9daba15 100644
--- a/lib/SPVM/Builder/src/spvm_vm.c
+++ b/lib/SPVM/Builder/src/spvm_vm.c
@@ -69,10 +69,6 @@ int32_t SPVM_VM_call_method(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTIME_METHO
   // Caught eval error_id
   int32_t eval_error_id = 0;
   
-  // Mortal stack
-  int32_t* mortal_stack = NULL;
-  int32_t mortal_stack_top = 0;
-  
   // object variables
   void** object_vars = NULL;
   
@@ -108,7 +104,6 @@ int32_t SPVM_VM_call_method(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTIME_METHO
     numeric_vars_size += current_method->double_vars_width * 8;
     numeric_vars_size += current_method->int_vars_width * 4;
     numeric_vars_size += current_method->float_vars_width * 4;
-    numeric_vars_size += current_method->mortal_stack_length * 4;
     numeric_vars_size += current_method->short_vars_width * 2;
     numeric_vars_size += current_method->byte_vars_width * 1;
     
@@ -150,10 +145,6 @@ int32_t SPVM_VM_call_method(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTIME_METHO
     int_vars = (int32_t*)&call_stack[call_stack_offset];
     call_stack_offset += current_method->int_vars_width * 4;
 
-    // Mortal stack
-    mortal_stack = (int32_t*)&call_stack[call_stack_offset];
-    call_stack_offset += current_method->mortal_stack_length * 4;
-    
     // Short variables
     short_vars = (int16_t*)&call_stack[call_stack_offset];
     call_stack_offset += current_method->short_vars_width * 2;
@@ -281,13 +272,8 @@ int32_t SPVM_VM_call_method(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTIME_METHO
         
         continue;
       }
-      case SPVM_OPCODE_C_ID_PUSH_MORTAL: {
-        SPVM_IMPLEMENT_PUSH_MORTAL(mortal_stack, mortal_stack_top, opcode->operand0);
-        break;
-      }
       case SPVM_OPCODE_C_ID_LEAVE_SCOPE: {
-        int32_t original_mortal_stack_top = opcode->operand0;
-        SPVM_IMPLEMENT_LEAVE_SCOPE(env, stack, object_vars, mortal_stack, &mortal_stack_top, original_mortal_stack_top);
+        SPVM_IMPLEMENT_LEAVE_SCOPE(env, stack, object_vars, opcode->operand0, opcode->operand1);
         break;
       }
       case SPVM_OPCODE_C_ID_MOVE_BYTE_ZERO: {
-- 
2.43.0


From fa5bc9f275d059f13c05656d39be7ad3e7b741cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 05/74] fix: an exception in an eval block that contains
 another eval block leaves the whole outer block

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index ce1afb6..7f27203 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -429,16 +429,21 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                   }
                 }
                 else if (block->id == SPVM_BLOCK_C_ID_EVAL) {
-                  // Set IF_EXCEPTION_CATCH opcode index
+                  // The opcode index of the beginning of this eval block
+                  int32_t eval_block_opcode_index = (intptr_t)SPVM_LIST_pop(eval_block_stack_goto_opcode_index);
+                  
+                  // Set IF_EXCEPTION_CATCH opcode index. Those before the beginning of this eval block belong to outer eval blocks.
                   while (goto_end_of_eval_on_exception_opcode_index_stack->length > 0) {
-                    int32_t goto_end_of_eval_on_exception_goto_opcode_index = (intptr_t)SPVM_LIST_pop(goto_end_of_eval_on_exception_opcode_index_stack);
+                    int32_t goto_end_of_eval_on_exception_goto_opcode_index = (intptr_t)SPVM_LIST_get(goto_end_of_eval_on_exception_opcode_index_stack, goto_end_of_eval_on_exception_opcode_index_stack->length - 1);
+                    if (goto_end_of_eval_on_exception_goto_opcode_index < eval_block_opcode_index) {
+                      break;
+                    }
+                    SPVM_LIST_pop(goto_end_of_eval_on_exception_opcode_index_stack);
                     
                     SPVM_OPCODE* goto_end_of_eval_on_exception_goto = (opcode_list->values + goto_end_of_eval_on_exception_goto_opcode_index);
                     int32_t goto_end_of_eval_on_exception_goto_opcode_base_index = opcode_list->length;
                     goto_end_of_eval_on_exception_goto->operand0 = goto_end_of_eval_on_exception_goto_opcode_base_index;
                   }
-                  
-                  SPVM_LIST_pop(eval_block_stack_goto_opcode_index);
                 }
                 else if (block->id == SPVM_BLOCK_C_ID_METHOD) {
                   while (return_opcode_index_stack->length > 0) {
-- 
2.43.0


From f0b4b738fc9c4a7c878f6c3b93856b1cb5ca758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 06/74] fix: a string literal can be assigned to a variable of
 an object type other than string

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 7f27203..14164ef 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -2694,7 +2694,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                        
                         SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
                       }
-                      else if (SPVM_TYPE_is_string_type(compiler, type_dist->basic_type->id, type_dist->dimension, type_dist->flag)) {
+                      else if (SPVM_TYPE_is_object_type(compiler, type_dist->basic_type->id, type_dist->dimension, type_dist->flag)) {
                         SPVM_OPCODE opcode = {0};
                         
                         
-- 
2.43.0


From 6c02a0843c8910da399f4f5b95df6ea809d6c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 07/74] fix: a type cast to a numeric array type or a
 multi-numeric array type requires the same dimension

---
 lib/SPVM/Builder/src/spvm_type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index 70f4ed7..aeac461 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1590,7 +1590,7 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
   // Dist type is numeric array type(except for byte array)
   else if (SPVM_TYPE_is_numeric_array_type(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag)) {
     // Source type equals dist type
-    if (src_type_basic_type_id == dist_type_basic_type_id) {
+    if (src_type_basic_type_id == dist_type_basic_type_id && src_type_dimension == dist_type_dimension) {
       can_cast = 1;
     }
     // Source type is any object type
@@ -1609,7 +1609,7 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
   // Dist type is multi-numeric array
   else if (SPVM_TYPE_is_mulnum_array_type(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag)) {
     // Source type equals dist type
-    if (src_type_basic_type_id == dist_type_basic_type_id) {
+    if (src_type_basic_type_id == dist_type_basic_type_id && src_type_dimension == dist_type_dimension) {
       can_cast = 1;
     }
     // Source type is any object type
-- 
2.43.0


From ff3d4b19891bcef909eb2f7f8258ff76253796de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 08/74] fix: a type cast from a numeric object type to the same
 type is allowed

---
 lib/SPVM/Builder/src/spvm_type.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index aeac461..c2b2308 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1462,8 +1462,12 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
   }
   // Dist type is numeric object type
   else if (SPVM_TYPE_is_numeric_object_type(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag)) {
+    // Source type equals dist type
+    if (SPVM_TYPE_equals(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
+      can_cast = 1;
+    }
     // Source type is numeric type
-    if (SPVM_TYPE_is_numeric_type(compiler, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
+    else if (SPVM_TYPE_is_numeric_type(compiler, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
       if (dist_type_basic_type_id == src_type_basic_type_id + SPVM_BASIC_TYPE_C_NUMERIC_OBJECT_UPGRADE_SHIFT) {
         can_cast = 1;
       }
-- 
2.43.0


From 042cf660b4c921f7494325c5577bbb462ae0dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 09/74] fix: a type cast from a multi-dimensional array of an
 interface to one of a class checks that the class has the interface

---
 lib/SPVM/Builder/src/spvm_type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index c2b2308..8ec2fbc 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1759,7 +1759,7 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
           if (SPVM_BASIC_TYPE_is_class_type(compiler, dist_type_basic_type_id)) {
             // Source basic type is interface type
             if (SPVM_BASIC_TYPE_is_interface_type(compiler, src_type_basic_type_id)) {
-              can_cast = SPVM_BASIC_TYPE_has_interface(compiler, src_type_basic_type_id, dist_type_basic_type_id, error_reason);
+              can_cast = SPVM_BASIC_TYPE_has_interface(compiler, dist_type_basic_type_id, src_type_basic_type_id, error_reason);
             }
             // Source basic type is other type
             else {
-- 
2.43.0


From 23ff51f05fd4daf7908358b85a1535f40369a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 10/74] fix: a parameter can have an array type of dimension 3
 or more

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 14164ef..6144808 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -214,7 +214,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
             }
           }
         }
-        else if (arg_type_dimension == 2) {
+        else if (arg_type_dimension >= 2) {
           SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_GET_STACK_OBJECT);
           opcode.operand0 = arg->typed_var_index;
           opcode.operand3 = stack_index & 0xFF;
-- 
2.43.0


From 96f169774f899455438860be05a19892530871f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 11/74] fix: Complex_2f loads the Fn class it uses

---
 lib/SPVM/Complex_2f.spvm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/SPVM/Complex_2f.spvm b/lib/SPVM/Complex_2f.spvm
index 3c2df70..05efe2b 100644
--- a/lib/SPVM/Complex_2f.spvm
+++ b/lib/SPVM/Complex_2f.spvm
@@ -3,6 +3,8 @@
 
 class Complex_2f : mulnum_t {
   
+  use Fn;
+  
   # Fields
   has re : float;
   
-- 
2.43.0


From beae4ad46f57db5af0852d728c516ca38c12d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 12/74] fix: a type cast to mutable string checks that the
 object is a string

---
 lib/SPVM/Builder/include/spvm_implement.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index 3764151..5232ac7 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -412,7 +412,12 @@ static inline void SPVM_IMPLEMENT_MOVE_OBJECT_WITH_TYPE_CHECK(SPVM_ENV* env, SPV
 static inline void SPVM_IMPLEMENT_MOVE_OBJECT_CHECK_READ_ONLY_STRING(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* in, int32_t* error_id) {
   
   void* string = in;
-  if (env->is_string(env, stack, string) && env->is_read_only(env, stack, string)) {
+  if (string && !env->is_string(env, stack, string)) {
+    void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_ASSIGN_NON_ASSIGNABLE_TYPE]);
+    env->set_exception(env, stack, exception);
+    *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
+  }
+  else if (env->is_string(env, stack, string) && env->is_read_only(env, stack, string)) {
     void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_ASSIGN_READ_ONLY_STRING_TO_MUTABLE_TYPE]);
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
-- 
2.43.0


From 0cd3982eabf3c91d3a620de01d405ff98f00f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 13/74] fix: storing an object in an array of a class or a
 multi-dimensional array checks the element type of the array object

---
 lib/SPVM/Builder/src/spvm_api.c            |  3 +++
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 24 +++++++++++-----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index d9f26bd..f7b6d9b 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -4567,6 +4567,9 @@ int32_t SPVM_API_isa(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object, SPVM
     if (!basic_type) {
       isa = 0;
     }
+    else if (object_basic_type->id == basic_type->id && object_type_dimension == type_dimension) {
+      isa = 1;
+    }
     else {
       isa = SPVM_API_TYPE_can_assign(env->runtime, basic_type, type_dimension, 0, object_basic_type, object_type_dimension, 0);
     }
diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 6144808..2d9ab2b 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -4739,19 +4739,19 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                         }
                       }
                       else {
+                        // The element type of the array object could be narrower than the element type of the array type
                         int32_t is_check_type;
-                        if (array_type_dimension == 1) {
-                          switch (array_basic_type_category) {
-                            case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE:
-                            case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_ANY_OBJECT:
-                            {
-                              is_check_type = 1;
-                              break;
-                            }
-                            default: {
-                              is_check_type = 0;
-                              break;
-                            }
+                        switch (array_basic_type_category) {
+                          case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS:
+                          case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE:
+                          case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_ANY_OBJECT:
+                          {
+                            is_check_type = 1;
+                            break;
+                          }
+                          default: {
+                            is_check_type = 0;
+                            break;
                           }
                         }
                         
-- 
2.43.0


From 2e99b2e648e5a4d072ea52f764b38a17355c2092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 14/74] fix: can operator finds an inherited method

---
 lib/SPVM/Builder/src/spvm_check.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index f84e614..f0830ff 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3345,11 +3345,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             SPVM_BASIC_TYPE* var_basic_type = SPVM_HASH_get(compiler->basic_type_symtable, var_basic_type_name, strlen(var_basic_type_name));
             
             const char* method_name = op_name_method->uv.name;
-            SPVM_METHOD* found_method = SPVM_HASH_get(
-              var_basic_type->method_symtable,
-              method_name,
-              strlen(method_name)
-            );
+            SPVM_METHOD* found_method = SPVM_CHECK_search_method(compiler, var_basic_type, method_name);
             
             if (!found_method) {
               SPVM_COMPILER_error(compiler, "%s#%s method, the operand of can operator, must be defined.\n  at %s line %d", var_basic_type_name, method_name, op_name_method->file, op_name_method->line);
-- 
2.43.0


From 8774f3a0a6e6347c8fa47f3e98b67dc6c50d1676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:30 +0000
Subject: [PATCH 15/74] fix: isa with an interface whose method has another
 signature no longer crashes at run time

---
 lib/SPVM/Builder/src/spvm_type.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index 8ec2fbc..ab55f4b 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1897,10 +1897,10 @@ int32_t SPVM_TYPE_satisfy_interface_method_requirement(SPVM_COMPILER* compiler,
     );
     
     if (!can_assign) {
-      const char* src_method_var_decl_type_name = SPVM_TYPE_new_type_name(compiler, src_method_var_decl_type->basic_type->id, src_method_var_decl_type->dimension, src_method_var_decl_type->flag);
-      const char* dist_method_var_decl_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_var_decl_type->basic_type->id, dist_method_var_decl_type->dimension, dist_method_var_decl_type->flag);
-      
       if (error_reason) {
+        const char* src_method_var_decl_type_name = SPVM_TYPE_new_type_name(compiler, src_method_var_decl_type->basic_type->id, src_method_var_decl_type->dimension, src_method_var_decl_type->flag);
+        const char* dist_method_var_decl_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_var_decl_type->basic_type->id, dist_method_var_decl_type->dimension, dist_method_var_decl_type->flag);
+        
         snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The %dth argument(%s type) of %s#%s method must be able to be assigned to the %dth argument(%s type) of %s#%s method.\n  at %s line %d", arg_index, src_method_var_decl_type_name, src_basic_type->name, src_method->name, arg_index, dist_method_var_decl_type_name, dist_basic_type->name, dist_method->name, src_method->op_method->file, src_method->op_method->line);
       }
       
@@ -1919,10 +1919,10 @@ int32_t SPVM_TYPE_satisfy_interface_method_requirement(SPVM_COMPILER* compiler,
   );
   
   if (!can_assign) {
-    const char* src_method_return_type_name = SPVM_TYPE_new_type_name(compiler, src_method_return_type->basic_type->id, src_method_return_type->dimension, src_method_return_type->flag);
-    const char* dist_method_return_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_return_type->basic_type->id, dist_method_return_type->dimension, dist_method_return_type->flag);
-    
     if (error_reason) {
+      const char* src_method_return_type_name = SPVM_TYPE_new_type_name(compiler, src_method_return_type->basic_type->id, src_method_return_type->dimension, src_method_return_type->flag);
+      const char* dist_method_return_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_return_type->basic_type->id, dist_method_return_type->dimension, dist_method_return_type->flag);
+      
       snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The return type(%s type) of %s#%s method must be able to be assigned to the return type(%s type) of %s#%s method.\n  at %s line %d", src_method_return_type_name, src_basic_type->name, src_method->name, dist_method_return_type_name, dist_basic_type->name, dist_method->name, src_method->op_method->file, src_method->op_method->line);
     }
     
-- 
2.43.0


From b0762e06ddc4e847c3b0d981d0c991ba7d7e9d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 16/74] fix: the condition evaluation of an undefined Bool
 returns 0 instead of crashing

---
 lib/SPVM/Builder/include/spvm_implement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index 5232ac7..dec683d 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -461,7 +461,7 @@ static inline void SPVM_IMPLEMENT_STRING_CONCAT(SPVM_ENV* env, SPVM_VALUE* stack
 #define SPVM_IMPLEMENT_CONDITION_EVALUATION_DOUBLE(out, in) (out = !!in)
 #define SPVM_IMPLEMENT_CONDITION_EVALUATION_OBJECT(out, in) (out = !!in)
 #define SPVM_IMPLEMENT_CONDITION_EVALUATION_REF(out, in) (out = !!in)
-#define SPVM_IMPLEMENT_CONDITION_EVALUATION_BOOL_OBJECT(env, stack, out, in) (out = !!env->get_bool_object_value(env, stack, in))
+#define SPVM_IMPLEMENT_CONDITION_EVALUATION_BOOL_OBJECT(env, stack, out, in) (out = (in) && env->get_bool_object_value(env, stack, in))
 
 #define SPVM_IMPLEMENT_NUMERIC_COMPARISON_EQ_INT(out, in1, in2) (out = (in1 == in2))
 #define SPVM_IMPLEMENT_NUMERIC_COMPARISON_EQ_LONG(out, in1, in2) (out = (in1 == in2))
-- 
2.43.0


From 93d6f9e3f1f6285ae6dd901e5ade942f738c74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 17/74] fix: an instance method call throws an exception if the
 found method requires more arguments than the caller gives

---
 lib/SPVM/Builder/include/spvm_implement.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index dec683d..0cacab7 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -41,6 +41,7 @@ enum {
   SPVM_IMPLEMENT_C_STRING_ERROR_METHOD_NOT_FOUND,
   SPVM_IMPLEMENT_C_STRING_CALL_INSTANCE_METHOD_INVOCANT_UNDEF,
   SPVM_IMPLEMENT_C_STRING_CALL_INSTANCE_METHOD_IMPLEMENT_NOT_FOUND,
+  SPVM_IMPLEMENT_C_STRING_CALL_INSTANCE_METHOD_TOO_FEW_ARGUMENTS,
 };
 
 
@@ -81,6 +82,7 @@ static const char* SPVM_IMPLEMENT_STRING_LITERALS[] = {
   "%s#%s method is not found.",
   "An instance method call failed. The invocant of the method call for %s#%s method must be defined.",
   "An instance method call failed. The implementation of %s#%s method is not found.",
+  "An instance method call failed. Too few arguments are given to the implementation of %s#%s method.",
 };
 
 enum {
@@ -2657,6 +2659,21 @@ static inline void SPVM_IMPLEMENT_CALL_INSTANCE_METHOD(SPVM_ENV* env, SPVM_VALUE
     }
   }
   
+  // The method that is found can have more required arguments than the method the caller sees
+  if (!*error_id) {
+    void* runtime = env->runtime;
+    int32_t required_args_length = env->api->method->get_required_args_length(runtime, method);
+    if (required_args_length > 0) {
+      void* last_required_arg = env->api->method->get_arg_by_index(runtime, method, required_args_length - 1);
+      if (env->api->arg->get_stack_index(runtime, last_required_arg) >= args_width) {
+        snprintf(tmp_buffer, SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_CALL_INSTANCE_METHOD_TOO_FEW_ARGUMENTS], interface_name, method_name);
+        void* exception = env->new_string_nolen_no_mortal(env, stack, tmp_buffer);
+        env->set_exception(env, stack, exception);
+        *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
+      }
+    }
+  }
+  
   if (!*error_id) {
     *error_id = env->call_method_no_mortal(env, stack, method, args_width);
   }
-- 
2.43.0


From 2b71839b600abb341da8c915a80cff163a9f8d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 18/74] fix: a call of an interface method that does not have
 an implementation throws an exception

---
 lib/SPVM/Builder/include/spvm_method.h         | 1 +
 lib/SPVM/Builder/include/spvm_runtime_method.h | 1 +
 lib/SPVM/Builder/src/spvm_api.c                | 3 +++
 lib/SPVM/Builder/src/spvm_compiler.c           | 1 +
 lib/SPVM/Builder/src/spvm_op.c                 | 1 +
 5 files changed, 7 insertions(+)

diff --git a/lib/SPVM/Builder/include/spvm_method.h b/lib/SPVM/Builder/include/spvm_method.h
index b86dc85..55aaceb 100644
--- a/lib/SPVM/Builder/include/spvm_method.h
+++ b/lib/SPVM/Builder/include/spvm_method.h
@@ -40,6 +40,7 @@ struct spvm_method {
   int8_t is_precompile;
   int8_t is_native;
   int8_t is_required;
+  int8_t has_block;
   int8_t access_control_type;
   SPVM_OP* op_anon_method_field_var_decl_start;
 };
diff --git a/lib/SPVM/Builder/include/spvm_runtime_method.h b/lib/SPVM/Builder/include/spvm_runtime_method.h
index 908ddd2..1270482 100644
--- a/lib/SPVM/Builder/include/spvm_runtime_method.h
+++ b/lib/SPVM/Builder/include/spvm_runtime_method.h
@@ -37,6 +37,7 @@ struct spvm_runtime_method {
   int8_t is_init_method;
   int8_t is_destroy_method;
   int8_t is_required;
+  int8_t has_block;
   int8_t is_precompile_fallback;
 };
 
diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index f7b6d9b..c8d6906 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -4880,6 +4880,9 @@ int32_t SPVM_API_call_method_common(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTI
             error_id = SPVM_API_die(env, stack, "The execution address of the \"%s\" precompilation method in the \"%s\" class must not be NULL. Loading the dynamic link library maybe failed.", method->name, method->current_basic_type->name, __func__, FILE_NAME, __LINE__);
           }
         }
+        else if (current_basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE && !method->is_class_method && !method->has_block) {
+          error_id = SPVM_API_die(env, stack, "The \"%s\" method in the \"%s\" interface does not have an implementation.", method->name, current_basic_type->name, __func__, FILE_NAME, __LINE__);
+        }
         else {
           error_id = SPVM_API_call_method_vm(env, stack, method, args_width);
         }
diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 85365dd..5d90338 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -873,6 +873,7 @@ SPVM_RUNTIME* SPVM_COMPILER_build_runtime(SPVM_COMPILER* compiler) {
         runtime_method->is_precompile = method->is_precompile;
         runtime_method->is_destroy_method = method->is_destroy_method;
         runtime_method->is_required = method->is_required;
+        runtime_method->has_block = method->has_block;
         runtime_method->is_enum = method->is_enum;
         
         SPVM_STRING* method_name_string = SPVM_HASH_get(basic_type->constant_string_symtable, method->name, strlen(method->name));
diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index ca211f0..14e51f9 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -1575,6 +1575,7 @@ SPVM_OP* SPVM_OP_build_method(SPVM_COMPILER* compiler, SPVM_OP* op_method, SPVM_
   }
   
   method->op_block = op_block;
+  method->has_block = op_block != NULL;
   
   method->op_method = op_method;
   
-- 
2.43.0


From 60603e659e2c4a82785f14f5d4283d6aad9d0565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 19/74] fix: interface matching of array types never recurses:
 arrays of interfaces must be the same type

---
 lib/SPVM/Builder/src/spvm_type.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index ab55f4b..3589c0b 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1224,13 +1224,16 @@ int32_t SPVM_TYPE_satisfy_assignment_requirement(
       if (SPVM_TYPE_equals(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
         can_assign = 1;
       }
+      else if (interface_match) {
+        can_assign = 0;
+      }
       else {
         can_assign = SPVM_BASIC_TYPE_has_interface(compiler, src_type_basic_type_id, dist_type_basic_type_id, error_reason);
       }
     }
     // Source type is class array type
     else if (SPVM_TYPE_is_class_array_type(compiler, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
-      can_assign = SPVM_BASIC_TYPE_has_interface(compiler, src_type_basic_type_id, dist_type_basic_type_id, error_reason);
+      can_assign = interface_match ? 0 : SPVM_BASIC_TYPE_has_interface(compiler, src_type_basic_type_id, dist_type_basic_type_id, error_reason);
     }
     // Source type is undef type
     else if (SPVM_TYPE_is_undef_type(compiler, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
@@ -1272,7 +1275,10 @@ int32_t SPVM_TYPE_satisfy_assignment_requirement(
         }
         else {
           // Dist basic type is interface type
-          if (SPVM_BASIC_TYPE_is_interface_type(compiler, dist_type_basic_type_id)) {
+          if (interface_match) {
+            can_assign = 0;
+          }
+          else if (SPVM_BASIC_TYPE_is_interface_type(compiler, dist_type_basic_type_id)) {
             // Source basic type is interface type
             if (SPVM_BASIC_TYPE_is_interface_type(compiler, src_type_basic_type_id)) {
               can_assign = SPVM_BASIC_TYPE_has_interface(compiler, src_type_basic_type_id, dist_type_basic_type_id, error_reason);
-- 
2.43.0


From 4b17ca41e2e284ddcb0e0ad39af8923644e54234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 20/74] fix: an anonymous method is allowed what its outmost
 class is allowed

---
 lib/SPVM/Builder/src/spvm_op.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 14e51f9..6f87d1d 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -3690,6 +3690,11 @@ int32_t SPVM_OP_is_allowed(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic_type_
     is_allowed = 1;
   }
   else {
+    // An anonymous method has the access control of its outmost class
+    if (basic_type_current->is_generated_by_anon_method) {
+      current_basic_type_name = basic_type_current->outmost->name;
+    }
+    
     for (int32_t i = 0; i < allows->length; i++) {
       SPVM_ALLOW* allow = SPVM_LIST_get(allows, i);
       const char* allow_basic_type_name = allow->basic_type_name;
-- 
2.43.0


From 342aa4834e4c0488804ddea15222bd35b66c530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 21/74] fix: an anonymous method has the field access control
 of its outmost class

---
 lib/SPVM/Builder/src/spvm_check.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index f0830ff..3e8aa22 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3279,9 +3279,15 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
 
             SPVM_FIELD_ACCESS* field_access = op_cur->uv.field_access;
             
-            SPVM_FIELD* found_field_in_current_basic_type = SPVM_HASH_get(method->current_basic_type->unmerged_field_symtable, field_access->field->name, strlen(field_access->field->name));
+            // An anonymous method has the access control of its outmost class, except for its own fields
+            SPVM_BASIC_TYPE* access_basic_type = method->current_basic_type;
+            if (access_basic_type->is_generated_by_anon_method && field_access->field->current_basic_type != access_basic_type) {
+              access_basic_type = access_basic_type->outmost;
+            }
+            
+            SPVM_FIELD* found_field_in_current_basic_type = SPVM_HASH_get(access_basic_type->unmerged_field_symtable, field_access->field->name, strlen(field_access->field->name));
             
-            int32_t is_parent_field = !found_field_in_current_basic_type && !method->current_basic_type->is_generated_by_anon_method;
+            int32_t is_parent_field = !found_field_in_current_basic_type;
             
             if (!SPVM_CHECK_can_access(compiler, method->current_basic_type,  field_access->field->current_basic_type, field_access->field->access_control_type, is_parent_field)) {
               if (!SPVM_OP_is_allowed(compiler, method->current_basic_type, field->current_basic_type, is_parent_field)) {
-- 
2.43.0


From 11201cdbfb6452e8b30bf50e2acc9f31228a31b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 22/74] fix: a field redefined in a child class does not drop
 the remaining fields of the child class

---
 lib/SPVM/Builder/src/spvm_check.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 3e8aa22..2a0daac 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -359,7 +359,8 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
               compile_error = 1;
             }
             
-            break;
+            // The field is inherited from the super class
+            continue;
           }
           
           SPVM_FIELD* new_field;
-- 
2.43.0


From f2e651038bc2d8d2d3a922de1dc994f9660adb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 23/74] fix: make_read_only of undef does nothing instead of
 crashing

---
 lib/SPVM/Builder/src/spvm_api.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index c8d6906..15b07c1 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -3669,8 +3669,7 @@ void SPVM_API_dump_recursive(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* obje
 }
 
 void SPVM_API_make_read_only(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* string) {
-  SPVM_RUNTIME_BASIC_TYPE* string_basic_type = SPVM_API_get_object_basic_type(env, stack, string);
-  if (string && string_basic_type->id == SPVM_NATIVE_C_BASIC_TYPE_ID_STRING && string->type_dimension == 0) {
+  if (string && SPVM_API_is_string(env, stack, string)) {
     string->flag |= SPVM_OBJECT_C_FLAG_IS_READ_ONLY;
   }
 }
-- 
2.43.0


From 4306ca0b695203c508c578afb7464cc2568c6bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 24/74] fix: a write to a character of a string made read-only
 throws through every alias

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 2d9ab2b..4c6631f 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -4705,6 +4705,21 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                       SPVM_OPCODE_BUILDER_push_goto_end_of_eval_or_method_on_exception(compiler, opcode_list, eval_block_stack_goto_opcode_index->length, goto_end_of_eval_on_exception_opcode_index_stack, goto_end_of_method_on_exception_opcode_index_stack, method->op_method, op_cur->line);
                     }
                     else {
+                      // A mutable string could be made read-only after it has been assigned to a mutable string type
+                      if (SPVM_TYPE_is_string_type(compiler, array_type->basic_type->id, array_type->dimension, array_type->flag)) {
+                        SPVM_OPCODE opcode = {0};
+                        
+                        SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_MOVE_OBJECT_CHECK_READ_ONLY_STRING);
+                        
+                        int32_t typed_var_index_string = SPVM_OPCODE_BUILDER_get_typed_var_index(compiler, op_term_array);
+                        
+                        opcode.operand0 = typed_var_index_string;
+                        opcode.operand1 = typed_var_index_string;
+                        SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
+                        
+                        SPVM_OPCODE_BUILDER_push_goto_end_of_eval_or_method_on_exception(compiler, opcode_list, eval_block_stack_goto_opcode_index->length, goto_end_of_eval_on_exception_opcode_index_stack, goto_end_of_method_on_exception_opcode_index_stack, method->op_method, op_cur->line);
+                      }
+                      
                       SPVM_OPCODE opcode = {0};
                       
                       
-- 
2.43.0


From 57ca7b45d5c0a68d352a0879c7ccbec8b17311c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 25/74] fix: a reference to a class variable is a compile error
 instead of a reference to a temporary

---
 lib/SPVM/Builder/src/spvm_check.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 2a0daac..137415d 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -2954,6 +2954,11 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
           case SPVM_OP_C_ID_REFERENCE: {
             
             SPVM_OP* op_var = op_cur->first;
+            if (op_var->id != SPVM_OP_C_ID_VAR) {
+              SPVM_COMPILER_error(compiler, "The operand of reference operator must be a local variable.\n  at %s line %d", op_cur->file, op_cur->line);
+              return;
+            }
+            
             SPVM_TYPE* var_type = SPVM_CHECK_get_type(compiler, op_var);
             if (!(SPVM_TYPE_is_numeric_type(compiler, var_type->basic_type->id, var_type->dimension, var_type->flag) || SPVM_TYPE_is_mulnum_type(compiler, var_type->basic_type->id, var_type->dimension, var_type->flag))) {
               SPVM_COMPILER_error(compiler, "The type of the operand of refernece operator must be a numeric type or a multi-numeric type.\n  at %s line %d", op_cur->file, op_cur->line);
-- 
2.43.0


From f76db620328b8387761500b7167dfea57f9cc193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 26/74] fix: a multi-numeric value can be assigned through a
 multi-numeric reference

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 49 ++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 4c6631f..3b2aa18 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -4517,6 +4517,55 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                     SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
                   }
                 }
+                // $$mulnum_ref = $mulnum
+                else if (op_assign_dist->id == SPVM_OP_C_ID_DEREFERENCE && SPVM_BASIC_TYPE_is_mulnum_type(compiler, SPVM_CHECK_get_type(compiler, op_assign_dist)->basic_type->id)) {
+                  SPVM_TYPE* type = SPVM_CHECK_get_type(compiler, op_assign_dist->first);
+                  
+                  SPVM_FIELD* first_field = SPVM_LIST_get(type->basic_type->fields, 0);
+                  
+                  SPVM_OPCODE opcode = {0};
+                  
+                  switch (first_field->type->basic_type->id) {
+                    case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE: {
+                      SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_BYTE);
+                      break;
+                    }
+                    case SPVM_NATIVE_C_BASIC_TYPE_ID_SHORT: {
+                      SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_SHORT);
+                      break;
+                    }
+                    case SPVM_NATIVE_C_BASIC_TYPE_ID_INT: {
+                      SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_INT);
+                      break;
+                    }
+                    case SPVM_NATIVE_C_BASIC_TYPE_ID_LONG: {
+                      SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_LONG);
+                      break;
+                    }
+                    case SPVM_NATIVE_C_BASIC_TYPE_ID_FLOAT: {
+                      SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_FLOAT);
+                      break;
+                    }
+                    case SPVM_NATIVE_C_BASIC_TYPE_ID_DOUBLE: {
+                      SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_DOUBLE);
+                      break;
+                    }
+                    default: {
+                      assert(0);
+                    }
+                  }
+                  
+                  int32_t typed_var_index_out = SPVM_OPCODE_BUILDER_get_typed_var_index(compiler, op_assign_dist);
+                  int32_t typed_var_index_in = SPVM_OPCODE_BUILDER_get_typed_var_index(compiler, op_assign_src);
+                  
+                  int32_t fields_length = type->basic_type->fields->length;
+                  for (int32_t field_index = 0; field_index < fields_length; field_index++) {
+                    opcode.operand0 = typed_var_index_out;
+                    opcode.operand1 = typed_var_index_in + field_index;
+                    opcode.operand2 = field_index;
+                    SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
+                  }
+                }
                 // $$var_ref = $var
                 else if (op_assign_dist->id == SPVM_OP_C_ID_DEREFERENCE) {
                   SPVM_OP* op_deref = op_assign_dist;
-- 
2.43.0


From 4faf505d7d104cd8f9699b63aa80081b06b504ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 27/74] fix: any operand can initialize a field of an anonymous
 method declared with a variable name

---
 lib/SPVM/Builder/src/spvm_op.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 6f87d1d..4a86134 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -1711,8 +1711,6 @@ SPVM_OP* SPVM_OP_build_anon_method_field(SPVM_COMPILER* compiler, SPVM_OP* op_fi
   }
   else if (op_name_field->id == SPVM_OP_C_ID_VAR) {
     
-    assert(op_default->id == SPVM_OP_C_ID_VAR);
-    
     op_name_field = SPVM_OP_new_op_name(compiler, op_name_field->uv.var->name + 1, op_name_field->file, op_name_field->line);
     
     is_decl_var_in_anon_method = 1;
-- 
2.43.0


From 9121e9d0cb828d7a1ecd3681892f22eed6c7652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 28/74] fix: a failed compilation does not leave its tokenizer
 state to the next compilation

---
 lib/SPVM/Builder/src/spvm_compiler.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 5d90338..aa1eea8 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -37,6 +37,7 @@
 #include "spvm_var.h"
 #include "spvm_string.h"
 #include "spvm_class_file.h"
+#include "spvm_toke.h"
 #include "spvm_mutex.h"
 
 #include "spvm_api.h"
@@ -216,6 +217,16 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   SPVM_yydebug = 0;
 #endif
 
+  // Discard the tokenizer state left by a previous compilation that failed in the middle of a source
+  compiler->current_class_content = NULL;
+  compiler->current_class_content_length = 0;
+  compiler->ch_ptr = "";
+  compiler->next_string_literal_ch_ptr = NULL;
+  compiler->expect_method_name = 0;
+  compiler->expect_field_name = 0;
+  compiler->before_token_is_arrow = 0;
+  compiler->previous_token_is_heredoc = 0;
+  compiler->var_expansion_state = SPVM_TOKE_C_VAR_EXPANSION_STATE_NOT_STARTED;
   compiler->end_of_file = 1;
   
   int32_t yyparse_error_id = SPVM_yyparse(compiler);
-- 
2.43.0


From e86ebbee53f88e996c93d6244f5c10848765ef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 29/74] fix: a hash keeps its weak values weak when it grows

---
 lib/SPVM/Hash.spvm | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Hash.spvm b/lib/SPVM/Hash.spvm
index cac90bc..c80f917 100644
--- a/lib/SPVM/Hash.spvm
+++ b/lib/SPVM/Hash.spvm
@@ -699,13 +699,16 @@ class Hash {
     my $entries_length = @{$self->{entries}};
     $new_entries_length = @{$self->{entries}} * 2;
     my $new_entries = new Hash::Entry [$new_entries_length];
-    my $new_keys_length = 0;
     # iterate entries
     for (my $i = 0; $i < $entries_length; ++$i) {
       my $entry = $self->{entries}->[$i];
       while ($entry) {
-        $self->_set_to_container($new_entries, $new_entries_length, \$new_keys_length, $entry->{key}, $entry->{value});
-        $entry = $entry->{next_entry};
+        # The entry itself is moved so that a weak reference in it is kept
+        my $next_entry = $entry->{next_entry};
+        my $index = $self->_index_by_key($entry->{key}, $new_entries_length);
+        $entry->{next_entry} = $new_entries->[$index];
+        $new_entries->[$index] = $entry;
+        $entry = $next_entry;
       }
     }
     $self->{entries} = $new_entries;
-- 
2.43.0


From bf94983f2cdb317a652f9ff0db066ff15aad2e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 30/74] fix: remove and replace of the numeric lists clear the
 elements after the end and check the range without overflow

---
 lib/SPVM/ByteList.spvm   | 8 +++++++-
 lib/SPVM/DoubleList.spvm | 8 +++++++-
 lib/SPVM/FloatList.spvm  | 8 +++++++-
 lib/SPVM/IntList.spvm    | 8 +++++++-
 lib/SPVM/LongList.spvm   | 8 +++++++-
 lib/SPVM/ShortList.spvm  | 8 +++++++-
 6 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/ByteList.spvm b/lib/SPVM/ByteList.spvm
index dac6c47..a164f2b 100644
--- a/lib/SPVM/ByteList.spvm
+++ b/lib/SPVM/ByteList.spvm
@@ -144,6 +144,8 @@ class ByteList {
     my $move_length = $length - $index - 1;
     Array->memmove_byte($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -157,7 +159,7 @@ class ByteList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($offset <= $self->{length} && $remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
@@ -176,6 +178,10 @@ class ByteList {
       Array->memcpy_byte($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    if ($new_length < $self->{length}) {
+      Array->memset_byte($self->{array}, 0, $new_length, $self->{length} - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
diff --git a/lib/SPVM/DoubleList.spvm b/lib/SPVM/DoubleList.spvm
index bb064de..d50f4ff 100644
--- a/lib/SPVM/DoubleList.spvm
+++ b/lib/SPVM/DoubleList.spvm
@@ -144,6 +144,8 @@ class DoubleList {
     my $move_length = $length - $index - 1;
     Array->memmove_double($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -157,7 +159,7 @@ class DoubleList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($offset <= $self->{length} && $remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
@@ -176,6 +178,10 @@ class DoubleList {
       Array->memcpy_double($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    if ($new_length < $self->{length}) {
+      Array->memset_double($self->{array}, 0, $new_length, $self->{length} - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
diff --git a/lib/SPVM/FloatList.spvm b/lib/SPVM/FloatList.spvm
index 32fafca..d1d5379 100644
--- a/lib/SPVM/FloatList.spvm
+++ b/lib/SPVM/FloatList.spvm
@@ -144,6 +144,8 @@ class FloatList {
     my $move_length = $length - $index - 1;
     Array->memmove_float($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -157,7 +159,7 @@ class FloatList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($offset <= $self->{length} && $remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
@@ -176,6 +178,10 @@ class FloatList {
       Array->memcpy_float($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    if ($new_length < $self->{length}) {
+      Array->memset_float($self->{array}, 0, $new_length, $self->{length} - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
diff --git a/lib/SPVM/IntList.spvm b/lib/SPVM/IntList.spvm
index a5a5b18..44290a2 100644
--- a/lib/SPVM/IntList.spvm
+++ b/lib/SPVM/IntList.spvm
@@ -144,6 +144,8 @@ class IntList {
     my $move_length = $length - $index - 1;
     Array->memmove_int($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -157,7 +159,7 @@ class IntList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($offset <= $self->{length} && $remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
@@ -176,6 +178,10 @@ class IntList {
       Array->memcpy_int($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    if ($new_length < $self->{length}) {
+      Array->memset_int($self->{array}, 0, $new_length, $self->{length} - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
diff --git a/lib/SPVM/LongList.spvm b/lib/SPVM/LongList.spvm
index ffaef68..ddc07dc 100644
--- a/lib/SPVM/LongList.spvm
+++ b/lib/SPVM/LongList.spvm
@@ -144,6 +144,8 @@ class LongList {
     my $move_length = $length - $index - 1;
     Array->memmove_long($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -157,7 +159,7 @@ class LongList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($offset <= $self->{length} && $remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
@@ -176,6 +178,10 @@ class LongList {
       Array->memcpy_long($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    if ($new_length < $self->{length}) {
+      Array->memset_long($self->{array}, 0, $new_length, $self->{length} - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
diff --git a/lib/SPVM/ShortList.spvm b/lib/SPVM/ShortList.spvm
index ffaf6c5..d34129d 100644
--- a/lib/SPVM/ShortList.spvm
+++ b/lib/SPVM/ShortList.spvm
@@ -144,6 +144,8 @@ class ShortList {
     my $move_length = $length - $index - 1;
     Array->memmove_short($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -157,7 +159,7 @@ class ShortList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($offset <= $self->{length} && $remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
@@ -176,6 +178,10 @@ class ShortList {
       Array->memcpy_short($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    if ($new_length < $self->{length}) {
+      Array->memset_short($self->{array}, 0, $new_length, $self->{length} - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
-- 
2.43.0


From 1ab20cb3431bbe0a409fefc04df3ee554894a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 31/74] fix: Immutable::DoubleList#to_array returns a copy

---
 lib/SPVM/Immutable/DoubleList.spvm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Immutable/DoubleList.spvm b/lib/SPVM/Immutable/DoubleList.spvm
index 636d73e..c476272 100644
--- a/lib/SPVM/Immutable/DoubleList.spvm
+++ b/lib/SPVM/Immutable/DoubleList.spvm
@@ -67,6 +67,6 @@ class Immutable::DoubleList {
     
     Array->memcpy_double($new_array, 0, $array, 0, $length);
     
-    return $array;
+    return $new_array;
   }
 }
-- 
2.43.0


From f6efbab1badff4db7501a4da2d69abd92b53031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 32/74] fix: StringBuffer clears the bytes after the end,
 checks ranges without overflow and does not change when set throws

---
 lib/SPVM/StringBuffer.spvm | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/StringBuffer.spvm b/lib/SPVM/StringBuffer.spvm
index c9db6ff..bd7d355 100644
--- a/lib/SPVM/StringBuffer.spvm
+++ b/lib/SPVM/StringBuffer.spvm
@@ -78,7 +78,7 @@ class StringBuffer {
       $length = length $string - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ($offset <= $string_length && $length <= $string_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string $string.";
     }
     
@@ -108,7 +108,7 @@ class StringBuffer {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($offset <= $self->{length} && $remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$string buffer.";
     }
     
@@ -127,6 +127,10 @@ class StringBuffer {
       Fn->memcpy($self->{string}, $offset, $replace, 0, $replace_length);
     }
     
+    if ($new_length < $self->{length}) {
+      Fn->memset_char($self->{string}, '\0', $new_length, $self->{length} - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
@@ -196,6 +200,10 @@ class StringBuffer {
   
   method set : void ($string : string) {
     
+    unless ($string) {
+      die "The string \$string must be defined.";
+    }
+    
     $self->set_length(0);
     
     $self->push($string);
-- 
2.43.0


From 4c1326b88a7282aced501c405ce112e7f1b5d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 33/74] fix: List inserts undef, checks types before it
 changes, releases removed elements and extends a wrapped queue correctly

---
 lib/SPVM/List.spvm | 49 ++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index ddee985..983bcae 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -114,12 +114,9 @@ class List {
     
     my $remove_length = 0;
     
-    my $array = (object[])undef;
+    my $array = Array->new_proto($self->{array}, 1);
     
-    if ($element) {
-      $array = Array->new_array_proto_element($element, 1);
-      $array->[0] = $element;
-    }
+    $array->[0] = $element;
     
     $self->replace($index, $remove_length, $array);
   }
@@ -152,11 +149,11 @@ class List {
     
     $self->_extend($new_length);
     
-    my $index = $length;
+    my $real_index = ($self->{offset} + $length) % $self->{capacity};
     
-    $self->{length} = $new_length;
+    $self->{array}[$real_index] = $element;
     
-    $self->set($index, $element);
+    $self->{length} = $new_length;
   }
   
   method remove : object ($index : int) {
@@ -187,13 +184,20 @@ class List {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($index + $remove_length <= $self->{length}) {
+    unless ($index <= $self->{length} && $remove_length <= $self->{length} - $index) {
       die "The index \$index + the removal length \$remove_length must be less than or equal to the length of this list.";
     }
     
     my $replace_length = 0;
     if ($replace) {
       $replace_length = @$replace;
+      
+      # Check the types of all elements before the list is changed
+      my $new_replace = Array->new_proto($self->{array}, $replace_length);
+      for (my $i = 0; $i < $replace_length; $i++) {
+        $new_replace->[$i] = $replace->[$i];
+      }
+      $replace = $new_replace;
     }
     
     my $new_length = $self->{length} - $remove_length + $replace_length;
@@ -220,7 +224,11 @@ class List {
       for (my $i = 0; $i < $move_length; $i++) {
         my $element = $self->get($index + $remove_length + $i);
         $self->set($index + $replace_length + $i, $element);
-        $self->set($index + $remove_length + $i, undef);
+      }
+      
+      # Release the elements of the rest
+      for (my $i = $new_length; $i < $self->{length}; $i++) {
+        $self->set($i, undef);
       }
     }
     
@@ -335,18 +343,17 @@ class List {
     my $new_length = $length + 1;
     $self->_extend($new_length);
     
-    my $array = $self->{array};
-    
-    $self->{offset}--;
+    my $offset = $self->{offset} - 1;
     
-    if ($self->{offset} < 0) {
-      $self->{offset} = $self->{capacity} - 1;
+    if ($offset < 0) {
+      $offset = $self->{capacity} - 1;
     }
     
-    $self->{length}++;
+    $self->{array}[$offset] = $element;
     
-    $self->set(0, $element);
+    $self->{offset} = $offset;
     
+    $self->{length} = $new_length;
   }
   
   protected method _extend : void ($new_capacity_at_least : int, $just : int = 0) {
@@ -384,11 +391,15 @@ class List {
     
     my $offset = $self->{offset};
     
-    Array->memcpy_object_address($new_array, $offset, $array, $offset, $capacity - $offset);
+    # The elements are moved to the beginning of the new array
+    my $first_length = $capacity - $offset;
+    
+    Array->memcpy_object_address($new_array, 0, $array, $offset, $first_length);
     
-    Array->memcpy_object_address($new_array, $capacity, $array, 0, $offset);
+    Array->memcpy_object_address($new_array, $first_length, $array, 0, $offset);
     
     $self->{array} = $new_array;
+    $self->{offset} = 0;
     $self->{capacity} = $new_capacity;
   }
 }
-- 
2.43.0


From 64f8609aea564421addc91e897d16ff0f28338ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 34/74] fix: the sort functions check the range without
 overflow

---
 lib/SPVM/Sort.spvm | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/SPVM/Sort.spvm b/lib/SPVM/Sort.spvm
index 7694a53..1e3414a 100644
--- a/lib/SPVM/Sort.spvm
+++ b/lib/SPVM/Sort.spvm
@@ -29,7 +29,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -65,7 +65,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -101,7 +101,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -137,7 +137,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -173,7 +173,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -209,7 +209,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -240,7 +240,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -276,7 +276,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
-- 
2.43.0


From aef340c48f70267cd6516df851d7c75a85d5c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 35/74] fix: Fn->equals_range checks the range of the second
 string with its own offset

---
 lib/SPVM/Fn.spvm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index af56212..1f9142b 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -137,7 +137,7 @@ class Fn {
     }
     
     my $string2_length = length $string2;
-    unless ($string1_offset + $length <= $string2_length) {
+    unless ($string2_offset + $length <= $string2_length) {
       return 0;
     }
     
-- 
2.43.0


From 76ff000d50a578f089763f1b8611e01d321c7690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 36/74] fix: Fn and Array check ranges without overflow and
 Fn's memory functions reject negative offsets

---
 lib/SPVM/Array.c    | 48 ++++++++++++++++++++++-----------------------
 lib/SPVM/Array.spvm | 42 +++++++++++++++++++--------------------
 lib/SPVM/Fn.c       | 36 ++++++++++++++++++++++++++++------
 lib/SPVM/Fn.spvm    | 16 +++++++--------
 4 files changed, 83 insertions(+), 59 deletions(-)

diff --git a/lib/SPVM/Array.c b/lib/SPVM/Array.c
index d7f92a6..d8ddd4a 100644
--- a/lib/SPVM/Array.c
+++ b/lib/SPVM/Array.c
@@ -45,11 +45,11 @@ int32_t SPVM__Array__memcpy_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
   int8_t* source = env->get_elems_byte(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!((int64_t)dest_offset + length <= dest_length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!((int64_t)source_offset + length <= source_length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -96,11 +96,11 @@ int32_t SPVM__Array__memcpy_double(SPVM_ENV* env, SPVM_VALUE* stack) {
   double* source = env->get_elems_double(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!((int64_t)dest_offset + length <= dest_length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!((int64_t)source_offset + length <= source_length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -147,11 +147,11 @@ int32_t SPVM__Array__memcpy_float(SPVM_ENV* env, SPVM_VALUE* stack) {
   float* source = env->get_elems_float(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!((int64_t)dest_offset + length <= dest_length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!((int64_t)source_offset + length <= source_length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -198,11 +198,11 @@ int32_t SPVM__Array__memcpy_int(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t* source = env->get_elems_int(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!((int64_t)dest_offset + length <= dest_length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!((int64_t)source_offset + length <= source_length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -249,11 +249,11 @@ int32_t SPVM__Array__memcpy_long(SPVM_ENV* env, SPVM_VALUE* stack) {
   int64_t* source = env->get_elems_long(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!((int64_t)dest_offset + length <= dest_length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!((int64_t)source_offset + length <= source_length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -300,11 +300,11 @@ int32_t SPVM__Array__memcpy_short(SPVM_ENV* env, SPVM_VALUE* stack) {
   int16_t* source = env->get_elems_short(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!((int64_t)dest_offset + length <= dest_length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!((int64_t)source_offset + length <= source_length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -351,11 +351,11 @@ int32_t SPVM__Array__memmove_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
   int8_t* source = env->get_elems_byte(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!((int64_t)dest_offset + length <= dest_length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!((int64_t)source_offset + length <= source_length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -402,11 +402,11 @@ int32_t SPVM__Array__memmove_double(SPVM_ENV* env, SPVM_VALUE* stack) {
   double* source = env->get_elems_double(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!((int64_t)dest_offset + length <= dest_length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!((int64_t)source_offset + length <= source_length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -453,11 +453,11 @@ int32_t SPVM__Array__memmove_float(SPVM_ENV* env, SPVM_VALUE* stack) {
   float* source = env->get_elems_float(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!((int64_t)dest_offset + length <= dest_length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!((int64_t)source_offset + length <= source_length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -504,11 +504,11 @@ int32_t SPVM__Array__memmove_int(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t* source = env->get_elems_int(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!((int64_t)dest_offset + length <= dest_length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!((int64_t)source_offset + length <= source_length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -555,11 +555,11 @@ int32_t SPVM__Array__memmove_long(SPVM_ENV* env, SPVM_VALUE* stack) {
   int64_t* source = env->get_elems_long(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!((int64_t)dest_offset + length <= dest_length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!((int64_t)source_offset + length <= source_length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -606,11 +606,11 @@ int32_t SPVM__Array__memmove_short(SPVM_ENV* env, SPVM_VALUE* stack) {
   int16_t* source = env->get_elems_short(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!((int64_t)dest_offset + length <= dest_length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!((int64_t)source_offset + length <= source_length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
diff --git a/lib/SPVM/Array.spvm b/lib/SPVM/Array.spvm
index 607e93e..1ff6850 100644
--- a/lib/SPVM/Array.spvm
+++ b/lib/SPVM/Array.spvm
@@ -23,7 +23,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -49,7 +49,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -75,7 +75,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -101,7 +101,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -127,7 +127,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -170,7 +170,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -195,7 +195,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -222,7 +222,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -593,11 +593,11 @@ class Array {
     my $dest_length = @$dest;
     my $source_length = @$source;
     
-    unless ($dest_offset + $length <= $dest_length) {
+    unless ((long)$dest_offset + $length <= $dest_length) {
       die "The destination offset \$dest_offset + the length \$length must be less than or equal to the length of the destination \$dest.";
     }
     
-    unless ($source_offset + $length <= $source_length) {
+    unless ((long)$source_offset + $length <= $source_length) {
       die "The source offset \$source_offset + the length \$length must be less than or equal to the length of the source \$source.";
     }
     
@@ -639,11 +639,11 @@ class Array {
     my $dest_length = @$dest;
     my $source_length = @$source;
     
-    unless ($dest_offset + $length <= $dest_length) {
+    unless ((long)$dest_offset + $length <= $dest_length) {
       die "The destination offset \$dest_offset + the length \$length must be less than or equal to the length of the destination \$dest.";
     }
     
-    unless ($source_offset + $length <= $source_length) {
+    unless ((long)$source_offset + $length <= $source_length) {
       die "The source offset \$source_offset + the length \$length must be less than or equal to the length of the source \$source.";
     }
     
@@ -677,7 +677,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -700,7 +700,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -723,7 +723,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -746,7 +746,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -769,7 +769,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -792,7 +792,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -815,7 +815,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -1100,7 +1100,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -1416,7 +1416,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
diff --git a/lib/SPVM/Fn.c b/lib/SPVM/Fn.c
index d173bb3..09b65de 100644
--- a/lib/SPVM/Fn.c
+++ b/lib/SPVM/Fn.c
@@ -375,6 +375,14 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The length $length must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (!(dest_offset >= 0)) {
+    return env->die(env, stack, "The offset $dest_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(source_offset >= 0)) {
+    return env->die(env, stack, "The offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
   if (length == 0) {
     return 0;
   }
@@ -384,7 +392,7 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t dest_elem_size = env->get_elem_size(env, stack, obj_dest);
   int32_t dest_byte_length = dest_elem_size * dest_length;
   
-  if (!(dest_offset + length <= dest_byte_length)) {
+  if (!((int64_t)dest_offset + length <= dest_byte_length)) {
     return env->die(env, stack, "The offset $dest_offset + the length $length must be less than or equal to the length of the dest $obj_dest.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -393,7 +401,7 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t source_elem_size = env->get_elem_size(env, stack, obj_source);
   int32_t source_byte_length = source_elem_size * source_length;
   
-  if (!(source_offset + length <= source_byte_length)) {
+  if (!((int64_t)source_offset + length <= source_byte_length)) {
     return env->die(env, stack, "The offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -434,6 +442,14 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The length $length must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (!(dest_offset >= 0)) {
+    return env->die(env, stack, "The offset $dest_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(source_offset >= 0)) {
+    return env->die(env, stack, "The offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
   if (length == 0) {
     return 0;
   }
@@ -443,7 +459,7 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t dest_elem_size = env->get_elem_size(env, stack, obj_dest);
   int32_t dest_byte_length = dest_elem_size * dest_length;
   
-  if (!(dest_offset + length <= dest_byte_length)) {
+  if (!((int64_t)dest_offset + length <= dest_byte_length)) {
     return env->die(env, stack, "The offset $dest_offset + the length $length must be less than or equal to the length of the dest $obj_dest.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -452,7 +468,7 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t source_elem_size = env->get_elem_size(env, stack, obj_source);
   int32_t source_byte_length = source_elem_size * source_length;
   
-  if (!(source_offset + length <= source_byte_length)) {
+  if (!((int64_t)source_offset + length <= source_byte_length)) {
     return env->die(env, stack, "The offset $source_offset + the length $length must be less than or equal to the length of the source $obj_source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -836,12 +852,20 @@ int32_t SPVM__Fn__memcmp(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The length $length must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (!(data1_offset >= 0)) {
+    return env->die(env, stack, "The offset $data1_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(data2_offset >= 0)) {
+    return env->die(env, stack, "The offset $data2_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
   char* data1 = (char*)env->get_chars(env, stack, obj_data1);
   int32_t data1_length = env->length(env, stack, obj_data1);
   int32_t data1_elem_size = env->get_elem_size(env, stack, obj_data1);
   int32_t data1_byte_length = data1_elem_size * data1_length;
   
-  if (!(data1_offset + length <= data1_byte_length)) {
+  if (!((int64_t)data1_offset + length <= data1_byte_length)) {
     return env->die(env, stack, "The offset $data1_offset + the length $length must be less than or equal to the length of the data1 $obj_data1.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -850,7 +874,7 @@ int32_t SPVM__Fn__memcmp(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t data2_elem_size = env->get_elem_size(env, stack, obj_data2);
   int32_t data2_byte_length = data2_elem_size * data2_length;
   
-  if (!(data2_offset + length <= data2_byte_length)) {
+  if (!((int64_t)data2_offset + length <= data2_byte_length)) {
     return env->die(env, stack, "The offset $data2_offset + the length $length must be less than or equal to the length of the data2 $data2.", __func__, FILE_NAME, __LINE__);
   }
   
diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index 1f9142b..3d50880 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -132,12 +132,12 @@ class Fn {
     }
     
     my $string1_length = length $string1;
-    unless ($string1_offset + $length <= $string1_length) {
+    unless ((long)$string1_offset + $length <= $string1_length) {
       return 0;
     }
     
     my $string2_length = length $string2;
-    unless ($string2_offset + $length <= $string2_length) {
+    unless ((long)$string2_offset + $length <= $string2_length) {
       return 0;
     }
     
@@ -266,7 +266,7 @@ class Fn {
       $length = $string_length - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ((long)$offset + $length <= $string_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string \$string.";
     }
     
@@ -813,7 +813,7 @@ class Fn {
       $length = $string_length - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ((long)$offset + $length <= $string_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string \$string.";
     }
     
@@ -1099,7 +1099,7 @@ class Fn {
           $range = 0;
         }
         else {
-          if ($current_utf8_offset < $utf8_offset + $utf8_length) {
+          if ($current_utf8_offset < (long)$utf8_offset + $utf8_length) {
             $range = 0;
           }
           else {
@@ -1120,7 +1120,7 @@ class Fn {
     }
     
     if ($utf8_length >= 0) {
-      unless ($utf8_offset + $utf8_length <= $current_utf8_offset) {
+      unless ((long)$utf8_offset + $utf8_length <= $current_utf8_offset) {
         die "The offset \$utf8_offset + the length \$utf8_length must be less than or equal to the UTF-8 length of the string \$string.";
       }
     }
@@ -1265,7 +1265,7 @@ class Fn {
       $length = $string_length - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ((long)$offset + $length <= $string_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string \$string.";
     }
     
@@ -1702,7 +1702,7 @@ class Fn {
     
     my $binary_length = length $binary;
     
-    unless ($offset + $size <= $binary_length) {
+    unless ((long)$offset + $size <= $binary_length) {
       die "The byte size \$size must be less than or equal to the offset \$offset plus the length of the binary data \$binary.";
     }
     
-- 
2.43.0


From ed770dcf4b17e69a8e72a1089021d5560d6b579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:42 +0000
Subject: [PATCH 37/74] fix: lcfirst and ucfirst accept an empty string

---
 lib/SPVM/Fn.spvm | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index 3d50880..d711734 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -545,7 +545,9 @@ class Fn {
         $new_string->[0] = $char;
       }
     }
-    Fn->memcpy($new_string, 1, $string, 1, $length - 1);
+    if ($length > 1) {
+      Fn->memcpy($new_string, 1, $string, 1, $length - 1);
+    }
     
     return $new_string;
   }
@@ -1048,7 +1050,9 @@ class Fn {
         $new_string->[0] = $char;
       }
     }
-    Fn->memcpy($new_string, 1, $string, 1, $length - 1);
+    if ($length > 1) {
+      Fn->memcpy($new_string, 1, $string, 1, $length - 1);
+    }
     
     return $new_string;
   }
-- 
2.43.0


From c496ff69a8fd5bdf5aa3ea868cc0bd9287361fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:42 +0000
Subject: [PATCH 38/74] fix: a range of four or more characters is refused by
 tr

---
 lib/SPVM/Fn.spvm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index d711734..d098dc5 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -1175,7 +1175,7 @@ class Fn {
       if ($code_points_length == 1) {
         $max_code_point = $min_code_point;
       }
-      if ($max_code_point < 0) {
+      else {
         die "The range format of the argument name $arg_name must be 1 or 3 characters.";
       }
     }
-- 
2.43.0


From 41d2e35705880b361b8886626d79a7b56ce633bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:42 +0000
Subject: [PATCH 39/74] fix: to_int, to_long, to_float and to_double refuse an
 empty string and text after a null character

---
 lib/SPVM/Fn.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Fn.c b/lib/SPVM/Fn.c
index 09b65de..e0aac2a 100644
--- a/lib/SPVM/Fn.c
+++ b/lib/SPVM/Fn.c
@@ -524,7 +524,7 @@ int32_t SPVM__Fn__to_double(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   double num = strtod(string, &end);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a double number.", __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE) {
@@ -549,7 +549,7 @@ int32_t SPVM__Fn__to_float(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   float num = strtof(string, &end);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a float number.", __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE) {
@@ -579,7 +579,7 @@ int32_t SPVM__Fn__to_int_with_base(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   int64_t num = strtol(string, &end, digit);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a %d-digit 32-bit integer", digit, __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE || num < INT32_MIN || num > INT32_MAX) {
@@ -609,7 +609,7 @@ int32_t SPVM__Fn__to_long_with_base(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   int64_t num = strtoll(string, &end, digit);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a %d-digit 64-bit integer", digit, __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE) {
-- 
2.43.0


From edc25ebc15e3e6627010fd55b8dafe38676cc871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:42 +0000
Subject: [PATCH 40/74] fix: slice checks the range before the byte offset can
 overflow

---
 lib/SPVM/Fn.spvm | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index d098dc5..4aba778 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -1590,6 +1590,14 @@ class Fn {
       die "The type of the array \$array must be an object array type, a numeric array type or a multi-numeric array type.";
     }
     
+    unless ($offset >= 0) {
+      die "The offset \$offset must be greater than or equal to 0.";
+    }
+    
+    unless ((long)$offset + $length <= &array_length($array)) {
+      die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
+    }
+    
     my $sliced_array = Array->new_proto_any($array, $length);
     
     if (&is_object_array($array)) {
-- 
2.43.0


From b91d96d2b6010def87bea1212f43e37518e0c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:42 +0000
Subject: [PATCH 41/74] fix: Array repeat repeats the whole array and refuses a
 length over the int range

---
 lib/SPVM/Array.spvm | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Array.spvm b/lib/SPVM/Array.spvm
index 1ff6850..5ea100d 100644
--- a/lib/SPVM/Array.spvm
+++ b/lib/SPVM/Array.spvm
@@ -1492,18 +1492,22 @@ class Array {
     
     my $elem_size = Fn->get_elem_size($array);
     
+    unless ((long)$count * $length <= Fn->INT_MAX) {
+      die "The length of the array \$array * the repeat count \$count must be less than or equal to the max value of int type.";
+    }
+    
     my $ret_length = $count * $length;
     
     my $ret_array = Array->new_proto_any($array, $ret_length);
     
     if (Fn->is_object_array($array)) {
-      for (my $i = 0; $i < $length; $i++) {
-        Array->memcpy_object_address((object[])$ret_array, $count * $i, (object[])$array, 0, $count);
+      for (my $i = 0; $i < $count; $i++) {
+        Array->memcpy_object_address((object[])$ret_array, $length * $i, (object[])$array, 0, $length);
       }
     }
     else {
-      for (my $i = 0; $i < $length; $i++) {
-        Fn->memcpy($ret_array, $elem_size * $count * $i, $array, 0, $elem_size * $count);
+      for (my $i = 0; $i < $count; $i++) {
+        Fn->memcpy($ret_array, $elem_size * $length * $i, $array, 0, $elem_size * $length);
       }
     }
     
-- 
2.43.0


From f4909ecc11b664a06c594eac719c205bcd2a6c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:42 +0000
Subject: [PATCH 42/74] fix: conversion of an undefined byte[] to string gives
 undef

---
 lib/SPVM/Builder/include/spvm_implement.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index 0cacab7..2a3c893 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -2244,10 +2244,15 @@ static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_STRING_TO_BYTE_ARRAY(SPVM_ENV*
 }
 
 static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_ARRAY_TO_STRING(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* src_byte_array) {
-  int32_t src_byte_array_length = env->length(env, stack, src_byte_array);
-  int8_t* src_byte_array_data = env->get_elems_byte(env, stack, src_byte_array);
-  void* string = env->new_string_no_mortal(env, stack, (const char*)src_byte_array_data, src_byte_array_length);
-  env->assign_object(env, stack, out, string);
+  if (src_byte_array) {
+    int32_t src_byte_array_length = env->length(env, stack, src_byte_array);
+    int8_t* src_byte_array_data = env->get_elems_byte(env, stack, src_byte_array);
+    void* string = env->new_string_no_mortal(env, stack, (const char*)src_byte_array_data, src_byte_array_length);
+    env->assign_object(env, stack, out, string);
+  }
+  else {
+    env->assign_object(env, stack, out, NULL);
+  }
 }
 
 static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_TO_BYTE_OBJECT(SPVM_ENV* env, SPVM_VALUE* stack, void** out, int8_t value, int32_t object_data_offset) {
-- 
2.43.0


From 717bde33dca1a9ba73ef89b37a0f10e5d0967f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:42 +0000
Subject: [PATCH 43/74] fix: arguments after a multi-dimensional array argument
 are converted

---
 SPVM.xs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/SPVM.xs b/SPVM.xs
index c12ba30..89fc983 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -1929,7 +1929,6 @@ _xs_call_method(...)
       stack[stack_index].oval = spvm_array;
       
       stack_index++;
-      break;
     }
     else {
       assert(0);
-- 
2.43.0


From 2077c38cfc8ae28214cf25d3b7d247c7bed0eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:42 +0000
Subject: [PATCH 44/74] fix: calling a method of an unknown class from Perl is
 an exception

---
 SPVM.xs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SPVM.xs b/SPVM.xs
index 89fc983..c8ce104 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -1269,6 +1269,9 @@ _xs_call_method(...)
     class_method_call = 1;
     basic_type_name = SvPV_nolen(sv_invocant);
     void* basic_type = env->api->runtime->get_basic_type_by_name(env->runtime, basic_type_name);
+    if (!basic_type) {
+      croak("The \"%s\" basic type is not found\n    %s at %s line %d\n", basic_type_name, __func__, FILE_NAME, __LINE__);
+    }
     
     method = env->api->basic_type->get_method_by_name(env->runtime, basic_type, method_name);
     
-- 
2.43.0


From 2dcd2bef7abb57380501d50046c3665bf1042a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 45/74] fix: undef and references are refused as fields of a
 multi-numeric hash

---
 SPVM.xs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/SPVM.xs b/SPVM.xs
index c8ce104..9deca47 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -1126,6 +1126,10 @@ SV* SPVM_XS_UTIL_new_mulnum_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
               *sv_error = sv_2mortal(newSVpvf("'s %dth element's hash reference must have the \"%s\" key for the \"%s\" field of the \"%s\" basic type\n    %s at %s line %d\n", index + 1, mulnum_field_name, mulnum_field_name, basic_type_name, __func__, FILE_NAME, __LINE__));
               return &PL_sv_undef;
             }
+            if (!(SvOK(sv_field_value) && !SvROK(sv_field_value))) {
+              *sv_error = sv_2mortal(newSVpvf("'s %dth element's hash reference must have a non-reference scalar for the \"%s\" field of the \"%s\" basic type\n    %s at %s line %d\n", index + 1, mulnum_field_name, basic_type_name, __func__, FILE_NAME, __LINE__));
+              return &PL_sv_undef;
+            }
             
             void* mulnum_field_basic_type = env->api->field->get_basic_type(env->runtime, mulnum_field);
             int32_t mulnum_field_basic_type_id = env->api->basic_type->get_id(env->runtime, mulnum_field_basic_type);
@@ -1502,6 +1506,9 @@ _xs_call_method(...)
                 croak("The hash reference for the %dth argument of the \"%s\" method in the \"%s\" class must have the \"%s\" key for the \"%s\" field of the \"%s\" basic type\n    %s at %s line %d\n", arg_index_nth, method_name, basic_type_name, mulnum_field_name, mulnum_field_name, arg_basic_type_name, __func__, FILE_NAME, __LINE__);
 
               }
+              if (!(SvOK(sv_field_value) && !SvROK(sv_field_value))) {
+                croak("The hash reference for the %dth argument of the \"%s\" method in the \"%s\" class must have a non-reference scalar for the \"%s\" field\n    %s at %s line %d\n", arg_index_nth, method_name, basic_type_name, mulnum_field_name, __func__, FILE_NAME, __LINE__);
+              }
               
               switch (arg_basic_type_field_basic_type_id) {
                 case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE: {
@@ -1726,6 +1733,9 @@ _xs_call_method(...)
                 const char* arg_basic_type_name = env->api->basic_type->get_name(env->runtime, arg_basic_type);
                 croak("The hash reference for the %dth argument of the \"%s\" method in the \"%s\" class must have the \"%s\" key for the \"%s\" field of the \"%s\" basic type\n    %s at %s line %d\n", arg_index_nth, method_name, basic_type_name, mulnum_field_name, mulnum_field_name, arg_basic_type_name, __func__, FILE_NAME, __LINE__);
               }
+              if (!(SvOK(sv_field_value) && !SvROK(sv_field_value))) {
+                croak("The hash reference for the %dth argument of the \"%s\" method in the \"%s\" class must have a non-reference scalar for the \"%s\" field\n    %s at %s line %d\n", arg_index_nth, method_name, basic_type_name, mulnum_field_name, __func__, FILE_NAME, __LINE__);
+              }
               switch(arg_basic_type_field_basic_type_id) {
                 case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE: {
                   // Argument conversion - multi-numeric byte reference
-- 
2.43.0


From 12c3d18256fadd36ad317fb48a224c7b1a6bae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 46/74] fix: the set method of a Perl array object checks the
 type of the element

---
 SPVM.xs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/SPVM.xs b/SPVM.xs
index 9deca47..8f54390 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -4339,6 +4339,7 @@ _xs_set(...)
   int32_t basic_type_id = env->api->basic_type->get_id(env->runtime, basic_type);
   int32_t type_dimension = env->get_object_type_dimension(env, stack, spvm_array);
   
+  int32_t elem_is_object = 0;
   if (type_dimension == 1) {
     switch (basic_type_id) {
       case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE: {
@@ -4403,14 +4404,25 @@ _xs_set(...)
         break;
       }
       default: {
-        // Get object
-        void* elem = SPVM_XS_UTIL_get_spvm_object(aTHX_ sv_elem);
-        
-        env->set_elem_object(env, stack, spvm_array, index, elem);
+        elem_is_object = 1;
       }
     }
   }
   else if (type_dimension > 1) {
+    elem_is_object = 1;
+  }
+  else {
+    assert(0);
+  }
+  
+  if (elem_is_object) {
+    if (!env->is_object_array(env, stack, spvm_array)) {
+      croak("The array must be a numeric array or an object array\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+    }
+    
+    if (SvOK(sv_elem) && !(sv_isobject(sv_elem) && sv_derived_from(sv_elem, "SPVM::BlessedObject"))) {
+      croak("$elem must be an SPVM::BlessedObject object or undef\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+    }
     
     // Get object
     void* elem = SPVM_XS_UTIL_get_spvm_object(aTHX_ sv_elem);
@@ -4422,9 +4434,6 @@ _xs_set(...)
     
     env->set_elem_object(env, stack, spvm_array, index, elem);
   }
-  else {
-    assert(0);
-  }
   
   XSRETURN(0);
 }
-- 
2.43.0


From d4e957843c290633fa70fd09ea9672071ab3964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 47/74] fix: elements taken from a Perl array object are
 blessed by their own type

---
 SPVM.xs | 77 ++++++++++++++++++++++++++-------------------------------
 1 file changed, 35 insertions(+), 42 deletions(-)

diff --git a/SPVM.xs b/SPVM.xs
index 8f54390..0a5a779 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -157,6 +157,33 @@ SV* SPVM_XS_UTIL_new_sv_blessed_object(pTHX_ SV* sv_api, void* spvm_object, cons
   return sv_blessed_object;
 }
 
+SV* SPVM_XS_UTIL_new_sv_elem(pTHX_ SV* sv_api, void* spvm_object) {
+  
+  if (!spvm_object) {
+    return &PL_sv_undef;
+  }
+  
+  HV* hv_self = (HV*)SvRV(sv_api);
+  
+  SV** sv_env_ptr = hv_fetch(hv_self, "env", strlen("env"), 0);
+  SV* sv_env = sv_env_ptr ? *sv_env_ptr : &PL_sv_undef;
+  SPVM_ENV* env = SPVM_XS_UTIL_get_env(aTHX_ sv_env);
+  
+  SV** sv_stack_ptr = hv_fetch(hv_self, "stack", strlen("stack"), 0);
+  SV* sv_stack = sv_stack_ptr ? *sv_stack_ptr : &PL_sv_undef;
+  SPVM_VALUE* stack = SPVM_XS_UTIL_get_stack(aTHX_ sv_stack);
+  
+  const char* class = "SPVM::BlessedObject::Class";
+  if (env->get_object_type_dimension(env, stack, spvm_object) > 0) {
+    class = "SPVM::BlessedObject::Array";
+  }
+  else if (strcmp(env->get_object_basic_type_name(env, stack, spvm_object), "string") == 0) {
+    class = "SPVM::BlessedObject::String";
+  }
+  
+  return SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_object, class);
+}
+
 SV* SPVM_XS_UTIL_new_sv_pointer_object(pTHX_ void* pointer, const char* class) {
   
   size_t iv_pointer = PTR2IV(pointer);
@@ -4041,40 +4068,10 @@ _xs_to_elems(...)
       }
     }
     else if (array_is_object_array) {
-      if (basic_type_id == SPVM_NATIVE_C_BASIC_TYPE_ID_STRING) {
-        for (int32_t i = 0; i < length; i++) {
-          void* object = env->get_elem_string(env, stack, spvm_array, i);
-          
-          SV* sv_value;
-          if (object != NULL) {
-            sv_value = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, object, "SPVM::BlessedObject::String");
-          }
-          else {
-            sv_value = &PL_sv_undef;
-          }
-          
-          av_push(av_values, SvREFCNT_inc(sv_value));
-        }
-      }
-      else {
-        for (int32_t index = 0; index < length; index++) {
-          // Index
-          void* value = env->get_elem_object(env, stack, spvm_array, index);
-          if (value == NULL) {
-            av_push(av_values, &PL_sv_undef);
-          }
-          else {
-            int32_t elem_type_is_array_type = elem_type_dimension > 0;
-            SV* sv_value;
-            if (elem_type_is_array_type) {
-              sv_value = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, value, "SPVM::BlessedObject::Array");
-            }
-            else {
-              sv_value = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, value, "SPVM::BlessedObject::Class");
-            }
-            av_push(av_values, SvREFCNT_inc(sv_value));
-          }
-        }
+      for (int32_t index = 0; index < length; index++) {
+        void* value = env->get_elem_object(env, stack, spvm_array, index);
+        SV* sv_value = SPVM_XS_UTIL_new_sv_elem(aTHX_ sv_api, value);
+        av_push(av_values, SvREFCNT_inc(sv_value));
       }
     }
     else {
@@ -4544,18 +4541,14 @@ _xs_get(...)
   if (elem_is_object) {
     void* runtime = env->runtime;
     
-    // Element type dimension
-    int32_t elem_type_dimension = env->get_object_type_dimension(env, stack, spvm_array) - 1;
+    if (!env->is_object_array(env, stack, spvm_array)) {
+      croak("The array must be a numeric array or an object array\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+    }
     
     // Index
     void* elem = env->get_elem_object(env, stack, spvm_array, index);
     
-    if (elem_type_dimension == 0) {
-      sv_elem = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, elem, "SPVM::BlessedObject::Class");
-    }
-    else if (elem_type_dimension > 0) {
-      sv_elem = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, elem, "SPVM::BlessedObject::Array");
-    }
+    sv_elem = SPVM_XS_UTIL_new_sv_elem(aTHX_ sv_api, elem);
   }
   
   XPUSHs(sv_elem);
-- 
2.43.0


From 9d86b8cce0637ea1d3e2e1aa4ff4c34eee87f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 48/74] fix: objects made for a refused conversion are freed

---
 SPVM.xs | 51 ++++++++++++++++++++-------------------------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/SPVM.xs b/SPVM.xs
index 0a5a779..8d68997 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -314,6 +314,7 @@ SV* SPVM_XS_UTIL_new_byte_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
       
       // New array
       void* spvm_array = env->new_byte_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int8_t* elems = env->get_elems_byte(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -326,8 +327,6 @@ SV* SPVM_XS_UTIL_new_byte_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
         }
         elems[i] = (int8_t)SvIV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -373,6 +372,7 @@ SV* SPVM_XS_UTIL_new_byte_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
       
       // New array
       void* spvm_array = env->new_byte_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int8_t* elems = env->get_elems_byte(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -385,8 +385,6 @@ SV* SPVM_XS_UTIL_new_byte_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
         }
         elems[i] = (int8_t)(uint8_t)SvUV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -432,6 +430,7 @@ SV* SPVM_XS_UTIL_new_short_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_short_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int16_t* elems = env->get_elems_short(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -444,8 +443,6 @@ SV* SPVM_XS_UTIL_new_short_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         }
         elems[i] = (int16_t)SvIV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -491,6 +488,7 @@ SV* SPVM_XS_UTIL_new_short_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** s
       
       // New array
       void* spvm_array = env->new_short_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int16_t* elems = env->get_elems_short(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -503,8 +501,6 @@ SV* SPVM_XS_UTIL_new_short_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** s
         }
         elems[i] = (int16_t)(uint16_t)SvUV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -550,6 +546,7 @@ SV* SPVM_XS_UTIL_new_int_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
       
       // New array
       void* spvm_array = env->new_int_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int32_t* elems = env->get_elems_int(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -562,8 +559,6 @@ SV* SPVM_XS_UTIL_new_int_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
         }
         elems[i] = (int32_t)SvIV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -610,6 +605,7 @@ SV* SPVM_XS_UTIL_new_int_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv_
       
       // New array
       void* spvm_array = env->new_int_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int32_t* elems = env->get_elems_int(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -622,8 +618,6 @@ SV* SPVM_XS_UTIL_new_int_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv_
         }
         elems[i] = (int32_t)(uint32_t)SvUV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -670,6 +664,7 @@ SV* SPVM_XS_UTIL_new_long_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
       
       // New array
       void* spvm_array = env->new_long_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int64_t* elems = env->get_elems_long(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -682,8 +677,6 @@ SV* SPVM_XS_UTIL_new_long_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
         }
         elems[i] = (int64_t)SvIV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -730,6 +723,7 @@ SV* SPVM_XS_UTIL_new_long_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
       
       // New array
       void* spvm_array = env->new_long_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int64_t* elems = env->get_elems_long(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -742,8 +736,6 @@ SV* SPVM_XS_UTIL_new_long_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
         }
         elems[i] = (int64_t)(uint64_t)SvUV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -790,6 +782,7 @@ SV* SPVM_XS_UTIL_new_float_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_float_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       float* elems = env->get_elems_float(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -802,8 +795,6 @@ SV* SPVM_XS_UTIL_new_float_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         }
         elems[i] = (float)SvNV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -850,6 +841,7 @@ SV* SPVM_XS_UTIL_new_double_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_double_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       double* elems = env->get_elems_double(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -862,8 +854,6 @@ SV* SPVM_XS_UTIL_new_double_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         }
         elems[i] = (double)SvNV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -910,6 +900,7 @@ SV* SPVM_XS_UTIL_new_string_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_string_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t i = 0; i < length; i++) {
         SV** sv_elem_ptr = av_fetch(av_array, i, 0);
@@ -924,8 +915,6 @@ SV* SPVM_XS_UTIL_new_string_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         void* spvm_elem = SPVM_XS_UTIL_get_spvm_object(aTHX_ sv_elem);
         env->set_elem_string(env, stack, spvm_array, i, spvm_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -971,6 +960,7 @@ SV* SPVM_XS_UTIL_new_object_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
       
       // New array
       void* spvm_array = env->new_object_array_no_mortal(env, stack, basic_type, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t index = 0; index < length; index++) {
         SV** sv_elem_ptr = av_fetch(av_array, index, 0);
@@ -987,7 +977,8 @@ SV* SPVM_XS_UTIL_new_object_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
             env->set_elem_object(env, stack, spvm_array, index, elem);
           }
           else {
-            void* spvm_elem_type_name = env->get_type_name(env, stack, elem);
+            void* spvm_elem_type_name = env->get_type_name_no_mortal(env, stack, elem);
+            SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_elem_type_name, "SPVM::BlessedObject::String");
             const char* elem_type_name = env->get_chars(env, stack, spvm_elem_type_name);
             *sv_error = sv_2mortal(newSVpvf("'s %dth element must be the \"%s\" assignable type", index + 1, elem_type_name));
             return &PL_sv_undef;
@@ -998,8 +989,6 @@ SV* SPVM_XS_UTIL_new_object_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
           return &PL_sv_undef;
         }
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -1044,6 +1033,7 @@ SV* SPVM_XS_UTIL_new_muldim_array(pTHX_ SV* sv_api, void* basic_type, int32_t ty
       
       // New array
       void* spvm_array = env->new_muldim_array_no_mortal(env, stack, basic_type, type_dimension, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t index = 0; index < length; index++) {
         SV** sv_elem_ptr = av_fetch(av_array, index, 0);
@@ -1060,7 +1050,8 @@ SV* SPVM_XS_UTIL_new_muldim_array(pTHX_ SV* sv_api, void* basic_type, int32_t ty
             env->set_elem_object(env, stack, spvm_array, index, elem);
           }
           else {
-            void* spvm_elem_type_name = env->get_type_name(env, stack, elem);
+            void* spvm_elem_type_name = env->get_type_name_no_mortal(env, stack, elem);
+            SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_elem_type_name, "SPVM::BlessedObject::String");
             const char* elem_type_name = env->get_chars(env, stack, spvm_elem_type_name);
             *sv_error = sv_2mortal(newSVpvf("'s %dth element must be the \"%s\" assignable type", index + 1, elem_type_name));
             return &PL_sv_undef;
@@ -1071,8 +1062,6 @@ SV* SPVM_XS_UTIL_new_muldim_array(pTHX_ SV* sv_api, void* basic_type, int32_t ty
           return &PL_sv_undef;
         }
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -1119,6 +1108,7 @@ SV* SPVM_XS_UTIL_new_mulnum_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
       
       // New array
       void* spvm_array = env->new_mulnum_array_no_mortal(env, stack, basic_type, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t index = 0; index < length; index++) {
         SV** sv_elem_ptr = av_fetch(av_array, index, 0);
@@ -1196,8 +1186,6 @@ SV* SPVM_XS_UTIL_new_mulnum_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
           return &PL_sv_undef;
         }
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -1495,7 +1483,8 @@ _xs_call_method(...)
             
             if (error) {
               const char* arg_basic_type_name = env->api->basic_type->get_name(env->runtime, arg_basic_type);
-              void* spvm_compile_type_name = env->get_compile_type_name(env, stack, arg_basic_type_name, arg_type_dimension, arg_type_flag);
+              void* spvm_compile_type_name = env->get_compile_type_name_no_mortal(env, stack, arg_basic_type_name, arg_type_dimension, arg_type_flag);
+              SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_self, spvm_compile_type_name, "SPVM::BlessedObject::String");
               const char* compile_type_name = env->get_chars(env, stack, spvm_compile_type_name);
               croak("The %dth argument of the \"%s\" method in the \"%s\" class must be an SPVM::BlessedObject::Class object of a \"%s\" assignable type or undef\n    %s at %s line %d\n", arg_index_nth, method_name, basic_type_name, compile_type_name, __func__, FILE_NAME, __LINE__);
             }
-- 
2.43.0


From e1c5e2adbf9e425dd099ad052a647b71987c1425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 49/74] fix: buffers of anonymous class names are long enough

---
 lib/SPVM/Builder/src/spvm_compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index aa1eea8..0e1f544 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -187,7 +187,7 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   // Anon class
   if (source) {
     int32_t int32_max_length = 10;
-    int32_t anon_method_basic_type_name_length = 4 + 2 + 4 + 2 + int32_max_length;
+    int32_t anon_method_basic_type_name_length = strlen("eval::anon_class::") + int32_max_length + strlen(".spvm");
     
     char* anon_basic_type_name = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, anon_method_basic_type_name_length + 1);
     sprintf(anon_basic_type_name, "eval::anon_class::%d", compiler->eval_anon_classes_length);
-- 
2.43.0


From e642cf3314c54875838f78fff72708cbc9c46052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 50/74] fix: class files of a failed compilation are forgotten
 even if the class was not parsed

---
 lib/SPVM/Builder/src/spvm_compiler.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 0e1f544..159b791 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -182,6 +182,8 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   
   SPVM_COMPILER_use_default_loaded_classes(compiler);
   
+  int32_t compiler_class_files_base_length = compiler->class_file_class_names->length;
+  
   int32_t original_eval_anon_classes_length = compiler->eval_anon_classes_length;
   
   // Anon class
@@ -264,14 +266,14 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
     for (int32_t basic_type_id = compiler_basic_types_base_id; basic_type_id < compiler->basic_types->length; basic_type_id++) {
       SPVM_BASIC_TYPE* basic_type = SPVM_LIST_get(compiler->basic_types, basic_type_id);
       
-      SPVM_CLASS_FILE* found_class_file = SPVM_COMPILER_get_class_file(compiler, basic_type->name);
-      if (found_class_file) {
-        SPVM_COMPILER_delete_class_file(compiler, basic_type->name);
-      }
-      
       SPVM_HASH_set(compiler->basic_type_symtable, basic_type->name, strlen(basic_type->name), NULL);
     }
     
+    // Class files found in this compilation, including ones whose class could not be parsed
+    while (compiler->class_file_class_names->length > compiler_class_files_base_length) {
+      SPVM_COMPILER_delete_class_file(compiler, SPVM_LIST_get(compiler->class_file_class_names, compiler->class_file_class_names->length - 1));
+    }
+    
     compiler->eval_anon_classes_length = original_eval_anon_classes_length;
     
     compiler->basic_types->length = compiler_basic_types_base_id;
-- 
2.43.0


From f79f679571b0f18183a50524e94bdf6c899c83eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 51/74] fix: anonymous methods in anonymous classes, and class
 blocks without a class name, no longer crash the compiler

---
 lib/SPVM/Builder/src/spvm_op.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 4a86134..bbac628 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -259,7 +259,8 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
   const char* basic_type_name;
   
   // Anon class
-  if (strstr(compiler->current_outmost_class_name, "::anon_class::")) {
+  int32_t is_anon_method_class = op_type && strstr(op_type->uv.type->unresolved_basic_type_name, "::anon_method::");
+  if (strstr(compiler->current_outmost_class_name, "::anon_class::") && !is_anon_method_class) {
     if (op_type) {
       SPVM_COMPILER_error(compiler, "An anon class cannot have its class name.\n  at %s line %d", op_class->file, op_class->line);
       return op_class;
@@ -272,6 +273,11 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
   }
   // Class
   else {
+    if (!op_type) {
+      SPVM_COMPILER_error(compiler, "The class name must be given.\n  at %s line %d", op_class->file, op_class->line);
+      return op_class;
+    }
+    
     basic_type_name = op_type->uv.type->unresolved_basic_type_name;
   }
   
@@ -334,7 +340,9 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
       SPVM_COMPILER_error(compiler, "The class name \"%s\" must be \"%s\".\n  at %s line %d", basic_type_name, compiler->current_outmost_class_name, op_class->file, op_class->line);
       return op_class;
     }
-    
+  }
+  
+  if (!basic_type->is_generated_by_anon_method) {
     SPVM_LIST* anon_op_types = compiler->current_anon_op_types;
     for (int32_t i = 0; i < anon_op_types->length; i++) {
       SPVM_OP* anon_op_type = SPVM_LIST_get(anon_op_types, i);
-- 
2.43.0


From aded6ee621ed9fc3fa1c48048664e8682a338dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 52/74] fix: a class whose super classes form a cycle no longer
 makes the compiler loop forever

---
 lib/SPVM/Builder/src/spvm_check.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 137415d..efb7f1d 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -131,8 +131,11 @@ void SPVM_CHECK_check_basic_types_relation(SPVM_COMPILER* compiler) {
   for (int32_t basic_type_id = compiler->basic_types_base_id; basic_type_id < compiler->basic_types->length; basic_type_id++) {
     SPVM_BASIC_TYPE* basic_type = SPVM_LIST_get(compiler->basic_types, basic_type_id);
     SPVM_BASIC_TYPE* parent_basic_type = basic_type->parent;
+    int32_t parents_length = 0;
     while (1) {
-      if (parent_basic_type) {
+      // If the current class is not in a cycle but one of its super classes is, the error is reported by the classes in the cycle
+      if (parent_basic_type && parents_length < compiler->basic_types->length) {
+        parents_length++;
         if (strcmp(parent_basic_type->name, basic_type->name) == 0) {
           SPVM_COMPILER_error(compiler, "Recursive inheritance. Found the current class %s in a super class.\n  at %s line %d", basic_type->name, basic_type->op_extends->file, basic_type->op_extends->line);
           return;
-- 
2.43.0


From 2cf399e8119bf52a20b0313fc1457fa5d9fcd247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 53/74] fix: drop the reference replaced by an assignment in
 the critical section of the assignment so that threads do not destroy an
 object twice

---
 lib/SPVM/Builder/src/spvm_api.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 15b07c1..c586d2f 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -5146,6 +5146,7 @@ void SPVM_API_assign_object(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** ref,
   SPVM_MUTEX* runtime_mutex = runtime->mutex;
   
   SPVM_OBJECT* released_object = NULL;
+  int32_t do_dec_ref_count_only = 0;
   {
     SPVM_MUTEX_lock(runtime_mutex);
     
@@ -5161,15 +5162,9 @@ void SPVM_API_assign_object(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** ref,
     
     *ref = object;
     
-    SPVM_MUTEX_unlock(runtime_mutex);
-  }
-  
-  if (released_object) {
-    int32_t do_dec_ref_count_only = 0;
-    
-    {
-      SPVM_MUTEX_lock(runtime_mutex);
-      
+    // The check and the decrement must be done in the same critical section as the replacement. Otherwise a reference count temporarily
+    // incremented by SPVM_API_unweaken_thread_unsafe is visible to the other threads.
+    if (released_object) {
       int32_t released_object_ref_count = SPVM_API_get_ref_count(env, stack, released_object);
       
       assert(released_object_ref_count > 0);
@@ -5178,10 +5173,12 @@ void SPVM_API_assign_object(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** ref,
         SPVM_API_dec_ref_count(env, stack, released_object);
         do_dec_ref_count_only = 1;
       }
-      
-      SPVM_MUTEX_unlock(runtime_mutex);
     }
     
+    SPVM_MUTEX_unlock(runtime_mutex);
+  }
+  
+  if (released_object) {
     if (!do_dec_ref_count_only) {
       // Free released_object array
       if (SPVM_API_is_object_array(env, stack, released_object)) {
-- 
2.43.0


From ab7e795d7f1a164a2ffb4d43afbebe58c85cef52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 54/74] fix: generate the precompile source again when a class
 used by the class changes what is generated

---
 lib/SPVM/Builder/CC.pm | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/SPVM/Builder/CC.pm b/lib/SPVM/Builder/CC.pm
index 854b0b3..faf46fd 100644
--- a/lib/SPVM/Builder/CC.pm
+++ b/lib/SPVM/Builder/CC.pm
@@ -159,6 +159,15 @@ sub build_precompile_class_source_file {
     input_files => [$class_file],
   });
   
+  # The generated source also depends on the classes used by the class, for example, on the values of their enumerations.
+  unless ($need_generate) {
+    my $current_precompile_source = SPVM::Builder::Util::slurp_binary($source_file);
+    
+    unless ($current_precompile_source eq $precompile_source) {
+      $need_generate = 1;
+    }
+  }
+  
   # Generate precompile C source file
   if ($need_generate) {
     mkpath dirname $source_file;
-- 
2.43.0


From 7ef6fe38dc8d6eecf0d62231df06cffc32bf0910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 55/74] fix: compile again when a config file loaded by a mode
 config file is newer

---
 lib/SPVM/Builder/CC.pm | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/CC.pm b/lib/SPVM/Builder/CC.pm
index faf46fd..0ebe7b8 100644
--- a/lib/SPVM/Builder/CC.pm
+++ b/lib/SPVM/Builder/CC.pm
@@ -542,7 +542,7 @@ sub compile_class {
         my $resource = $config->get_resource($resource_name);
         my $resource_config = $resource->config;
         
-        push @resource_config_files, $resource_config->file;
+        push @resource_config_files, $resource_config->file, @{$resource_config->get_loaded_config_files};
         
         my $resource_native_include_dir = $resource_config->native_include_dir;
         if (defined $resource_native_include_dir && -d $resource_native_include_dir) {
@@ -567,6 +567,9 @@ sub compile_class {
         push @$input_files, $config->file;
       };
       
+      # Config files loaded by the config file, for example, the base config file of a mode config file
+      push @$input_files, @{$config->get_loaded_config_files};
+      
       $need_generate = SPVM::Builder::Util::need_generate({
         force => $force,
         output_file => $object_file_name,
-- 
2.43.0


From 831cf5ec1f8f863e23b681b4c30d6aca67bc39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:35 +0000
Subject: [PATCH 56/74] fix: exceptions and compile error messages are no
 longer used as a format string

---
 lib/SPVM/Builder/Exe.pm    | 21 +++------------------
 lib/SPVM/Native.c          |  2 +-
 lib/SPVM/Native/Compiler.c |  4 ++--
 3 files changed, 6 insertions(+), 21 deletions(-)

diff --git a/lib/SPVM/Builder/Exe.pm b/lib/SPVM/Builder/Exe.pm
index ad76522..e3cef31 100644
--- a/lib/SPVM/Builder/Exe.pm
+++ b/lib/SPVM/Builder/Exe.pm
@@ -558,20 +558,11 @@ int32_t main(int32_t command_args_length, const char *command_args[]) {
     {
       error_id = env->set_command_info_program_name(env, stack, obj_program_name);
       
-      if (error_id) {
-        env->die(env, stack, env->get_chars(env, stack, env->get_exception(env, stack)), __func__, __FILE__, __LINE__);
-      }
-      else {
+      if (!error_id) {
         error_id = env->set_command_info_argv(env, stack, obj_argv);
         
-        if (error_id) {
-          env->die(env, stack, env->get_chars(env, stack, env->get_exception(env, stack)), __func__, __FILE__, __LINE__);
-        }
-        else {
+        if (!error_id) {
           error_id = env->set_command_info_base_time(env, stack, base_time);
-          if (error_id) {
-            env->die(env, stack, env->get_chars(env, stack, env->get_exception(env, stack)), __func__, __FILE__, __LINE__);
-          }
         }
       }
     }
@@ -584,10 +575,7 @@ int32_t main(int32_t command_args_length, const char *command_args[]) {
     
     error_id = env->check_bootstrap_method(env, stack, class_name);
     
-    if (error_id) {
-      env->die(env, stack, env->get_chars(env, stack, env->get_exception(env, stack)), __func__, __FILE__, __LINE__);
-    }
-    else {
+    if (!error_id) {
       error_id = env->call_init_methods(env, stack);
       if (!error_id) {
         void* class_basic_type = env->api->runtime->get_basic_type_by_name(env->runtime, class_name);
@@ -595,9 +583,6 @@ int32_t main(int32_t command_args_length, const char *command_args[]) {
         
         int32_t args_width = 0;
         error_id = env->call_method(env, stack, method, args_width);
-        if (error_id) {
-          env->die(env, stack, env->get_chars(env, stack, env->get_exception(env, stack)), __func__, __FILE__, __LINE__);
-        }
       }
     }
   }
diff --git a/lib/SPVM/Native.c b/lib/SPVM/Native.c
index 8f64da3..97c8320 100644
--- a/lib/SPVM/Native.c
+++ b/lib/SPVM/Native.c
@@ -87,7 +87,7 @@ int32_t SPVM__Native__check_bootstrap_method(SPVM_ENV* env, SPVM_VALUE* stack) {
   
   error_id = env->check_bootstrap_method(env, stack, basic_type_name);
   if (error_id) {
-    return env->die(env, stack, env->get_chars(env, stack, env->get_exception(env, stack)), __func__, FILE_NAME, __LINE__);
+    return error_id;
   }
   
   return 0;
diff --git a/lib/SPVM/Native/Compiler.c b/lib/SPVM/Native/Compiler.c
index 33d8208..ef6e690 100644
--- a/lib/SPVM/Native/Compiler.c
+++ b/lib/SPVM/Native/Compiler.c
@@ -113,7 +113,7 @@ int32_t SPVM__Native__Compiler__compile(SPVM_ENV* env, SPVM_VALUE* stack) {
       obj_error_messages_string = env->concat(env, stack, obj_error_messages_string, obj_lf);
     }
     
-    env->die(env, stack, env->get_chars(env, stack, obj_error_messages_string), __func__, FILE_NAME, __LINE__);
+    env->set_exception(env, stack, obj_error_messages_string);
     
     return SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_COMPILE_CLASS;
   }
@@ -304,7 +304,7 @@ int32_t SPVM__Native__Compiler__compile_anon_class(SPVM_ENV* env, SPVM_VALUE* st
       obj_error_messages_string = env->concat(env, stack, obj_error_messages_string, obj_lf);
     }
     
-    env->die(env, stack, env->get_chars(env, stack, obj_error_messages_string), __func__, FILE_NAME, __LINE__);
+    env->set_exception(env, stack, obj_error_messages_string);
     
     return SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_COMPILE_CLASS;
   }
-- 
2.43.0


From a5f40d79a0039fd5f0bee121b1ab43a236669d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 57/74] fix: an executable that ends with an exception no
 longer exits with 0 when the error id is a multiple of 256

---
 lib/SPVM/Builder/Exe.pm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/Exe.pm b/lib/SPVM/Builder/Exe.pm
index e3cef31..c0b49cf 100644
--- a/lib/SPVM/Builder/Exe.pm
+++ b/lib/SPVM/Builder/Exe.pm
@@ -602,7 +602,8 @@ int32_t main(int32_t command_args_length, const char *command_args[]) {
   
   boot_env->free_env(boot_env);
   
-  return error_id;
+  // The lower 8 bits of an error id can be 0
+  return error_id ? 255 : 0;
 }
 EOS
 
-- 
2.43.0


From 2802f4b2110e916d1d9ec077d67bb1967c14b15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 58/74] fix: stop option parsing of the spvm command at the
 script name

---
 script/spvm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/spvm b/script/spvm
index ecb358c..272b2dc 100644
--- a/script/spvm
+++ b/script/spvm
@@ -7,7 +7,8 @@ use SPVM::Builder::Util;
 use SPVM::Global;
 use FindBin;
 
-SPVM::Builder::Util::getopt
+# The arguments after the script name are those of the program.
+SPVM::Builder::Util::getopt \@ARGV, ['require_order'],
   # spvmcc and spvm shared
   'h|help'          => \my $help,
   'v|version'       => \my $show_version,
-- 
2.43.0


From 6f590f7bb2e5d419a516a69fbf4f644a85085681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 59/74] fix: register the type name of compile_type_name as a
 constant string

---
 lib/SPVM/Builder/src/spvm_check.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index efb7f1d..26a2041 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -1464,6 +1464,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             SPVM_TYPE* operand_type = SPVM_CHECK_get_type(compiler, op_operand);
             const char* type_name = SPVM_TYPE_new_type_name(compiler, operand_type->basic_type->id, operand_type->dimension, operand_type->flag);
             SPVM_OP* op_stab = SPVM_OP_cut_op(compiler, op_cur);
+            SPVM_BASIC_TYPE_add_constant_string(compiler, basic_type, type_name, strlen(type_name));
             SPVM_OP* op_constant_string = SPVM_OP_new_op_constant_string(compiler, type_name, strlen(type_name), op_cur->file, op_cur->line);
             SPVM_OP_replace_op(compiler, op_stab, op_constant_string);
             op_cur = op_constant_string;
-- 
2.43.0


From 23edb74c75b0f1406f796dbfd0877fd4a56448d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 60/74] fix: report a class name that begins with a lower case
 letter instead of aborting

---
 lib/SPVM/Builder/src/spvm_op.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index bbac628..9a47929 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -333,7 +333,6 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
   }
   
   if (!(basic_type->is_anon || basic_type->is_generated_by_anon_method)) {
-    assert(!islower(basic_type_name[0]));
     
     // If class name is different from the class name corresponding to the class file, compile error occur.
     if (strcmp(basic_type_name, compiler->current_outmost_class_name) != 0) {
-- 
2.43.0


From c49df820c16005f87c3b82b82d167147393fc080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 61/74] fix: tokenizer: endless loop, swallowed characters,
 line counting and reads past the end of the source

---
 lib/SPVM/Builder/src/spvm_toke.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 041114c..8e14e76 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -467,7 +467,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             const char* file_begin_ptr = compiler->ch_ptr;
             int32_t file_length = 0;
             while (*compiler->ch_ptr != '"') {
-              if (*compiler->ch_ptr == '\n') {
+              if (*compiler->ch_ptr == '\n' || *compiler->ch_ptr == '\0') {
                 SPVM_COMPILER_error(compiler, "A file in a file directive must end with \".\n  at %s line %d", compiler->current_file, compiler->current_line);
                 return 0;
               }
@@ -527,7 +527,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             
             const char* include_dir_begin_ptr = compiler->ch_ptr;
             while (*compiler->ch_ptr != '"') {
-              if (*compiler->ch_ptr == '\n') {
+              if (*compiler->ch_ptr == '\n' || *compiler->ch_ptr == '\0') {
                 SPVM_COMPILER_error(compiler, "The directory specified by a lib directive must end with \".\n  at %s line %d", compiler->current_file, compiler->current_line);
                 return 0;
               }
@@ -558,6 +558,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
           }
           
           compiler->ch_ptr++;
+          SPVM_TOKE_increment_current_line(compiler);
           compiler->line_begin_ch_ptr = compiler->ch_ptr;
         }
         // Comment
@@ -610,6 +611,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             
             if (
               *compiler->ch_ptr == '='
+              && *(compiler->ch_ptr - 1) == '\n'
               && strncmp(compiler->ch_ptr + 1, "cut", 3) == 0
               && (*(compiler->ch_ptr + 4) == '\0' || SPVM_TOKE_is_white_space(compiler, *(compiler->ch_ptr + 4)))
             )
@@ -805,7 +807,6 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
         }
         // <
         else {
-          compiler->ch_ptr++;
           SPVM_OP* op = SPVM_TOKE_new_op(compiler, SPVM_OP_C_ID_NUMERIC_COMPARISON_LT);
           yylvalp->opval = op;
           return NUMLT;
@@ -864,7 +865,6 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
         }
         // >
         else {
-          compiler->ch_ptr++;
           SPVM_OP* op = SPVM_TOKE_new_op(compiler, SPVM_OP_C_ID_NUMERIC_COMPARISON_GT);
           yylvalp->opval = op;
           return NUMGT;
@@ -948,10 +948,12 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             }
             else {
               SPVM_COMPILER_error(compiler, "\"\\%c\" is the invalid charater literal escape character.\n  at %s line %d", *compiler->ch_ptr, compiler->current_file, compiler->current_line);
-              compiler->ch_ptr++;
+              if (*compiler->ch_ptr != '\0') {
+                compiler->ch_ptr++;
+              }
             }
           }
-          else {
+          else if (*compiler->ch_ptr != '\0') {
             ch = *compiler->ch_ptr;
             compiler->ch_ptr++;
           }
@@ -1050,8 +1052,8 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
                     else if (*next_string_literal_ch_ptr == '}') {
                       if (var_have_brace) {
                         next_string_literal_ch_ptr++;
-                        break;
                       }
+                      break;
                     }
                     else {
                       break;
@@ -1145,7 +1147,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             }
             else {
               // Escape is always 2 characters
-              if (*compiler->ch_ptr == '\\') {
+              if (*compiler->ch_ptr == '\\' && *(compiler->ch_ptr + 1) != '\0') {
                 compiler->ch_ptr += 2;
               }
               else {
@@ -1572,7 +1574,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
               }
               else {
                 // Escape character
-                if (*compiler->ch_ptr == '\\') {
+                if (*compiler->ch_ptr == '\\' && *(compiler->ch_ptr + 1) != '\0') {
                   compiler->ch_ptr += 2;
                 }
                 else {
@@ -1688,15 +1690,17 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
           
           // Scan Hex number
           if (digit == 16) {
-            compiler->ch_ptr += 2;
+            compiler->ch_ptr += 1;
             while(
               SPVM_TOKE_is_hex_number(compiler, *compiler->ch_ptr) || *compiler->ch_ptr == '_'
               || *compiler->ch_ptr == '.' || *compiler->ch_ptr == 'p' || *compiler->ch_ptr == 'P' || *compiler->ch_ptr == '-' || *compiler->ch_ptr == '+'
             )
             {
+              // A sign is allowed only after "p" or "P" and separators
               if (!before_is_exponant && (*compiler->ch_ptr == '-' || *compiler->ch_ptr == '+')) {
                 break;
               }
+              before_is_exponant = before_is_exponant && *compiler->ch_ptr == '_';
               
               // Floating point literal
               if (*compiler->ch_ptr == '.' || *compiler->ch_ptr == 'p' || *compiler->ch_ptr == 'P') {
@@ -1728,13 +1732,17 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
               || *compiler->ch_ptr == '_'
             )
             {
+              // A sign is allowed only after "e" or "E" and separators
               if (!before_is_exponant && (*compiler->ch_ptr == '-' || *compiler->ch_ptr == '+')) {
                 break;
               }
+              before_is_exponant = before_is_exponant && *compiler->ch_ptr == '_';
               
               // Floating point literal
               if (*compiler->ch_ptr == '.' || *compiler->ch_ptr == 'e' || *compiler->ch_ptr == 'E') {
                 is_floating_number = 1;
+              }
+              if (*compiler->ch_ptr == 'e' || *compiler->ch_ptr == 'E') {
                 before_is_exponant = 1;
               }
               compiler->ch_ptr++;
@@ -1830,7 +1838,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             
             char *end;
             uint64_t num_uint64_nosign = strtoull(numeric_literal + parse_start_offset, &end, digit);
-            if (*end != '\0') {
+            if (*end != '\0' || (digit != 8 && end == numeric_literal + parse_start_offset)) {
               out_of_range = 1;
             }
             else if (errno == ERANGE) {
@@ -1894,7 +1902,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             
             char *end;
             uint64_t num_uint64_nosign = strtoull(numeric_literal + parse_start_offset, &end, digit);
-            if (*end != '\0') {
+            if (*end != '\0' || (digit != 8 && end == numeric_literal + parse_start_offset)) {
               invalid = 1;
             }
             else if (errno == ERANGE) {
-- 
2.43.0


From 964591382051ccab7833d4c4c90f932550bdfa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:34 +0000
Subject: [PATCH 62/74] fix: Packer: byte order of arrays, hexadecimal strings
 and sizes that overflow

---
 lib/SPVM/Packer.spvm | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/lib/SPVM/Packer.spvm b/lib/SPVM/Packer.spvm
index 45154b1..7a96c80 100644
--- a/lib/SPVM/Packer.spvm
+++ b/lib/SPVM/Packer.spvm
@@ -72,6 +72,13 @@ class Packer {
           
           my $hex_string_length = length $hex_string;
           
+          if ($has_wildcard_length) {
+            $length = $hex_string_length;
+          }
+          elsif ($length < $hex_string_length) {
+            $hex_string_length = $length;
+          }
+          
           my $values_buffer = StringBuffer->new;
           for (my $i = 0; $i < $hex_string_length; $i += 2) {
             
@@ -84,7 +91,7 @@ class Packer {
             my $hex_char_low = '\x30'; # 0
             if ($i + 1 < $hex_string_length) {
               $hex_char_low = $hex_string->[$i + 1];
-              unless (Fn->is_hex_digit($hex_char_high)) {
+              unless (Fn->is_hex_digit($hex_char_low)) {
                 die "Input contains non hex character.";
               }
             }
@@ -227,15 +234,18 @@ class Packer {
       }
       
       my $process_length = 0;
-      if ($has_wildcard_length) {
+      if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
+        $process_length = $length / 2 + $length % 2;
+      }
+      elsif ($has_wildcard_length) {
         $process_length = Fn->length($values);
       }
       else {
         $process_length = $length;
       }
       
-      if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
-        $process_length = ($process_length + 1) / 2;
+      unless ((long)$size * $process_length <= Fn->INT_MAX) {
+        die "The size of the binary data for the length $length in the template \"$template\" is too large.";
       }
       
       my $binary_part_size = $size * $process_length;
@@ -256,10 +266,10 @@ class Packer {
         for (my $i = 0; $i < $process_length; $i++) {
           my $binary_part_offset = $size * $i;
           if ($endian == Packer::Specifier->ENDIAN_BIG_ENDIAN) {
-            Fn->system_endian_to_big_endian($binary_part, $size);
+            Fn->system_endian_to_big_endian($binary_part, $size, $binary_part_offset);
           }
           elsif ($endian == Packer::Specifier->ENDIAN_LITTLE_ENDIAN) {
-            Fn->system_endian_to_little_endian($binary_part, $size);
+            Fn->system_endian_to_little_endian($binary_part, $size, $binary_part_offset);
           }
         }
       }
@@ -345,12 +355,11 @@ class Packer {
       if ($has_wildcard_length) {
         $process_length = ($binary_length - $binary_offset) / $size;
       }
-      
-      if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
-        $process_length = ($process_length + 1) / 2;
+      elsif ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
+        $process_length = $length / 2 + $length % 2;
       }
       
-      unless ($binary_offset + $size * $process_length <= $binary_length) {
+      unless ($binary_offset + (long)$size * $process_length <= $binary_length) {
         die "The current offset $binary_offset plus (the size $size * the process length culcuralted by $length of the specifier) must be less than the length($binary_length) of the binary data \$binary.";
       }
       
@@ -364,10 +373,10 @@ class Packer {
         for (my $i = 0; $i < $process_length; $i++) {
           my $binary_part_offset = $size * $i;
           if ($endian == Packer::Specifier->ENDIAN_BIG_ENDIAN) {
-            Fn->big_endian_to_system_endian($binary_part, $size);
+            Fn->big_endian_to_system_endian($binary_part, $size, $binary_part_offset);
           }
           elsif ($endian == Packer::Specifier->ENDIAN_LITTLE_ENDIAN) {
-            Fn->little_endian_to_system_endian($binary_part, $size);
+            Fn->little_endian_to_system_endian($binary_part, $size, $binary_part_offset);
           }
         }
       }
@@ -391,7 +400,7 @@ class Packer {
             $int_object_array->[$i] = Int->new($number & 0xFF);
           }
           
-          my $format = Fn->repeat("%x", $process_length);
+          my $format = Fn->repeat("%02x", $process_length);
           
           my $hex_string_part = (mutable string)Fn->sprintf($format, (object[])$int_object_array);
           
-- 
2.43.0


From 0b6a5300d3f28ff692361a3ebd55c2734b092db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:34 +0000
Subject: [PATCH 63/74] fix: sprintf: sign before zero padding, empty strings,
 width with precision, and reads past the buffer for large numbers

---
 lib/SPVM/Format.c    | 14 +++++++---
 lib/SPVM/Format.spvm | 61 +++++++++++++++++---------------------------
 2 files changed, 34 insertions(+), 41 deletions(-)

diff --git a/lib/SPVM/Format.c b/lib/SPVM/Format.c
index 815f2ce..5a14721 100644
--- a/lib/SPVM/Format.c
+++ b/lib/SPVM/Format.c
@@ -37,8 +37,11 @@ int32_t SPVM__Format___native_snprintf_f(SPVM_ENV* env, SPVM_VALUE* stack) {
     snprintf(specifier, 14, "%%f");
   }
   
-  // "-9223372036854775808" + "." + width + precision
-  int32_t max_length = 20 + 1 + precision;
+  int32_t max_length = snprintf(NULL, 0, specifier, value);
+  if (max_length < 0) {
+    return env->die(env, stack, "The formatted string is too long.", __func__, FILE_NAME, __LINE__);
+  }
+  
   void* obj_formatted_string = env->new_string(env, stack, NULL, max_length);
   
   char* formatted_string = (char*)env->get_chars(env, stack, obj_formatted_string);
@@ -64,8 +67,11 @@ int32_t SPVM__Format___native_snprintf_g(SPVM_ENV* env, SPVM_VALUE* stack) {
     snprintf(specifier, 14, "%%g");
   }
   
-  // "-9223372036854775808" + "." + width + precision
-  int32_t max_length = 20 + 1 + precision;
+  int32_t max_length = snprintf(NULL, 0, specifier, value);
+  if (max_length < 0) {
+    return env->die(env, stack, "The formatted string is too long.", __func__, FILE_NAME, __LINE__);
+  }
+  
   void* obj_formatted_string = env->new_string(env, stack, NULL, max_length);
   
   char* formatted_string = (char*)env->get_chars(env, stack, obj_formatted_string);
diff --git a/lib/SPVM/Format.spvm b/lib/SPVM/Format.spvm
index 3a7756a..96a11be 100644
--- a/lib/SPVM/Format.spvm
+++ b/lib/SPVM/Format.spvm
@@ -276,7 +276,6 @@ class Format {
             my $arg_length = length $arg;
             if ($precision < $arg_length) {
               $arg = Fn->substr($arg, 0, $precision);
-              $width = $precision;
             }
           }
           my $formatted_value = $arg;
@@ -323,50 +322,38 @@ class Format {
   native static method _native_snprintf_g : string ($value : double, $precision : int);
   native static method _native_snprintf_p : string ($value : object);
   
-  static method _push_formatted_string_unsigned : void($buffer : StringBuffer, $formatted_value : string, $width : int, $pad_char : byte, $left_justified : int) {
+  precompile static method _push_formatted_string_unsigned : void($buffer : StringBuffer, $formatted_value : string, $width : int, $pad_char : byte, $left_justified : int) {
     
-    # "+" sign is always ignored.
-    my $plus_sign = 0;
+    my $space_count = $width - length $formatted_value;
     
-    &_push_formatted_string_signed($buffer, $formatted_value, $width, $pad_char, $left_justified, $plus_sign);
-  }
-
-  precompile static method _push_formatted_string_signed : void($buffer : StringBuffer, $formatted_value : string, $width : int, $pad_char : byte, $left_justified : int, $plus_sign : int) {
-    my $is_minus = 0;
-    if ($formatted_value->[0] == '-') {
-       $is_minus = 1;
+    if ($left_justified) {
+      $buffer->push($formatted_value);
     }
     
-    my $space_count = $width - length $formatted_value;
-    if (!$is_minus && $plus_sign) {
-      --$space_count;
+    for (; $space_count > 0; --$space_count) {
+      $buffer->push_char($pad_char);
     }
     
-    if ($left_justified) {
-      if (!$is_minus && $plus_sign) {
-        $buffer->push_char('+');
-      }
-      
+    unless ($left_justified) {
       $buffer->push($formatted_value);
-      
-      if ($space_count > 0) {
-        for (; $space_count > 0; --$space_count) {
-          $buffer->push_char($pad_char);
-        }
-      }
     }
-    else {
-      if ($space_count > 0) {
-        for (; $space_count > 0; --$space_count) {
-          $buffer->push_char($pad_char);
-        }
-      }
-      
-      if (!$is_minus && $plus_sign) {
-        $buffer->push_char('+');
-      }
-      
-      $buffer->push($formatted_value);
+  }
+  
+  precompile static method _push_formatted_string_signed : void($buffer : StringBuffer, $formatted_value : string, $width : int, $pad_char : byte, $left_justified : int, $plus_sign : int) {
+    
+    my $is_minus = $formatted_value->[0] == '-';
+    
+    if (!$is_minus && $plus_sign) {
+      $formatted_value = "+" . $formatted_value;
     }
+    
+    # A sign is placed before zero paddings
+    if ($pad_char == '0' && ($is_minus || $plus_sign)) {
+      $buffer->push_char($formatted_value->[0]);
+      $formatted_value = Fn->substr($formatted_value, 1);
+      --$width;
+    }
+    
+    &_push_formatted_string_unsigned($buffer, $formatted_value, $width, $pad_char, $left_justified);
   }
 }
-- 
2.43.0


From ee17511ed3bc712d1b33e136b391ae076e739a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:59 +0000
Subject: [PATCH 64/74] fix: convert the values of magical Perl scalars such as
 $1 and tied variables

---
 SPVM.xs | 71 ++++++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 6 deletions(-)

diff --git a/SPVM.xs b/SPVM.xs
index 8d68997..644e1b3 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -201,6 +201,8 @@ SV* SPVM_XS_UTIL_new_sv_pointer_object(pTHX_ void* pointer, const char* class) {
 }
 
 SV* SPVM_XS_UTIL_new_string(pTHX_ SV* sv_api, SV* sv_string, SV** sv_error) {
+  SvGETMAGIC(sv_string);
+  
   
   HV* hv_self = (HV*)SvRV(sv_api);
   
@@ -235,6 +237,8 @@ SV* SPVM_XS_UTIL_new_string(pTHX_ SV* sv_api, SV* sv_string, SV** sv_error) {
 }
 
 SV* SPVM_XS_UTIL_new_address_object(pTHX_ SV* sv_api, SV* sv_address, SV** sv_error) {
+  SvGETMAGIC(sv_address);
+  
   HV* hv_self = (HV*)SvRV(sv_api);
   
   SV** sv_env_ptr = hv_fetch(hv_self, "env", strlen("env"), 0);
@@ -279,6 +283,8 @@ SV* SPVM_XS_UTIL_new_address_object(pTHX_ SV* sv_api, SV* sv_address, SV** sv_er
 }
 
 SV* SPVM_XS_UTIL_new_byte_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
+  SvGETMAGIC(sv_array);
+  
   HV* hv_self = (HV*)SvRV(sv_api);
   
   SV** sv_env_ptr = hv_fetch(hv_self, "env", strlen("env"), 0);
@@ -320,6 +326,7 @@ SV* SPVM_XS_UTIL_new_byte_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
       for (int32_t i = 0; i < length; i++) {
         SV** sv_elem_ptr = av_fetch(av_array, i, 0);
         SV* sv_elem = sv_elem_ptr ? *sv_elem_ptr : &PL_sv_undef;
+        SvGETMAGIC(sv_elem);
         
         if (!(SvOK(sv_elem) && !SvROK(sv_elem))) {
           *sv_error = sv_2mortal(newSVpvf("'s %dth element must be a non-reference scalar", i + 1));
@@ -337,6 +344,8 @@ SV* SPVM_XS_UTIL_new_byte_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
 }
 
 SV* SPVM_XS_UTIL_new_byte_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
+  SvGETMAGIC(sv_array);
+  
   HV* hv_self = (HV*)SvRV(sv_api);
   
   SV** sv_env_ptr = hv_fetch(hv_self, "env", strlen("env"), 0);
@@ -378,6 +387,7 @@ SV* SPVM_XS_UTIL_new_byte_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
       for (int32_t i = 0; i < length; i++) {
         SV** sv_elem_ptr = av_fetch(av_array, i, 0);
         SV* sv_elem = sv_elem_ptr ? *sv_elem_ptr : &PL_sv_undef;
+        SvGETMAGIC(sv_elem);
         
         if (!(SvOK(sv_elem) && !SvROK(sv_elem))) {
           *sv_error = sv_2mortal(newSVpvf("'s %dth element must be a non-reference scalar", i + 1));
@@ -395,6 +405,8 @@ SV* SPVM_XS_UTIL_new_byte_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
 }
 
 SV* SPVM_XS_UTIL_new_short_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
+  SvGETMAGIC(sv_array);
+  
   HV* hv_self = (HV*)SvRV(sv_api);
   
   SV** sv_env_ptr = hv_fetch(hv_self, "env", strlen("env"), 0);
@@ -436,6 +448,7 @@ SV* SPVM_XS_UTIL_new_short_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       for (int32_t i = 0; i < length; i++) {
         SV** sv_elem_ptr = av_fetch(av_array, i, 0);
         SV* sv_elem = sv_elem_ptr ? *sv_elem_ptr : &PL_sv_undef;
+        SvGETMAGIC(sv_elem);
         
         if (!(SvOK(sv_elem) && !SvROK(sv_elem))) {
           *sv_error = sv_2mortal(newSVpvf("'s %dth element must be a non-reference scalar", i + 1));
@@ -453,6 +466,8 @@ SV* SPVM_XS_UTIL_new_short_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
 }
 
 SV* SPVM_XS_UTIL_new_short_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
+  SvGETMAGIC(sv_array);
+  
   HV* hv_self = (HV*)SvRV(sv_api);
   
   SV** sv_env_ptr = hv_fetch(hv_self, "env", strlen("env"), 0);
@@ -494,6 +509,7 @@ SV* SPVM_XS_UTIL_new_short_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** s
       for (int32_t i = 0; i < length; i++) {
         SV** sv_elem_ptr = av_fetch(av_array, i, 0);
         SV* sv_elem = sv_elem_ptr ? *sv_elem_ptr : &PL_sv_undef;
+        SvGETMAGIC(sv_elem);
         
         if (!(SvOK(sv_elem) && !SvROK(sv_elem))) {
           *sv_error = sv_2mortal(newSVpvf("'s %dth element must be a non-reference scalar", i + 1));
@@ -511,6 +527,8 @@ SV* SPVM_XS_UTIL_new_short_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** s
 }
 
 SV* SPVM_XS_UTIL_new_int_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
+  SvGETMAGIC(sv_array);
+  
   HV* hv_self = (HV*)SvRV(sv_api);
   
   SV** sv_env_ptr = hv_fetch(hv_self, "env", strlen("env"), 0);
@@ -552,6 +570,7 @@ SV* SPVM_XS_UTIL_new_int_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
       for (int32_t i = 0; i < length; i++) {
         SV** sv_elem_ptr = av_fetch(av_array, i, 0);
         SV* sv_elem = sv_elem_ptr ? *sv_elem_ptr : &PL_sv_undef;
+        SvGETMAGIC(sv_elem);
         
         if (!(SvOK(sv_elem) && !SvROK(sv_elem))) {
           *sv_error = sv_2mortal(newSVpvf("'s %dth element must be a non-reference scalar", i + 1));
@@ -569,6 +588,8 @@ SV* SPVM_XS_UTIL_new_int_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
 }
 
 SV* SPVM_XS_UTIL_new_int_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
+  SvGETMAGIC(sv_array);
+  
   
   *sv_error = &PL_sv_undef;
   
@@ -611,6 +632,7 @@ SV* SPVM_XS_UTIL_new_int_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv_
       for (int32_t i = 0; i < length; i++) {
         SV** sv_elem_ptr = av_fetch(av_array, i, 0);
         SV* sv_elem = sv_elem_ptr ? *sv_elem_ptr : &PL_sv_undef;
+        SvGETMAGIC(sv_elem);
         
         if (!(SvOK(sv_elem) && !SvROK(sv_elem))) {
           *sv_error = sv_2mortal(newSVpvf("'s %dth element must be a non-reference scalar", i + 1));
@@ -628,6 +650,8 @@ SV* SPVM_XS_UTIL_new_int_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv_
 }
 
 SV* SPVM_XS_UTIL_new_long_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
+  SvGETMAGIC(sv_array);
+  
   
   *sv_error = &PL_sv_undef;
   
@@ -670,6 +694,7 @@ SV* SPVM_XS_UTIL_new_long_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
       for (int32_t i = 0; i < length; i++) {
         SV** sv_elem_ptr = av_fetch(av_array, i, 0);
         SV* sv_elem = sv_elem_ptr ? *sv_elem_ptr : &PL_sv_undef;
+        SvGETMAGIC(sv_elem);
         
         if (!(SvOK(sv_elem) && !SvROK(sv_elem))) {
           *sv_error = sv_2mortal(newSVpvf("'s %dth element must be a non-reference scalar", i + 1));
@@ -687,6 +712,8 @@ SV* SPVM_XS_UTIL_new_long_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
 }
 
 SV* SPVM_XS_UTIL_new_long_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
+  SvGETMAGIC(sv_array);
+  
   
   *sv_error = &PL_sv_undef;
   
@@ -729,6 +756,7 @@ SV* SPVM_XS_UTIL_new_long_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
       for (int32_t i = 0; i < length; i++) {
         SV** sv_elem_ptr = av_fetch(av_array, i, 0);
         SV* sv_elem = sv_elem_ptr ? *sv_elem_ptr : &PL_sv_undef;
+        SvGETMAGIC(sv_elem);
         
         if (!(SvOK(sv_elem) && !SvROK(sv_elem))) {
           *sv_error = sv_2mortal(newSVpvf("'s %dth element must be a non-reference scalar", i + 1));
@@ -746,6 +774,8 @@ SV* SPVM_XS_UTIL_new_long_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
 }
 
 SV* SPVM_XS_UTIL_new_float_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
+  SvGETMAGIC(sv_array);
+  
   
   *sv_error = &PL_sv_undef;
   
@@ -788,6 +818,7 @@ SV* SPVM_XS_UTIL_new_float_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       for (int32_t i = 0; i < length; i++) {
         SV** sv_elem_ptr = av_fetch(av_array, i, 0);
         SV* sv_elem = sv_elem_ptr ? *sv_elem_ptr : &PL_sv_undef;
+        SvGETMAGIC(sv_elem);
         
         if (!(SvOK(sv_elem) && !SvROK(sv_elem))) {
           *sv_error = sv_2mortal(newSVpvf("'s %dth element must be a non-reference scalar", i + 1));
@@ -805,6 +836,8 @@ SV* SPVM_XS_UTIL_new_float_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
 }
 
 SV* SPVM_XS_UTIL_new_double_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
+  SvGETMAGIC(sv_array);
+  
   
   *sv_error = &PL_sv_undef;
   
@@ -847,6 +880,7 @@ SV* SPVM_XS_UTIL_new_double_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       for (int32_t i = 0; i < length; i++) {
         SV** sv_elem_ptr = av_fetch(av_array, i, 0);
         SV* sv_elem = sv_elem_ptr ? *sv_elem_ptr : &PL_sv_undef;
+        SvGETMAGIC(sv_elem);
         
         if (!(SvOK(sv_elem) && !SvROK(sv_elem))) {
           *sv_error = sv_2mortal(newSVpvf("'s %dth element must be a non-reference scalar", i + 1));
@@ -864,6 +898,8 @@ SV* SPVM_XS_UTIL_new_double_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
 }
 
 SV* SPVM_XS_UTIL_new_string_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
+  SvGETMAGIC(sv_array);
+  
   
   *sv_error = &PL_sv_undef;
   
@@ -905,6 +941,7 @@ SV* SPVM_XS_UTIL_new_string_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       for (int32_t i = 0; i < length; i++) {
         SV** sv_elem_ptr = av_fetch(av_array, i, 0);
         SV* sv_elem = sv_elem_ptr ? *sv_elem_ptr : &PL_sv_undef;
+        SvGETMAGIC(sv_elem);
         SV* sv_error_elem = &PL_sv_undef;
         sv_elem = SPVM_XS_UTIL_new_string(aTHX_ sv_api, sv_elem, &sv_error_elem);
         
@@ -925,6 +962,8 @@ SV* SPVM_XS_UTIL_new_string_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
 }
 
 SV* SPVM_XS_UTIL_new_object_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_array, SV** sv_error) {
+  SvGETMAGIC(sv_array);
+  
   
   *sv_error = &PL_sv_undef;
   
@@ -965,6 +1004,7 @@ SV* SPVM_XS_UTIL_new_object_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
       for (int32_t index = 0; index < length; index++) {
         SV** sv_elem_ptr = av_fetch(av_array, index, 0);
         SV* sv_elem = sv_elem_ptr ? *sv_elem_ptr : &PL_sv_undef;
+        SvGETMAGIC(sv_elem);
         
         if (!SvOK(sv_elem)) {
           env->set_elem_object(env, stack, spvm_array, index, NULL);
@@ -999,6 +1039,8 @@ SV* SPVM_XS_UTIL_new_object_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
 }
 
 SV* SPVM_XS_UTIL_new_muldim_array(pTHX_ SV* sv_api, void* basic_type, int32_t type_dimension, SV* sv_array, SV** sv_error) {
+  SvGETMAGIC(sv_array);
+  
   
   *sv_error = &PL_sv_undef;
   
@@ -1038,6 +1080,7 @@ SV* SPVM_XS_UTIL_new_muldim_array(pTHX_ SV* sv_api, void* basic_type, int32_t ty
       for (int32_t index = 0; index < length; index++) {
         SV** sv_elem_ptr = av_fetch(av_array, index, 0);
         SV* sv_elem = sv_elem_ptr ? *sv_elem_ptr : &PL_sv_undef;
+        SvGETMAGIC(sv_elem);
         
         if (!SvOK(sv_elem)) {
           env->set_elem_object(env, stack, spvm_array, index, NULL);
@@ -1072,6 +1115,8 @@ SV* SPVM_XS_UTIL_new_muldim_array(pTHX_ SV* sv_api, void* basic_type, int32_t ty
 }
 
 SV* SPVM_XS_UTIL_new_mulnum_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_array, SV** sv_error) {
+  SvGETMAGIC(sv_array);
+  
   
   *sv_error = &PL_sv_undef;
   
@@ -1113,6 +1158,7 @@ SV* SPVM_XS_UTIL_new_mulnum_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
       for (int32_t index = 0; index < length; index++) {
         SV** sv_elem_ptr = av_fetch(av_array, index, 0);
         SV* sv_elem = sv_elem_ptr ? *sv_elem_ptr : &PL_sv_undef;
+        SvGETMAGIC(sv_elem);
         
         if (SvROK(sv_elem) && sv_derived_from(sv_elem, "HASH")) {
           
@@ -1138,6 +1184,7 @@ SV* SPVM_XS_UTIL_new_mulnum_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
             SV* sv_field_value;
             if (sv_field_value_ptr) {
               sv_field_value = *sv_field_value_ptr;
+              SvGETMAGIC(sv_field_value);
             }
             else {
               *sv_error = sv_2mortal(newSVpvf("'s %dth element's hash reference must have the \"%s\" key for the \"%s\" field of the \"%s\" basic type\n    %s at %s line %d\n", index + 1, mulnum_field_name, mulnum_field_name, basic_type_name, __func__, FILE_NAME, __LINE__));
@@ -1228,6 +1275,7 @@ _xs_call_method(...)
   
   // Invocant
   SV* sv_invocant = ST(1);
+  SvGETMAGIC(sv_invocant);
   
   // Method name
   SV* sv_method_name = ST(2);
@@ -1358,6 +1406,7 @@ _xs_call_method(...)
     
     // Get value from Perl argument native_stack
     SV* sv_value = ST(spvm_args_base + arg_index);
+    SvGETMAGIC(sv_value);
     
     void* arg = env->api->method->get_arg_by_index(env->runtime, method, arg_index);
     void* arg_basic_type = env->api->arg->get_basic_type(env->runtime, arg);
@@ -1516,6 +1565,7 @@ _xs_call_method(...)
               SV* sv_field_value;
               if (sv_field_value_ptr) {
                 sv_field_value = *sv_field_value_ptr;
+                SvGETMAGIC(sv_field_value);
               }
               else {
                 const char* arg_basic_type_name = env->api->basic_type->get_name(env->runtime, arg_basic_type);
@@ -1744,6 +1794,7 @@ _xs_call_method(...)
               SV* sv_field_value;
               if (sv_field_value_ptr) {
                 sv_field_value = *sv_field_value_ptr;
+                SvGETMAGIC(sv_field_value);
               }
               else {
                 const char* arg_basic_type_name = env->api->basic_type->get_name(env->runtime, arg_basic_type);
@@ -2184,7 +2235,7 @@ _xs_call_method(...)
                 SV** sv_ref_ptr = av_fetch(av_refs, arg_index, 0);
                 SV* sv_ref = sv_ref_ptr ? *sv_ref_ptr : &PL_sv_undef;
                 int8_t* ref = (int8_t*)SvPV_nolen(sv_ref);
-                sv_setiv(sv_value_deref, *ref);
+                sv_setiv_mg(sv_value_deref, *ref);
                 
                 break;
               }
@@ -2194,7 +2245,7 @@ _xs_call_method(...)
                 SV** sv_ref_ptr = av_fetch(av_refs, arg_index, 0);
                 SV* sv_ref = sv_ref_ptr ? *sv_ref_ptr : &PL_sv_undef;
                 int16_t* ref = (int16_t*)SvPV_nolen(sv_ref);
-                sv_setiv(sv_value_deref, *ref);
+                sv_setiv_mg(sv_value_deref, *ref);
                 
                 break;
               }
@@ -2204,7 +2255,7 @@ _xs_call_method(...)
                 SV** sv_ref_ptr = av_fetch(av_refs, arg_index, 0);
                 SV* sv_ref = sv_ref_ptr ? *sv_ref_ptr : &PL_sv_undef;
                 int32_t* ref = (int32_t*)SvPV_nolen(sv_ref);
-                sv_setiv(sv_value_deref, *ref);
+                sv_setiv_mg(sv_value_deref, *ref);
                 
                 break;
               }
@@ -2214,7 +2265,7 @@ _xs_call_method(...)
                 SV** sv_ref_ptr = av_fetch(av_refs, arg_index, 0);
                 SV* sv_ref = sv_ref_ptr ? *sv_ref_ptr : &PL_sv_undef;
                 int64_t* ref = (int64_t*)SvPV_nolen(sv_ref);
-                sv_setiv(sv_value_deref, *ref);
+                sv_setiv_mg(sv_value_deref, *ref);
                 
                 break;
               }
@@ -2224,7 +2275,7 @@ _xs_call_method(...)
                 SV** sv_ref_ptr = av_fetch(av_refs, arg_index, 0);
                 SV* sv_ref = sv_ref_ptr ? *sv_ref_ptr : &PL_sv_undef;
                 float* ref = (float*)SvPV_nolen(sv_ref);
-                sv_setnv(sv_value_deref, *ref);
+                sv_setnv_mg(sv_value_deref, *ref);
                 
                 break;
               }
@@ -2234,7 +2285,7 @@ _xs_call_method(...)
                 SV** sv_ref_ptr = av_fetch(av_refs, arg_index, 0);
                 SV* sv_ref = sv_ref_ptr ? *sv_ref_ptr : &PL_sv_undef;
                 double* ref = (double*)SvPV_nolen(sv_ref);
-                sv_setnv(sv_value_deref, *ref);
+                sv_setnv_mg(sv_value_deref, *ref);
                 
                 break;
               }
@@ -2559,6 +2610,7 @@ _xs_new_byte_array_from_bin(...)
   SPVM_VALUE* stack = SPVM_XS_UTIL_get_stack(aTHX_ sv_stack);
   
   SV* sv_binary = ST(1);
+  SvGETMAGIC(sv_binary);
   
   if (!(SvOK(sv_binary) && !SvROK(sv_binary))) {
     croak("$binary must be a defined non-reference scalar\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
@@ -2694,6 +2746,7 @@ _xs_new_short_array_from_bin(...)
   SPVM_VALUE* stack = SPVM_XS_UTIL_get_stack(aTHX_ sv_stack);
   
   SV* sv_binary = ST(1);
+  SvGETMAGIC(sv_binary);
   
   if (!(SvOK(sv_binary) && !SvROK(sv_binary))) {
     croak("$binary must be a defined non-reference scalar\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
@@ -2835,6 +2888,7 @@ _xs_new_int_array_from_bin(...)
   SPVM_VALUE* stack = SPVM_XS_UTIL_get_stack(aTHX_ sv_stack);
   
   SV* sv_binary = ST(1);
+  SvGETMAGIC(sv_binary);
   
   if (!(SvOK(sv_binary) && !SvROK(sv_binary))) {
     croak("$binary must be a defined non-reference scalar\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
@@ -2975,6 +3029,7 @@ _xs_new_long_array_from_bin(...)
   SPVM_VALUE* stack = SPVM_XS_UTIL_get_stack(aTHX_ sv_stack);
   
   SV* sv_binary = ST(1);
+  SvGETMAGIC(sv_binary);
   
   if (!(SvOK(sv_binary) && !SvROK(sv_binary))) {
     croak("$binary must be a defined non-reference scalar\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
@@ -3085,6 +3140,7 @@ _xs_new_float_array_from_bin(...)
   SPVM_VALUE* stack = SPVM_XS_UTIL_get_stack(aTHX_ sv_stack);
   
   SV* sv_binary = ST(1);
+  SvGETMAGIC(sv_binary);
   
   if (!(SvOK(sv_binary) && !SvROK(sv_binary))) {
     croak("$binary must be a defined non-reference scalar\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
@@ -3195,6 +3251,7 @@ _xs_new_double_array_from_bin(...)
   SPVM_VALUE* stack = SPVM_XS_UTIL_get_stack(aTHX_ sv_stack);
   
   SV* sv_binary = ST(1);
+  SvGETMAGIC(sv_binary);
   
   if (!(SvOK(sv_binary) && !SvROK(sv_binary))) {
     croak("$binary must be a defined non-reference scalar\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
@@ -3492,6 +3549,7 @@ _xs_new_mulnum_array_from_bin(...)
   
   SV* sv_basic_type_name = ST(1);
   SV* sv_binary = ST(2);
+  SvGETMAGIC(sv_binary);
   
   if (!(SvOK(sv_binary) && !SvROK(sv_binary))) {
     croak("$binary must be a defined non-reference scalar\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
@@ -4302,6 +4360,7 @@ _xs_set(...)
   
   SV* sv_index = ST(1);
   SV* sv_elem = ST(2);
+  SvGETMAGIC(sv_elem);
   
   // Index
   int32_t index = (int32_t)SvIV(sv_index);
-- 
2.43.0


From a6c1bf203fb46c2ef2ffd482df02763c706062eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:32 +0000
Subject: [PATCH 65/74] fix: rebuild resources when the rebuild is forced

---
 lib/SPVM/Builder/CC.pm | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/SPVM/Builder/CC.pm b/lib/SPVM/Builder/CC.pm
index 0ebe7b8..63d8b91 100644
--- a/lib/SPVM/Builder/CC.pm
+++ b/lib/SPVM/Builder/CC.pm
@@ -407,6 +407,7 @@ sub compile_class {
       # Build native classes
       my $builder_cc_resource = SPVM::Builder::CC->new(
         build_dir => $self->build_dir,
+        force => $self->force,
       );
       
       my $resource_class_name;
-- 
2.43.0


From 0c68e92a855e810f1a0ce8318b22916ccee6d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:32 +0000
Subject: [PATCH 66/74] fix: spvmcc gives the config arguments to the config of
 the program and its resources

---
 lib/SPVM/Builder/Exe.pm | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/Exe.pm b/lib/SPVM/Builder/Exe.pm
index c0b49cf..91705c8 100644
--- a/lib/SPVM/Builder/Exe.pm
+++ b/lib/SPVM/Builder/Exe.pm
@@ -1011,11 +1011,13 @@ sub compile_native_class {
   if (defined $config_file && -f $config_file) {
     
     my $mode;
+    my $argv = [];
     if ($class_name eq $self->class_name) {
       $mode = $self->{mode};
+      $argv = $self->{argv};
     }
     
-    my $config = SPVM::Builder::Config->load_mode_config($config_file, $mode, []);
+    my $config = SPVM::Builder::Config->load_mode_config($config_file, $mode, $argv);
     
     # In an executable file, only resources used in the config of the class for generate an executable file are compiled.
     unless ($class_name eq $self->class_name) {
-- 
2.43.0


From 69379385229b74b41c9ce9aaa8671ed123293644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:32 +0000
Subject: [PATCH 67/74] fix: tell config arguments apart when spvmcc detects
 their change

---
 lib/SPVM/Builder/Exe.pm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/Exe.pm b/lib/SPVM/Builder/Exe.pm
index 91705c8..6914e0b 100644
--- a/lib/SPVM/Builder/Exe.pm
+++ b/lib/SPVM/Builder/Exe.pm
@@ -832,7 +832,8 @@ sub create_bootstrap_source {
   
   # For detecting chaging config arguments
   my $argv = $self->argv;
-  $bootstrap_source .= "// argv : @$argv\n";
+  my @argv_strings = map { my $arg = $_; $arg =~ s/([^\w\-])/sprintf("%%%02x", ord $1)/ge; "\"$arg\""; } @$argv;
+  $bootstrap_source .= "// argv : @argv_strings\n";
   
   # For detecting chaging optimize
   my $optimize_string = $self->optimize;
-- 
2.43.0


From 35463d5a6e72f41bd1eec63b8c67469bc2bfd0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:32 +0000
Subject: [PATCH 68/74] fix: spvmcc forces the rebuild again if the build fails
 after its settings are changed

---
 lib/SPVM/Builder/Exe.pm | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/Exe.pm b/lib/SPVM/Builder/Exe.pm
index 6914e0b..5676788 100644
--- a/lib/SPVM/Builder/Exe.pm
+++ b/lib/SPVM/Builder/Exe.pm
@@ -311,6 +311,8 @@ sub build_exe_file {
   $config_linker->output_file($self->{output_file});
   
   $cc_linker->link($class_name, $object_files, {config => $config_linker});
+  
+  $self->save_bootstrap_source;
 }
 
 sub compile {
@@ -823,6 +825,8 @@ sub create_bootstrap_source {
   
   $bootstrap_source .= "\n";
   
+  my $bootstrap_source_no_settings = $bootstrap_source;
+  
   # For detecting chaging config mode
   my $mode_string = $self->mode;
   unless (defined $mode_string) {
@@ -861,9 +865,28 @@ sub create_bootstrap_source {
   });
   
   if ($need_generate) {
-    SPVM::Builder::Util::spurt_binary($bootstrap_source_file, $bootstrap_source);
+    # If the rebuild is forced, the settings are written after the link succeeds so that the next build is forced again if this build fails.
+    SPVM::Builder::Util::spurt_binary($bootstrap_source_file, $force ? $bootstrap_source_no_settings : $bootstrap_source);
   }
   
+  $self->{bootstrap_source_file} = $bootstrap_source_file;
+  $self->{bootstrap_source} = $bootstrap_source;
+}
+
+sub save_bootstrap_source {
+  my ($self) = @_;
+  
+  my $bootstrap_source_file = $self->{bootstrap_source_file};
+  my $bootstrap_source = $self->{bootstrap_source};
+  
+  if (SPVM::Builder::Util::slurp_binary($bootstrap_source_file) ne $bootstrap_source) {
+    my ($atime, $mtime) = (stat $bootstrap_source_file)[8, 9];
+    
+    SPVM::Builder::Util::spurt_binary($bootstrap_source_file, $bootstrap_source);
+    
+    # Keep the modification time because only comments are added
+    utime $atime, $mtime, $bootstrap_source_file;
+  }
 }
 
 sub compile_bootstrap_source_file {
-- 
2.43.0


From 34f79f2bd0b4f42e2d9da23693b9f449e16c47dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:44 +0000
Subject: [PATCH 69/74] fix: Native::MethodCall->call checks the dimensions of
 the array given as an argument

---
 lib/SPVM/Native/MethodCall.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Native/MethodCall.c b/lib/SPVM/Native/MethodCall.c
index 63a968e..c24ee3d 100644
--- a/lib/SPVM/Native/MethodCall.c
+++ b/lib/SPVM/Native/MethodCall.c
@@ -249,7 +249,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         int32_t can_assign = env->api->type->can_assign(
           runtime,
           method_arg_basic_type, method_arg_type_dimension, method_arg_type_flag,
-          arg_basic_type, method_arg_type_dimension, 0
+          arg_basic_type, arg_type_dimension, 0
         );
         
         if (!can_assign) {
-- 
2.43.0


From 1c00e4f96f837031b93b6889fa11da8e5eaca11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:44 +0000
Subject: [PATCH 70/74] fix: Native::MethodCall->call does not crash if the
 called method returns undef

---
 lib/SPVM/Native/MethodCall.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Native/MethodCall.c b/lib/SPVM/Native/MethodCall.c
index c24ee3d..c0bcf32 100644
--- a/lib/SPVM/Native/MethodCall.c
+++ b/lib/SPVM/Native/MethodCall.c
@@ -651,10 +651,14 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t method_return_is_object_type = env->api->type->is_object_type(runtime, method_return_basic_type, method_return_type_dimension, method_return_type_flag);
   
   if (method_return_is_object_type) {
-    int32_t is_binary_compatible_object = env->is_binary_compatible_object(env, stack, self_stack[0].oval);
+    void* obj_return_value = self_stack[0].oval;
     
-    if (!is_binary_compatible_object) {
-      return env->die(env, stack, "The return object is not binary compatible.", __func__, FILE_NAME, __LINE__);
+    if (obj_return_value) {
+      int32_t is_binary_compatible_object = env->is_binary_compatible_object(env, stack, obj_return_value);
+      
+      if (!is_binary_compatible_object) {
+        return env->die(env, stack, "The return object is not binary compatible.", __func__, FILE_NAME, __LINE__);
+      }
     }
   }
   else {
-- 
2.43.0


From 0a63f3ed50086aca388c21ec476e4a2b873da51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:44 +0000
Subject: [PATCH 71/74] fix: Native::MethodCall->call returns the value of a
 method called with another runtime stack

---
 lib/SPVM/Native/MethodCall.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/SPVM/Native/MethodCall.c b/lib/SPVM/Native/MethodCall.c
index c0bcf32..007e66d 100644
--- a/lib/SPVM/Native/MethodCall.c
+++ b/lib/SPVM/Native/MethodCall.c
@@ -660,6 +660,8 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         return env->die(env, stack, "The return object is not binary compatible.", __func__, FILE_NAME, __LINE__);
       }
     }
+    
+    stack[0].oval = obj_return_value;
   }
   else {
     int32_t method_return_type_is_ref = method_return_type_flag & SPVM_NATIVE_C_TYPE_FLAG_REF;
@@ -670,7 +672,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
       switch (method_return_basic_type_id) {
         case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE : {
           
-          self_stack[0].ival = self_stack[0].bval;
+          stack[0].ival = self_stack[0].bval;
           env->call_class_method_by_name(env, stack, "Byte", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -678,7 +680,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_SHORT : {
           
-          self_stack[0].ival = self_stack[0].sval;
+          stack[0].ival = self_stack[0].sval;
           env->call_class_method_by_name(env, stack, "Short", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -686,6 +688,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_INT : {
           
+          stack[0].ival = self_stack[0].ival;
           env->call_class_method_by_name(env, stack, "Int", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -693,6 +696,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_LONG : {
           
+          stack[0].lval = self_stack[0].lval;
           env->call_class_method_by_name(env, stack, "Long", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -700,6 +704,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_FLOAT : {
           
+          stack[0].fval = self_stack[0].fval;
           env->call_class_method_by_name(env, stack, "Float", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -707,6 +712,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_DOUBLE : {
           
+          stack[0].dval = self_stack[0].dval;
           env->call_class_method_by_name(env, stack, "Double", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -735,7 +741,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].bval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -749,7 +755,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].sval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -763,7 +769,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].ival;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -777,7 +783,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].lval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -791,7 +797,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].fval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -805,7 +811,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].dval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -815,7 +821,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
       }
     }
     else if (method_return_basic_type_category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_VOID) {
-      self_stack[0].oval = NULL;
+      stack[0].oval = NULL;
     }
     else {
       assert(0);
-- 
2.43.0


From 64d6178bc3a83d5d1c6353f1d01178325c5ff5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:44 +0000
Subject: [PATCH 72/74] fix: Native::MethodCall->call does not leak the object
 returned through another runtime stack

---
 lib/SPVM/Native/MethodCall.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/SPVM/Native/MethodCall.c b/lib/SPVM/Native/MethodCall.c
index 007e66d..bc2a8da 100644
--- a/lib/SPVM/Native/MethodCall.c
+++ b/lib/SPVM/Native/MethodCall.c
@@ -630,6 +630,8 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t error_id_exception_thrown = env->get_basic_type_id_by_name(env, stack, "Native::MethodCall::Error::ExceptionThrown", &error_id, __func__, FILE_NAME, __LINE__);
   if (error_id) { return error_id; }
   
+  int32_t self_mortal_stack_top = self_env->enter_scope(self_env, self_stack);
+  
   int32_t self_error_id = self_env->call_method(self_env, self_stack, method, stack_length);
   if (obj_error_id_ref) {
     int32_t* error_id_ref = env->get_elems_int(env, stack, obj_error_id_ref);
@@ -661,6 +663,12 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
       }
     }
     
+    // The return object belongs to the scope of the other stack, which nobody leaves.
+    if (self_stack != stack) {
+      env->push_mortal(env, stack, obj_return_value);
+      self_env->leave_scope(self_env, self_stack, self_mortal_stack_top);
+    }
+    
     stack[0].oval = obj_return_value;
   }
   else {
-- 
2.43.0


From 308ed66792121848f9aaf1f21cf214bf9e5855c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:46 +0000
Subject: [PATCH 73/74] fix: Native::BasicType->get_parent returns the parent

---
 lib/SPVM/Native/BasicType.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Native/BasicType.c b/lib/SPVM/Native/BasicType.c
index 924be6b..03f45c5 100644
--- a/lib/SPVM/Native/BasicType.c
+++ b/lib/SPVM/Native/BasicType.c
@@ -121,7 +121,7 @@ int32_t SPVM__Native__BasicType__get_parent(SPVM_ENV* env, SPVM_VALUE* stack) {
     stack[0].oval = obj_address_parent;
     env->call_class_method_by_name(env, stack, "Native::BasicType", "new_with_pointer", 1, &error_id, __func__, FILE_NAME, __LINE__);
     if (error_id) { return error_id; }
-    void* obj_parent = stack[0].oval;
+    obj_parent = stack[0].oval;
     env->set_no_free(env, stack, obj_parent, 1);
     
     env->set_field_object_by_name(env, stack, obj_parent, "runtime", obj_runtime, &error_id, __func__, FILE_NAME, __LINE__);
-- 
2.43.0


From 85527d29f487c4427c3c2b95ce9e5f37e178621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:46 +0000
Subject: [PATCH 74/74] fix: Native::BasicType->get_version_string does not
 crash if the class has no version

---
 lib/SPVM/Native/BasicType.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Native/BasicType.c b/lib/SPVM/Native/BasicType.c
index 03f45c5..923f890 100644
--- a/lib/SPVM/Native/BasicType.c
+++ b/lib/SPVM/Native/BasicType.c
@@ -168,7 +168,10 @@ int32_t SPVM__Native__BasicType__get_version_string(SPVM_ENV* env, SPVM_VALUE* s
   
   const char* version_string = env->api->basic_type->get_version_string(runtime, self);
   
-  void* obj_version_string = env->new_string_nolen(env, stack, version_string);
+  void* obj_version_string = NULL;
+  if (version_string) {
+    obj_version_string = env->new_string_nolen(env, stack, version_string);
+  }
   
   stack[0].oval = obj_version_string;
   
-- 
2.43.0

