From 74d2fa300723b69c259efbfbf2db251c98617906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 01/43] fix: pass the host's allocator user data to every
 malloc/free replacement call

---
 src/nkx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index d50e0e1..3c9dd4c 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -78,6 +78,8 @@ struct NKVM *nkxVmCreateEx(
     nkiMemset(vm, 0, sizeof(*vm));
     vm->mallocReplacement = params->mallocReplacement;
     vm->freeReplacement = params->freeReplacement;
+    vm->mallocAndFreeReplacementUserData =
+        params->mallocAndFreeReplacementUserData;
 
     NK_SET_FAILURE_RECOVERY(vm);
 
-- 
2.43.0


From 4dbd035aae7e299d9431a17a1810bb149ea2c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 02/43] fix: release blocks through the host's free replacement
 after an allocation failure

---
 src/nkvm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index e6cd7ee..ef5651b 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -290,7 +290,9 @@ void nkiVmDestroy(struct NKVM *vm)
 #if NK_EXTRA_FANCY_LEAK_TRACKING_LINUX
             free(vm->allocations->stackTrace);
 #endif
-            free(vm->allocations);
+            vm->freeReplacement(
+                vm->allocations,
+                vm->mallocAndFreeReplacementUserData);
             vm->allocations = next;
         }
 
-- 
2.43.0


From 808bb5dd7eb8f442abc3223c0c4e66f7d2d5a3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 03/43] fix: leave the handle list alone when releasing a
 handle that is not held

---
 src/nkobjs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 8384f1a..1eda653 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -345,6 +345,7 @@ void nkiVmObjectReleaseHandle(struct NKVM *vm, struct NKValue *value)
     if(ob->externalHandleCount == 0) {
         nkiAddError(
             vm, "Tried to release handle for object with no external handles.");
+        return;
     }
 
     ob->externalHandleCount--;
-- 
2.43.0


From b9f318336c4b098a856a3736d6743caf67ea795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 04/43] fix: don't leave a field behind when the per-object
 field limit refuses it

---
 src/nkobjs.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 1eda653..b5dfb22 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -249,6 +249,16 @@ struct NKValue *nkiVmObjectFindOrAddEntry(
             return NULL;
         }
 
+        // Check the limit before linking anything in, so that a
+        // refused field doesn't stay behind in the bucket.
+        if(ob->size == NK_UINT_MAX ||
+            ob->size >= vm->limits.maxFieldsPerObject)
+        {
+            nkiAddError(vm, "Reached object field count limit.");
+
+            return NULL;
+        }
+
         el = (struct NKVMObjectElement *)nkiMalloc(
             vm, sizeof(struct NKVMObjectElement));
         nkiMemset(el, 0, sizeof(struct NKVMObjectElement));
@@ -257,13 +267,6 @@ struct NKValue *nkiVmObjectFindOrAddEntry(
         *obList = el;
 
         ob->size++;
-        if(!ob->size || ob->size > vm->limits.maxFieldsPerObject) {
-            ob->size--;
-
-            nkiAddError(vm, "Reached object field count limit.");
-
-            return NULL;
-        }
     }
 
     return &el->value;
-- 
2.43.0


From 30630c629dd83633c84b1d10bc469966504145b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 05/43] fix: don't truncate the operands of && and || to eight
 bits

---
 src/nkopcode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index 4997d01..e992cda 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -966,8 +966,8 @@ void nkiOpcode_and(struct NKVM *vm)
 {
     // Do NOT try to inline these function calls in this expression. C
     // shortcutting will ruin your day.
-    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
-    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
     nkiVmStackPushInt(vm, in1 && in2);
 }
 
@@ -975,8 +975,8 @@ void nkiOpcode_or(struct NKVM *vm)
 {
     // Do NOT try to inline these function calls in this expression. C
     // shortcutting will ruin your day.
-    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
-    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
     nkiVmStackPushInt(vm, in1 || in2);
 }
 
-- 
2.43.0


From 5428c13053deb08f4ca1a7055ebbba7e555c4189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 06/43] fix: wrap on integer overflow instead of running into
 undefined behaviour

---
 src/nkopcode.c | 14 +++++++-------
 src/nkopt.c    | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index e992cda..3153534 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -56,8 +56,8 @@ void nkiOpcode_add(struct NKVM *vm)
 
             nkiVmStackPushInt(
                 vm,
-                in1->intData +
-                nkiValueToInt(vm, in2));
+                (nkint32_t)((nkuint32_t)in1->intData +
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -164,8 +164,8 @@ void nkiOpcode_subtract(struct NKVM *vm)
         case NK_VALUETYPE_INT:
             nkiVmStackPushInt(
                 vm,
-                in1->intData -
-                nkiValueToInt(vm, in2));
+                (nkint32_t)((nkuint32_t)in1->intData -
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -200,8 +200,8 @@ void nkiOpcode_multiply(struct NKVM *vm)
         case NK_VALUETYPE_INT:
             nkiVmStackPushInt(
                 vm,
-                in1->intData *
-                nkiValueToInt(vm, in2));
+                (nkint32_t)((nkuint32_t)in1->intData *
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -325,7 +325,7 @@ void nkiOpcode_negate(struct NKVM *vm)
         case NK_VALUETYPE_INT: {
             nkiVmStackPushInt(
                 vm,
-                -(in1->intData));
+                (nkint32_t)(0 - (nkuint32_t)in1->intData));
         } break;
 
         case NK_VALUETYPE_FLOAT: {
diff --git a/src/nkopt.c b/src/nkopt.c
index 8507c0e..a0e177c 100644
--- a/src/nkopt.c
+++ b/src/nkopt.c
@@ -85,28 +85,28 @@ struct NKExpressionAstNode *nkiCompilerMakeImmediateExpressionNode(
     return newNode;
 }
 
-#define NK_APPLY_MATH()                                                 \
+#define NK_APPLY_MATH(wrapType)                                         \
     do {                                                                \
         switch((*node)->opOrValue->type) {                              \
                                                                         \
             case NK_TOKENTYPE_PLUS:                                     \
                 /* Addition. */                                         \
-                val = c0Val + c1Val;                                    \
+                val = (wrapType)c0Val + (wrapType)c1Val;                \
                 break;                                                  \
                                                                         \
             case NK_TOKENTYPE_MINUS:                                    \
                 if(!(*node)->children[1]) {                             \
                     /* Unary negation. */                               \
-                    val = -c0Val;                                       \
+                    val = -(wrapType)c0Val;                             \
                 } else {                                                \
                     /* Subtraction. */                                  \
-                    val = c0Val - c1Val;                                \
+                    val = (wrapType)c0Val - (wrapType)c1Val;            \
                 }                                                       \
                 break;                                                  \
                                                                         \
             case NK_TOKENTYPE_MULTIPLY:                                 \
                 /* Multiplication. */                                   \
-                val = c0Val * c1Val;                                    \
+                val = (wrapType)c0Val * (wrapType)c1Val;                \
                 break;                                                  \
                                                                         \
             case NK_TOKENTYPE_DIVIDE:                                   \
@@ -188,7 +188,7 @@ void nkiCompilerOptimizeConstants(
                     char tmp[NK_PRINTF_INTCHARSNEED];
 
                     // Do the actual operation.
-                    NK_APPLY_MATH();
+                    NK_APPLY_MATH(nkuint32_t);
 
                     // TODO: Use sprintf_s on non-DOS systems.
 
@@ -211,7 +211,7 @@ void nkiCompilerOptimizeConstants(
                     char tmp[NK_PRINTF_FLOATCHARSNEEDED + 1];
 
                     // Do the actual operation.
-                    NK_APPLY_MATH();
+                    NK_APPLY_MATH(float);
 
                     // We aren't using sprintf_s here for DOS
                     // compatibility.
-- 
2.43.0


From 2d69f3d0fdab37b289bc55859a1eecb9f2d02ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 07/43] fix: keep full float precision when folding constants

---
 src/nkopt.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/nkopt.c b/src/nkopt.c
index a0e177c..19d0f9d 100644
--- a/src/nkopt.c
+++ b/src/nkopt.c
@@ -180,13 +180,23 @@ void nkiCompilerOptimizeConstants(
 
                     // Fetch original values.
                     nkint32_t c0Val = (*node)->children[0] ? atol((*node)->children[0]->opOrValue->str) : 0;
-                    nkint32_t c1Val = (*node)->children[1] ? atol((*node)->children[1]->opOrValue->str) : 0;
+                    nkint32_t c1Val = 0;
                     nkint32_t val = 0;
 
                     // Using the same size we use for the floating
                     // point conversions.
                     char tmp[NK_PRINTF_INTCHARSNEED];
 
+                    // Convert the right side the same way the VM does
+                    // when it has to convert a value at runtime.
+                    if((*node)->children[1]) {
+                        if((*node)->children[1]->opOrValue->type == NK_TOKENTYPE_FLOAT) {
+                            c1Val = (nkint32_t)(float)atof((*node)->children[1]->opOrValue->str);
+                        } else {
+                            c1Val = atol((*node)->children[1]->opOrValue->str);
+                        }
+                    }
+
                     // Do the actual operation.
                     NK_APPLY_MATH(nkuint32_t);
 
@@ -220,7 +230,9 @@ void nkiCompilerOptimizeConstants(
                     // non-DOS systems.
 
                     // Set the string for the result.
-                    sprintf(tmp, "%f", val);
+                    // Nine digits are enough to get the same float
+                    // back.
+                    sprintf(tmp, "%.9g", val);
                     newNode->opOrValue->str = nkiStrdup(vm, tmp);
 
                     // Replace the original node.
-- 
2.43.0


From 61353afe5ffa27908d3dd75aad15b8360983d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 08/43] fix: is_finished replaces its argument on the stack, it
 doesn't grow it

---
 src/nkvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index ef5651b..4d031eb 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -127,7 +127,7 @@ static void nkiVmInitOpcodeTable(void)
     NK_SETUP_OP(NK_OP_COROUTINE_CREATE,       nkiOpcode_coroutineCreate,        1);
     NK_SETUP_OP(NK_OP_COROUTINE_YIELD,        nkiOpcode_coroutineYield,         0);
     NK_SETUP_OP(NK_OP_COROUTINE_RESUME,       nkiOpcode_coroutineResume,        -1);
-    NK_SETUP_OP(NK_OP_COROUTINE_ISFINISHED,   nkiOpcode_coroutineIsFinished,    1);
+    NK_SETUP_OP(NK_OP_COROUTINE_ISFINISHED,   nkiOpcode_coroutineIsFinished,    0);
 
     NK_SETUP_OP(NK_OP_PUSHNIL,                nkiOpcode_pushNil,                1);
 
-- 
2.43.0


From 2cdccafde139a019a33e2d797ca263115736e1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:29 +0000
Subject: [PATCH 09/43] fix: release the compiler recursion count on every path
 out of a statement

---
 src/nkcompil.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 78d3843..17eba91 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -417,6 +417,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
 
     if(nkiCompilerCurrentTokenType(cs) == NK_TOKENTYPE_INVALID) {
         nkiCompilerAddError(cs, "Ran out of tokens to parse.");
+        nkiCompilerPopRecursion(cs);
         return nkfalse;
     }
 
@@ -424,15 +425,24 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
 
         case NK_TOKENTYPE_VAR:
             // "var" = Variable declaration.
-            return nkiCompilerCompileVariableDeclaration(cs);
+            if(!nkiCompilerCompileVariableDeclaration(cs)) {
+                nkiCompilerPopRecursion(cs);
+                return nkfalse;
+            }
+            break;
 
         case NK_TOKENTYPE_RETURN:
             // "return" = Return statement.
-            return nkiCompilerCompileReturnStatement(cs);
+            if(!nkiCompilerCompileReturnStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
+                return nkfalse;
+            }
+            break;
 
         case NK_TOKENTYPE_CURLYBRACE_OPEN:
             // Curly braces mean we need to parse a block.
             if(!nkiCompilerCompileBlock(cs, nkfalse)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -440,6 +450,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_IF:
             // "if" statements.
             if(!nkiCompilerCompileIfStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -447,6 +458,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_WHILE:
             // "while" statements.
             if(!nkiCompilerCompileWhileStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -454,6 +466,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_DO:
             // "do/while" statements.
             if(!nkiCompilerCompileDoWhileStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -461,6 +474,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_FOR:
             // "for" statements.
             if(!nkiCompilerCompileForStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -468,6 +482,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_BREAK:
             // "break" statements.
             if(!nkiCompilerCompileBreakStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -478,6 +493,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
             struct NKToken *nextToken = nkiCompilerPeekToken(cs);
             if(nextToken && nextToken->type == NK_TOKENTYPE_IDENTIFIER) {
                 if(!nkiCompilerCompileFunctionDefinition(cs, nkfalse, NULL)) {
+                    nkiCompilerPopRecursion(cs);
                     return nkfalse;
                 }
                 break;
@@ -488,6 +504,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         default:
             // Fall back to just parsing an expression.
             if(!nkiCompilerCompileExpression(cs, nktrue)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
 
@@ -575,6 +592,7 @@ nkbool nkiCompilerCompileBlock(struct NKCompilerState *cs, nkbool noBracesOrCont
         noBracesOrContext)
     {
         nkiCompilerAddError(cs, "Extra closing curly brace.");
+        nkiCompilerPopRecursion(cs);
         return nkfalse;
     }
 
-- 
2.43.0


From 1826118ce541dcdd998a2ebbe96c0eae7dc68538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:29 +0000
Subject: [PATCH 10/43] fix: free the old argument type lists when a function
 is set up again

---
 src/nkx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index 3c9dd4c..c5d77ed 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -444,6 +444,12 @@ static void nkiSetupExternalFunction_addArgs(
 
     if(func->argTypes) {
         nkiFree(vm, func->argTypes);
+        func->argTypes = NULL;
+    }
+
+    if(func->argExternalTypes) {
+        nkiFree(vm, func->argExternalTypes);
+        func->argExternalTypes = NULL;
     }
 
     func->argTypes = (enum NKValueType *)nkiMallocArray(
-- 
2.43.0


From 4fec8c45392b8e380e3d5d5b5a3ab9eaa4ce5a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 11/43] fix: keep every reference to a moved object or string
 valid when shrinking

---
 src/nkshrink.c | 90 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 71 insertions(+), 19 deletions(-)

diff --git a/src/nkshrink.c b/src/nkshrink.c
index 53d6e84..0e0060f 100644
--- a/src/nkshrink.c
+++ b/src/nkshrink.c
@@ -43,6 +43,51 @@
 
 #include "nkcommon.h"
 
+// Rewrite every reference to a moved string or object on one stack.
+static void nkiVmMoveStackReferences(
+    struct NKVMStack *stack,
+    enum NKValueType type,
+    nkuint32_t oldSlot, nkuint32_t newSlot)
+{
+    nkuint32_t i;
+    for(i = 0; i < stack->size; i++) {
+        struct NKValue *v = &stack->values[i];
+        if(v->type == type) {
+            if(type == NK_VALUETYPE_OBJECTID && v->objectId == oldSlot) {
+                v->objectId = newSlot;
+            } else if(type == NK_VALUETYPE_STRING && v->stringTableEntry == oldSlot) {
+                v->stringTableEntry = newSlot;
+            }
+        }
+    }
+}
+
+// Rewrite every reference to a moved string or object on every stack:
+// the root context's, and those of all the coroutines, whether they
+// are running, suspended, or waiting for something they resumed.
+static void nkiVmMoveAllStackReferences(
+    struct NKVM *vm,
+    enum NKValueType type,
+    nkuint32_t oldSlot, nkuint32_t newSlot)
+{
+    nkuint32_t i;
+
+    nkiVmMoveStackReferences(
+        &vm->rootExecutionContext.stack, type, oldSlot, newSlot);
+
+    for(i = 0; i < vm->objectTable.capacity; i++) {
+        struct NKVMObject *ob = vm->objectTable.objectTable[i];
+        if(ob && ob->externalData && ob->externalDataType.id ==
+            vm->internalObjectTypes.coroutine.id)
+        {
+            struct NKVMExecutionContext *context =
+                (struct NKVMExecutionContext *)ob->externalData;
+            nkiVmMoveStackReferences(
+                &context->stack, type, oldSlot, newSlot);
+        }
+    }
+}
+
 void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
 {
     assert(vm->objectTable.capacity > newSlot);
@@ -58,13 +103,8 @@ void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
         nkuint32_t i;
 
         // Rewrite all stack references.
-        for(i = 0; i < vm->currentExecutionContext->stack.size; i++) {
-            if(vm->currentExecutionContext->stack.values[i].type == NK_VALUETYPE_OBJECTID) {
-                if(vm->currentExecutionContext->stack.values[i].objectId == oldSlot) {
-                    vm->currentExecutionContext->stack.values[i].objectId = newSlot;
-                }
-            }
-        }
+        nkiVmMoveAllStackReferences(
+            vm, NK_VALUETYPE_OBJECTID, oldSlot, newSlot);
 
         // Rewrite all static references.
         for(i = 0; i <= vm->staticAddressMask; i++) {
@@ -79,18 +119,35 @@ void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
         for(i = 0; i < vm->objectTable.capacity; i++) {
             struct NKVMObject *ob = vm->objectTable.objectTable[i];
             if(ob) {
+                struct NKVMObjectElement *movedKey = NULL;
                 nkuint32_t k;
                 for(k = 0; k < nkiVMObjectHashBucketCount; k++) {
-                    struct NKVMObjectElement *el;
-                    for(el = ob->hashBuckets[k]; el; el = el->next) {
-                        if(el->key.type == NK_VALUETYPE_OBJECTID && el->key.objectId == oldSlot) {
-                            el->key.objectId = newSlot;
-                        }
+                    struct NKVMObjectElement **elPtr = &ob->hashBuckets[k];
+                    while(*elPtr) {
+                        struct NKVMObjectElement *el = *elPtr;
                         if(el->value.type == NK_VALUETYPE_OBJECTID && el->value.objectId == oldSlot) {
                             el->value.objectId = newSlot;
                         }
+                        if(el->key.type == NK_VALUETYPE_OBJECTID && el->key.objectId == oldSlot) {
+                            // The hash of an object is its ID, so
+                            // this element may belong to a different
+                            // bucket now.
+                            el->key.objectId = newSlot;
+                            *elPtr = el->next;
+                            el->next = movedKey;
+                            movedKey = el;
+                        } else {
+                            elPtr = &el->next;
+                        }
                     }
                 }
+                while(movedKey) {
+                    struct NKVMObjectElement *next = movedKey->next;
+                    k = nkiValueHash(vm, &movedKey->key) & (nkiVMObjectHashBucketCount - 1);
+                    movedKey->next = ob->hashBuckets[k];
+                    ob->hashBuckets[k] = movedKey;
+                    movedKey = next;
+                }
             }
         }
     }
@@ -111,13 +168,8 @@ void nkiVmMoveString(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
     vm->stringTable.stringTable[oldSlot] = NULL;
 
     // Rewrite all stack references.
-    for(i = 0; i < vm->currentExecutionContext->stack.size; i++) {
-        if(vm->currentExecutionContext->stack.values[i].type == NK_VALUETYPE_STRING) {
-            if(vm->currentExecutionContext->stack.values[i].stringTableEntry == oldSlot) {
-                vm->currentExecutionContext->stack.values[i].stringTableEntry = newSlot;
-            }
-        }
-    }
+    nkiVmMoveAllStackReferences(
+        vm, NK_VALUETYPE_STRING, oldSlot, newSlot);
 
     // Rewrite all static references.
     for(i = 0; i <= vm->staticAddressMask; i++) {
-- 
2.43.0


From 8155143a05eb52c805ae699b7ce55b481d0be8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:43 +0000
Subject: [PATCH 12/43] fix: don't move what native data refers to when
 shrinking

---
 src/nkgc.c     | 42 ++++++++++++++++++++++++++++++++++++++++++
 src/nkshrink.c | 16 ++++++++++++----
 src/nkvm.h     |  5 +++++
 3 files changed, 59 insertions(+), 4 deletions(-)

diff --git a/src/nkgc.c b/src/nkgc.c
index 8ffbef8..735ba86 100644
--- a/src/nkgc.c
+++ b/src/nkgc.c
@@ -215,6 +215,48 @@ void nkiVmGarbageCollect_markStack(
     }
 }
 
+nkuint32_t nkiVmGarbageCollect_markExternallyReferenced(struct NKVM *vm)
+{
+    struct NKVMGCState gcState;
+    nkuint32_t i;
+
+    nkiMemset(&gcState, 0, sizeof(gcState));
+    gcState.currentGCPass = ++vm->gcInfo.lastGCPass;
+    gcState.vm = vm;
+
+    for(i = 0; i < vm->objectTable.capacity; i++) {
+
+        struct NKVMObject *ob = vm->objectTable.objectTable[i];
+
+        if(ob && ob->externalDataType.id < vm->externalTypeCount &&
+            ob->externalDataType.id != vm->internalObjectTypes.coroutine.id)
+        {
+            NKVMExternalObjectGCMarkCallback callback =
+                vm->externalTypes[ob->externalDataType.id].gcMarkCallback;
+
+            if(callback) {
+                struct NKValue val;
+                nkiMemset(&val, 0, sizeof(val));
+                val.type = NK_VALUETYPE_OBJECTID;
+                val.objectId = ob->objectTableIndex;
+                callback(vm, &val, ob->externalData, &gcState);
+            }
+        }
+    }
+
+    // Strings have been marked already. The objects are only in the
+    // open list so far, and we do not want anything that they
+    // reference themselves.
+    while(gcState.openList) {
+        struct NKVMValueGCEntry *next = gcState.openList->next;
+        gcState.openList->object->lastGCPass = gcState.currentGCPass;
+        nkiFree(vm, gcState.openList);
+        gcState.openList = next;
+    }
+
+    return gcState.currentGCPass;
+}
+
 void nkiVmGarbageCollect(struct NKVM *vm)
 {
     struct NKVMGCState gcState;
diff --git a/src/nkshrink.c b/src/nkshrink.c
index 0e0060f..d1c3ca1 100644
--- a/src/nkshrink.c
+++ b/src/nkshrink.c
@@ -232,6 +232,7 @@ void nkiVmShrink(struct NKVM *vm)
     nkuint32_t emptyHoleSearch = 0;
     nkuint32_t objectSearch = 0;
     nkuint32_t i;
+    nkuint32_t externallyReferencedPass;
 
     // VMs with errors may be in an unpredictable or inconsistent
     // state. Bail out here, just in case.
@@ -239,9 +240,11 @@ void nkiVmShrink(struct NKVM *vm)
         return;
     }
 
-    // FIXME: I don't think we can actually do the following code
-    // reliably. Moving objects around in the object table will mess
-    // up references to those objects!
+    // Native data may hold on to values that it only tells us about
+    // through GC mark callbacks. We can't rewrite those, so whatever
+    // they refer to has to stay where it is.
+    externallyReferencedPass =
+        nkiVmGarbageCollect_markExternallyReferenced(vm);
 
     while(emptyHoleSearch < vm->objectTable.capacity) {
         if(!vm->objectTable.objectTable[emptyHoleSearch]) {
@@ -265,6 +268,8 @@ void nkiVmShrink(struct NKVM *vm)
                     // object IDs after the fact.
 
                     if(!vm->objectTable.objectTable[objectSearch]->externalHandleCount &&
+                        vm->objectTable.objectTable[objectSearch]->lastGCPass !=
+                        externallyReferencedPass &&
                         vm->objectTable.objectTable[objectSearch]->externalDataType.id !=
                         vm->internalObjectTypes.coroutine.id)
                     {
@@ -294,7 +299,10 @@ void nkiVmShrink(struct NKVM *vm)
             // Find a string to move into this slot.
             while(objectSearch < vm->stringTable.capacity) {
                 if(vm->stringTable.stringTable[objectSearch]) {
-                    if(!vm->stringTable.stringTable[objectSearch]->dontGC) {
+                    if(!vm->stringTable.stringTable[objectSearch]->dontGC &&
+                        vm->stringTable.stringTable[objectSearch]->lastGCPass !=
+                        externallyReferencedPass)
+                    {
                         // Found something for this hole!
                         nkiVmMoveString(vm, objectSearch, emptyHoleSearch);
                         break;
diff --git a/src/nkvm.h b/src/nkvm.h
index efaad10..7870b9b 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -328,6 +328,11 @@ void nkiVmIterate(struct NKVM *vm);
 /// Force a garbage collection pass.
 void nkiVmGarbageCollect(struct NKVM *vm);
 
+/// Mark only what native data refers to through GC mark callbacks
+/// (except coroutines), and nothing that is reachable from there.
+/// Returns the GC pass number that marks those objects and strings.
+nkuint32_t nkiVmGarbageCollect_markExternallyReferenced(struct NKVM *vm);
+
 /// Call a function inside the VM. This does not do any kind of
 /// iteration control, and will simply keep iterating until the
 /// instruction pointer points to the end of addressable program
-- 
2.43.0


From 3e77fbd054830e8bca02574e7121225f1dbcc7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 13/43] fix: refuse to create a coroutine from an external
 function

---
 src/nkopcode.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index 3153534..be32177 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -601,7 +601,17 @@ void nkiOpcode_call(struct NKVM *vm)
 
     // At this point the behavior changes depending on if it's a C
     // function or script function.
-    if(funcOb->externalFunctionId.id != NK_INVALID_VALUE) {
+    if(funcOb->externalFunctionId.id != NK_INVALID_VALUE &&
+        vm->currentExecutionContext->coroutineState == NK_COROUTINE_CREATED)
+    {
+        // We're setting up the context for a new coroutine, and there
+        // is no code in an external function that we could switch
+        // into later.
+        nkiAddError(
+            vm,
+            "Cannot create a coroutine from an external function.");
+
+    } else if(funcOb->externalFunctionId.id != NK_INVALID_VALUE) {
 
         // In this case we just want to call the C function, pop all
         // of our data off the stack, push the return value, and then
-- 
2.43.0


From 7bf99dfbf188009901095503df63471ce42d7273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 14/43] fix: report errors in coroutine creation at the right
 position

---
 src/nkopcode.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index be32177..fe33144 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -1220,13 +1220,22 @@ void nkiOpcode_coroutineCreate(struct NKVM *vm)
     // Copy the argument count into the new stack.
     nkiVmStackPushInt(vm, argCount);
 
-    // Set the IP to a magic value so we recognize it when we try to
-    // return.
-    executionContext->instructionPointer = NK_INVALID_VALUE;
+    // Errors in the call should be reported at the position of the
+    // instruction that creates the coroutine.
+    executionContext->instructionPointer =
+        parentExecutionContext->instructionPointer;
 
     // Initiate the function.
     nkiOpcode_call(vm);
 
+    // Set the return pointer to a magic value so we recognize it when
+    // we try to return.
+    if(!nkiVmHasErrors(vm)) {
+        struct NKValue *returnPointer = nkiVmStackPeek(
+            vm, executionContext->stack.size - 1);
+        returnPointer->intData = (nkint32_t)NK_INVALID_VALUE;
+    }
+
     // Note: This will leave the IP in the new context pointing at the
     // instruction before the actual function body! IP increment
     // happens after the instruction is executed, so we're expecting
-- 
2.43.0


From 3cabf68e4fd7d6f6229a8e69bd7a42b773540d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 15/43] fix: record the source position of the first line of a
 script

---
 src/nkcompil.c | 53 +++++++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 17eba91..d079c00 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -920,6 +920,30 @@ nkbool nkiCompilerCompileFunctionDefinition(
     return ret;
 }
 
+// Point everything from the next emitted instruction on to the
+// position of the current token.
+static void nkiCompilerAddPositionMarker(struct NKCompilerState *cs)
+{
+    struct NKVMFilePositionMarker newMarker;
+
+    cs->currentLineNumber = cs->currentToken->lineNumber;
+    cs->currentFileIndex = cs->currentToken->fileIndex;
+    cs->currentActualLineNumber = cs->currentToken->actualLineNumber;
+
+    newMarker.fileIndex = cs->currentToken->fileIndex;
+    newMarker.lineNumber = cs->currentToken->lineNumber;
+    newMarker.instructionIndex = cs->instructionWriteIndex;
+    newMarker.actualLineNumber = cs->currentToken->actualLineNumber;
+
+    cs->vm->positionMarkerList =
+        (struct NKVMFilePositionMarker*)nkiReallocArray(
+            cs->vm, cs->vm->positionMarkerList,
+            sizeof(struct NKVMFilePositionMarker),
+            cs->vm->positionMarkerCount + 1);
+
+    cs->vm->positionMarkerList[cs->vm->positionMarkerCount++] = newMarker;
+}
+
 struct NKToken *nkiCompilerNextToken(struct NKCompilerState *cs)
 {
     if(cs->currentToken) {
@@ -929,24 +953,7 @@ struct NKToken *nkiCompilerNextToken(struct NKCompilerState *cs)
             if((nkint32_t)cs->currentLineNumber != cs->currentToken->lineNumber ||
                 cs->currentFileIndex != cs->currentToken->fileIndex)
             {
-                struct NKVMFilePositionMarker newMarker;
-
-                cs->currentLineNumber = cs->currentToken->lineNumber;
-                cs->currentFileIndex = cs->currentToken->fileIndex;
-                cs->currentActualLineNumber = cs->currentToken->actualLineNumber;
-
-                newMarker.fileIndex = cs->currentToken->fileIndex;
-                newMarker.lineNumber = cs->currentToken->lineNumber;
-                newMarker.instructionIndex = cs->instructionWriteIndex;
-                newMarker.actualLineNumber = cs->currentToken->actualLineNumber;
-
-                cs->vm->positionMarkerList =
-                    (struct NKVMFilePositionMarker*)nkiReallocArray(
-                        cs->vm, cs->vm->positionMarkerList,
-                        sizeof(struct NKVMFilePositionMarker),
-                        cs->vm->positionMarkerCount + 1);
-
-                cs->vm->positionMarkerList[cs->vm->positionMarkerCount++] = newMarker;
+                nkiCompilerAddPositionMarker(cs);
             }
         }
     }
@@ -1216,10 +1223,12 @@ nkbool nkiCompilerCompileScript(
     // Compile.
 
     cs->currentToken = tokenList.first;
-    cs->currentLineNumber =
-        cs->currentToken ? cs->currentToken->lineNumber : 0;
-    cs->currentFileIndex =
-        cs->currentToken ? cs->currentToken->fileIndex : NK_INVALID_VALUE;
+    if(cs->currentToken) {
+        nkiCompilerAddPositionMarker(cs);
+    } else {
+        cs->currentLineNumber = 0;
+        cs->currentFileIndex = NK_INVALID_VALUE;
+    }
 
     success = nkiCompilerCompileBlock(cs, nktrue);
 
-- 
2.43.0


From 4a920ad0cd972a00cb9a3b92436b18bf799a4f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 16/43] fix: don't read past the end of an unterminated string
 in a directive

---
 src/nktoken.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/nktoken.c b/src/nktoken.c
index 9590642..49601c7 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -322,7 +322,17 @@ nkbool nkiCompilerGetPreprocessorTokens(
             // Attempt to parse a quoted string.
             while(1) {
 
-                if(str[k] == '\\') {
+                if(!str[k] || str[k] == '\n') {
+
+                    nkiAddErrorEx(
+                        vm, lineNumber, fileIndex,
+                        "Unterminated string in preprocessor directive.");
+
+                    nkiCompilerFreeStringList(vm, tokens, tokenCount);
+
+                    return nkfalse;
+
+                } else if(str[k] == '\\') {
 
                     skipNext = !skipNext;
 
@@ -337,6 +347,8 @@ nkbool nkiCompilerGetPreprocessorTokens(
 
                     }
 
+                    skipNext = nkfalse;
+
                 } else {
 
                     skipNext = nkfalse;
-- 
2.43.0


From d8b4a4bf27451d72ed122cd22dfee20ddc16abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 17/43] fix: keep line numbers right after a preprocessor
 directive

---
 src/nktoken.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/nktoken.c b/src/nktoken.c
index 49601c7..408a3bd 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -461,6 +461,7 @@ nkbool nkiCompilerTokenize(
             nkuint32_t lineStart = i;
             char **tokenStringList = NULL;
             nkuint32_t tokenCount = 0;
+            nkbool setsLineNumber = nkfalse;
 
             // Figure out how long the line is, and also advance the
             // tokenization system past it.
@@ -497,6 +498,7 @@ nkbool nkiCompilerTokenize(
                     }
 
                     lineNumber = atol(tokenStringList[1]);
+                    setsLineNumber = nktrue;
 
                     if(tokenCount > 2) {
                         fileIndex = nkiVmAddSourceFile(vm, tokenStringList[2]);
@@ -532,6 +534,19 @@ nkbool nkiCompilerTokenize(
             // Clean up.
             nkiCompilerFreeStringList(vm, tokenStringList, tokenCount);
 
+            // The newline that ends the directive gets skipped below,
+            // so account for it here. A #line directive sets the
+            // number of the line that comes after it.
+            while(str[i] == '\r') {
+                i++;
+            }
+            if(str[i] == '\n') {
+                actualLineNumber++;
+                if(!setsLineNumber) {
+                    lineNumber++;
+                }
+            }
+
         } else if(str[i] == '(') {
 
             nkiCompilerAddToken(vm, NK_TOKENTYPE_PAREN_OPEN, "(", NK_TOKEN_STATE_PARAMETERS);
-- 
2.43.0


From f73f7b44f0f09455950c8851ba40377fa23d23b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 18/43] fix: keep checking the instruction limit after it was
 reached once

---
 src/nkvm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nkvm.c b/src/nkvm.c
index 4d031eb..a9bcb3c 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -408,6 +408,7 @@ void nkiVmIterate(struct NKVM *vm)
             if(vm->instructionsLeftBeforeTimeout < vm->gcInfo.gcInterval) {
                 nkiAddError(vm, "Instruction count limit reached.");
                 vm->instructionsLeftBeforeTimeout = 0;
+                vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
                 return;
             }
             vm->instructionsLeftBeforeTimeout -= vm->gcInfo.gcInterval;
-- 
2.43.0


From ae3b667f5e9db73f180f086f475df6b3f80fb1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 19/43] fix: drop stale source positions when recovering from a
 REPL error

---
 src/nkcompil.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index d079c00..4a16945 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1692,6 +1692,16 @@ void nkiCompilerClearReplErrorState(
     cs->instructionWriteIndex = instructionPointerReset;
     cs->vm->instructions[cs->instructionWriteIndex].opcode = NK_OP_END;
 
+    // Drop the source positions of the instructions that just went
+    // away. They have to stay in order of instruction index.
+    while(cs->vm->positionMarkerCount &&
+        cs->vm->positionMarkerList[
+            cs->vm->positionMarkerCount - 1].instructionIndex >=
+        instructionPointerReset)
+    {
+        cs->vm->positionMarkerCount--;
+    }
+
     // Re-init error state.
     nkiErrorStateDestroy(cs->vm);
     nkiErrorStateInit(cs->vm);
-- 
2.43.0


From 150c90a98c04d4413c34e7d8c1801bca3fa89572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 20/43] fix: keep the identity of every external function when
 loading a VM

---
 src/nksave.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index 4fa3d9c..6a5c6ba 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -797,6 +797,14 @@ nkbool nkiSerializeFunctionTable_inner(
 {
     nkuint32_t i;
 
+    // Clear out all the internal function values, in case we don't
+    // actually find something for one of them.
+    if(!writeMode) {
+        for(i = 0; i < vm->externalFunctionCount; i++) {
+            vm->externalFunctionTable[i].internalFunctionId.id = NK_INVALID_VALUE;
+        }
+    }
+
     for(i = 0; i < tmpExternalFunctionCount; i++) {
 
         struct NKVMExternalFunction tmpExternalFunc = {0};
@@ -819,11 +827,6 @@ nkbool nkiSerializeFunctionTable_inner(
 
             for(n = 0; n < vm->externalFunctionCount; n++) {
 
-                // Clear out the internal function value,
-                // in case we don't actually find
-                // something.
-                vm->externalFunctionTable[n].internalFunctionId.id = NK_INVALID_VALUE;
-
                 if(!nkiStrcmp(tmpExternalFunc.name, vm->externalFunctionTable[n].name)) {
                     functionIdMapping[i].id = n;
                     vm->externalFunctionTable[n].internalFunctionId =
-- 
2.43.0


From 7b1293c0b552e9da1b1e04bff912709ccdf7296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 21/43] fix: don't leave a stale global count behind when
 loading a VM fails

---
 src/nksave.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nksave.c b/src/nksave.c
index 6a5c6ba..9d17130 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -946,6 +946,7 @@ nkbool nkiSerializeGlobalsList(
         }
         nkiFree(vm, vm->globalVariables);
         vm->globalVariables = NULL;
+        vm->globalVariableCount = 0;
     }
 
     NKI_SERIALIZE_BASIC(nkuint32_t, globalVariableCount);
-- 
2.43.0


From b62afa8d70acbdc5f38d9329d8d9f1057a4bd040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 22/43] fix: leave the root context running after recovering
 from a REPL error

---
 src/nkcompil.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 4a16945..0a7f407 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1729,6 +1729,9 @@ void nkiCompilerClearReplErrorState(
         cs->vm->currentExecutionContext = parent;
     }
 
+    // The root context is always running.
+    cs->vm->rootExecutionContext.coroutineState = NK_COROUTINE_RUNNING;
+
     // Reset instruction pointer.
     cs->vm->currentExecutionContext->instructionPointer = \
         cs->instructionWriteIndex;
-- 
2.43.0


From fd1f40bd88c071a3c8105f33a72243e7045ad06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:30 +0000
Subject: [PATCH 23/43] fix: don't change the collection interval of a VM by
 saving it, and keep the countdown of a loaded one within the interval

---
 src/nksave.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nksave.c b/src/nksave.c
index 9d17130..2b1950a 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -776,11 +776,14 @@ nkbool nkiSerializeGcState(
 
     // gcInterval needs a hard limit here because the instruction
     // count limit is only enforced on garbage collection intervals.
-    if(vm->gcInfo.gcInterval > 65536) {
+    if(!writeMode && vm->gcInfo.gcInterval > 65536) {
         vm->gcInfo.gcInterval = 65536;
     }
 
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcCountdown);
+    if(!writeMode && vm->gcInfo.gcCountdown > vm->gcInfo.gcInterval) {
+        vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
+    }
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcNewObjectInterval);
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcNewObjectCountdown);
 
-- 
2.43.0


From edc1d51954fb5d1f30034693f6580083efee62f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 24/43] fix: free everything when deleting a VM that is at its
 memory limit

---
 src/nkvm.c | 52 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index a9bcb3c..e1316d0 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -259,6 +259,27 @@ void nkiVmInit(struct NKVM *vm)
     nkxCoroutineLibrary_init(vm);
 }
 
+// Catastrophic failure cleanup mode. Do not trust most internal
+// pointers and use the allocation tracker directly to free every
+// allocation we've made.
+static void nkiVmDestroyAllAllocations(struct NKVM *vm)
+{
+    while(vm->allocations) {
+        struct NKMemoryHeader *next = vm->allocations->nextAllocation;
+#if NK_EXTRA_FANCY_LEAK_TRACKING_LINUX
+        free(vm->allocations->stackTrace);
+#endif
+        vm->freeReplacement(
+            vm->allocations,
+            vm->mallocAndFreeReplacementUserData);
+        vm->allocations = next;
+    }
+
+#if NK_EXTRA_FANCY_LEAK_TRACKING_LINUX
+    nkiDumpLeakData(vm);
+#endif
+}
+
 void nkiVmDestroy(struct NKVM *vm)
 {
     // The external data table is still good, regardless of allocation
@@ -281,24 +302,7 @@ void nkiVmDestroy(struct NKVM *vm)
 
     if(vm->errorState.allocationFailure) {
 
-        // Catastrophic failure cleanup mode. Do not trust most
-        // internal pointers and use the allocation tracker directly.
-
-        // Now just free every allocation we've made.
-        while(vm->allocations) {
-            struct NKMemoryHeader *next = vm->allocations->nextAllocation;
-#if NK_EXTRA_FANCY_LEAK_TRACKING_LINUX
-            free(vm->allocations->stackTrace);
-#endif
-            vm->freeReplacement(
-                vm->allocations,
-                vm->mallocAndFreeReplacementUserData);
-            vm->allocations = next;
-        }
-
-#if NK_EXTRA_FANCY_LEAK_TRACKING_LINUX
-        nkiDumpLeakData(vm);
-#endif
+        nkiVmDestroyAllAllocations(vm);
 
     } else {
 
@@ -306,7 +310,17 @@ void nkiVmDestroy(struct NKVM *vm)
 
         NK_FAILURE_RECOVERY_DECL();
 
-        NK_SET_FAILURE_RECOVERY_VOID();
+        NK_SET_FAILURE_RECOVERY_BASE();
+        if(setjmp(catastrophicFailureJmpBuf)) {
+            // The final garbage collection ran out of memory.
+            NK_CLEAR_FAILURE_RECOVERY();
+            nkiVmDestroyAllAllocations(vm);
+            return;
+        }
+
+        // The memory limit should not get in the way of the final
+        // garbage collection pass.
+        vm->limits.maxAllocatedMemory = NK_UINT_MAX;
 
         // Nuke the entire static address space and stack, then force
         // a final garbage collection pass before we start making the
-- 
2.43.0


From 7254508ca63b1e138b8dd4288fd891d484f0b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:56 +0000
Subject: [PATCH 25/43] fix: report bad handle count and serializer calls as
 errors instead of asserting

Both could add an error with no failure recovery set up.
---
 src/nkx.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nkx.c b/src/nkx.c
index c5d77ed..afa024a 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -419,7 +419,12 @@ void nkxVmObjectReleaseHandle(struct NKVM *vm, struct NKValue *value)
 
 nkuint32_t nkxVmObjectGetExternalHandleCount(struct NKVM *vm, struct NKValue *value)
 {
-    return nkiVmObjectGetExternalHandleCount(vm, value);
+    nkuint32_t ret = 0;
+    NK_FAILURE_RECOVERY_DECL();
+    NK_SET_FAILURE_RECOVERY(ret);
+    ret = nkiVmObjectGetExternalHandleCount(vm, value);
+    NK_CLEAR_FAILURE_RECOVERY();
+    return ret;
 }
 
 void nkxSetUserData(struct NKVM *vm, void *userData)
@@ -983,7 +988,7 @@ nkbool nkxSerializerGetWriteMode(struct NKVM *vm)
 nkbool nkxSerializeData(struct NKVM *vm, void *data, nkuint32_t size)
 {
     if(!vm->serializationState.writer) {
-        nkiAddError(vm, "Attempted to access serialization writer outside of serialization.");
+        nkxAddError(vm, "Attempted to access serialization writer outside of serialization.");
         return nkfalse;
     }
 
-- 
2.43.0


From 0f0953b43180ccb1ab6e10997e7c6428a8398673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:15 +0000
Subject: [PATCH 26/43] fix: report errors in a for loop's increment at the
 loop header

The increment is emitted after the loop body, so its instructions were
attributed to whatever line follows the body.
---
 src/nkcompil.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 0a7f407..642c0e3 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1512,6 +1512,8 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     nkuint32_t skipAddressWritePtr = 0;
     nkuint32_t loopStartAddress = 0;
     struct NKExpressionAstNode *incrementExpression = NULL;
+    struct NKToken *incrementToken = NULL;
+    struct NKToken *nextToken = NULL;
 
     if(!nkiCompilerPushRecursion(cs)) {
         return nkfalse;
@@ -1566,6 +1568,7 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
 
     // Parse the increment expression, but don't emit yet (we'll do
     // this at the end, before the jump back).
+    incrementToken = cs->currentToken;
     incrementExpression = nkiCompilerCompileExpressionWithoutEmit(cs, nktrue);
 
     // Skip ")"
@@ -1586,6 +1589,15 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     }
     nkiCompilerPopContext(cs);
 
+    // The increment expression comes from the loop header, so errors
+    // in it belong to that position instead of the end of the body.
+    nextToken = cs->currentToken;
+    if(incrementToken) {
+        cs->currentToken = incrementToken;
+        nkiCompilerAddPositionMarker(cs);
+        cs->currentToken = nextToken;
+    }
+
     // Emit the increment expression.
     if(!nkiCompilerEmitExpression(cs, incrementExpression)) {
         nkiCompilerDeleteExpressionNode(cs->vm, incrementExpression);
@@ -1598,6 +1610,11 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     // Emit jump back to start.
     nkiCompilerEmitJump(cs, loopStartAddress);
 
+    // Back to the position of whatever follows the loop.
+    if(nextToken) {
+        nkiCompilerAddPositionMarker(cs);
+    }
+
     // Fixup skip offset.
     nkiCompilerModifyJump(cs, skipAddressWritePtr, cs->instructionWriteIndex);
 
-- 
2.43.0


From 3d5dbec3ef78429bcf8eb987d022ba6a14d514ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:26 +0000
Subject: [PATCH 27/43] fix: refuse script files whose length cannot be
 determined

---
 src/nkx.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/nkx.c b/src/nkx.c
index afa024a..e8d580c 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -260,6 +260,7 @@ nkbool nkxCompilerCompileScriptFile(
 {
     struct NKVM *vm = cs->vm;
     FILE *in = fopen(scriptFilename, "rb");
+    long fileSize;
     nkuint32_t len;
     char *buf;
     nkbool success;
@@ -272,10 +273,23 @@ nkbool nkxCompilerCompileScriptFile(
         return nkfalse;
     }
 
-    // Read file length.
-    fseek(in, 0, SEEK_END);
-    len = ftell(in);
-    fseek(in, 0, SEEK_SET);
+    // Read file length. This fails, or is nonsense, for things that
+    // aren't regular files (pipes, directories, etc).
+    fileSize = -1;
+    if(!fseek(in, 0, SEEK_END)) {
+        fileSize = ftell(in);
+    }
+    if(fileSize < 0 || (unsigned long)fileSize >= NK_UINT_MAX ||
+        fseek(in, 0, SEEK_SET))
+    {
+        NK_FAILURE_RECOVERY_DECL();
+        fclose(in);
+        NK_SET_FAILURE_RECOVERY(nkfalse);
+        nkiCompilerAddError(cs, "Cannot read script file.");
+        NK_CLEAR_FAILURE_RECOVERY();
+        return nkfalse;
+    }
+    len = (nkuint32_t)fileSize;
 
     buf = (char *)malloc(len + 1);
     if(!buf) {
@@ -283,7 +297,7 @@ nkbool nkxCompilerCompileScriptFile(
         nkiErrorStateSetAllocationFailFlag(vm);
         return nkfalse;
     }
-    fread(buf, len, 1, in);
+    len = (nkuint32_t)fread(buf, 1, len, in);
     buf[len] = 0;
 
     fclose(in);
-- 
2.43.0


From 84267bf6e92da94db8416fb17f4b6d184cfff8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:41 +0000
Subject: [PATCH 28/43] fix: refuse to load files whose length cannot be
 determined in the interpreter

---
 src/interp/main.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/interp/main.c b/src/interp/main.c
index 7866673..361b15c 100644
--- a/src/interp/main.c
+++ b/src/interp/main.c
@@ -257,20 +257,35 @@ void loadFile(struct NKVMFunctionCallbackData *data)
         data->vm, &data->arguments[0]);
 
     FILE *inFile = fopen(filename, "rb");
-    size_t fileSize;
+    long fileSize;
 
     if(!inFile) {
         nkxAddError(data->vm, "Cannot open file.");
         return;
     }
 
-    fseek(inFile, 0, SEEK_END);
-    fileSize = ftell(inFile);
-    fseek(inFile, 0, SEEK_SET);
+    // This fails, or is nonsense, for things that aren't regular
+    // files (pipes, directories, etc).
+    fileSize = -1;
+    if(!fseek(inFile, 0, SEEK_END)) {
+        fileSize = ftell(inFile);
+    }
+    if(fileSize < 0 || (unsigned long)fileSize >= NK_UINT_MAX ||
+        fseek(inFile, 0, SEEK_SET))
+    {
+        fclose(inFile);
+        nkxAddError(data->vm, "Cannot read file.");
+        return;
+    }
 
     char *buf = malloc(fileSize + 1);
+    if(!buf) {
+        fclose(inFile);
+        nkxAddError(data->vm, "Cannot read file.");
+        return;
+    }
 
-    fread(buf, fileSize, 1, inFile);
+    fileSize = fread(buf, 1, fileSize, inFile);
     buf[fileSize] = 0;
 
     fclose(inFile);
-- 
2.43.0


From 03c4edd1a755990b33cdf6c60af39b245cfc6ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:41 +0000
Subject: [PATCH 29/43] fix: terminate the script buffer when the input is
 empty in the interpreter

---
 src/interp/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/interp/main.c b/src/interp/main.c
index 361b15c..bbd69b3 100644
--- a/src/interp/main.c
+++ b/src/interp/main.c
@@ -133,6 +133,13 @@ char *loadScriptFromStream(nkuint32_t *scriptSize, FILE *in, nkbool stopOnNewlin
 
     *scriptSize = 0;
 
+    if(!buf) {
+        return NULL;
+    }
+
+    // An empty input is still a null-terminated string.
+    buf[0] = 0;
+
     while(fread(&buf[*scriptSize], 1, 1, in) > 0) {
 
         (*scriptSize)++;
-- 
2.43.0


From fcd4f3a87840ee11d3f8b52bcb9f146554ef42ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:41 +0000
Subject: [PATCH 30/43] fix: do not free the last interactive input twice after
 an allocation failure

---
 src/interp/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interp/main.c b/src/interp/main.c
index bbd69b3..2422c48 100644
--- a/src/interp/main.c
+++ b/src/interp/main.c
@@ -402,6 +402,7 @@ int main(int argc, char *argv[])
             // Attempt to compile new code.
             nkxCompilerCompileScript(compiler, scriptText, "<stdin>");
             free(scriptText);
+            scriptText = NULL;
 
             // Finalize and run.
             if(checkNoErrors(vm)) {
-- 
2.43.0


From 2dc611743431a260f53131ee31ba93d6e0c4d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:30 +0000
Subject: [PATCH 31/43] fix: do not search an incomplete global variable table
 after a failure

---
 src/nkvm.c |  6 +++++-
 src/nkx.c  | 22 ++++++++++------------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index e1316d0..938a803 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -461,7 +461,11 @@ struct NKValue *nkiVmFindGlobalVariable(
 {
     nkuint32_t i;
     for(i = 0; i < vm->globalVariableCount; i++) {
-        if(!nkiStrcmp(vm->globalVariables[i].name, name)) {
+        // Names can be missing if loading a snapshot failed part of
+        // the way through the table.
+        if(vm->globalVariables[i].name &&
+            !nkiStrcmp(vm->globalVariables[i].name, name))
+        {
             return &vm->staticSpace[vm->staticAddressMask & vm->globalVariables[i].staticPosition];
         }
     }
diff --git a/src/nkx.c b/src/nkx.c
index e8d580c..2f2c155 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -186,22 +186,20 @@ void nkxVmCallFunction(
 struct NKValue *nkxVmFindGlobalVariable(
     struct NKVM *vm, struct NKCompilerState *cs, const char *name)
 {
+    NK_FAILURE_RECOVERY_DECL();
+    struct NKValue *ret = NULL;
+    NK_SET_FAILURE_RECOVERY(NULL);
     if(cs) {
-        NK_FAILURE_RECOVERY_DECL();
-        struct NKValue *ret = NULL;
-        NK_SET_FAILURE_RECOVERY(NULL);
-        {
-            struct NKCompilerStateContextVariable *var =
-                nkiCompilerLookupVariable(cs, name);
-            if(var) {
-                ret = &vm->staticSpace[var->position & vm->staticAddressMask];
-            }
+        struct NKCompilerStateContextVariable *var =
+            nkiCompilerLookupVariable(cs, name);
+        if(var) {
+            ret = &vm->staticSpace[var->position & vm->staticAddressMask];
         }
-        NK_CLEAR_FAILURE_RECOVERY();
-        return ret;
     } else {
-        return nkiVmFindGlobalVariable(vm, name);
+        ret = nkiVmFindGlobalVariable(vm, name);
     }
+    NK_CLEAR_FAILURE_RECOVERY();
+    return ret;
 }
 
 struct NKValue *nkxCompilerCreateGlobalVariable(
-- 
2.43.0


From 29c1a15d8063b8930e695990b346ea7d6f229afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:59 +0000
Subject: [PATCH 32/43] fix: stop collecting when a native mark callback runs
 out of memory

---
 src/nkgc.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nkgc.c b/src/nkgc.c
index 735ba86..1891419 100644
--- a/src/nkgc.c
+++ b/src/nkgc.c
@@ -181,6 +181,12 @@ void nkiVmGarbageCollect_markObject(
                 val.objectId = ob->objectTableIndex;
 
                 callback(vm, &val, ob->externalData, gcState);
+
+                // If marking ran out of memory, then we do not know
+                // what is still referenced and must not free anything.
+                if(NK_CHECK_CATASTROPHE()) {
+                    NK_CATASTROPHE();
+                }
             }
         }
     }
@@ -240,6 +246,10 @@ nkuint32_t nkiVmGarbageCollect_markExternallyReferenced(struct NKVM *vm)
                 val.type = NK_VALUETYPE_OBJECTID;
                 val.objectId = ob->objectTableIndex;
                 callback(vm, &val, ob->externalData, &gcState);
+
+                if(NK_CHECK_CATASTROPHE()) {
+                    NK_CATASTROPHE();
+                }
             }
         }
     }
-- 
2.43.0


From a35f66947855c2eeddf053e38d06af02d860975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:20 +0000
Subject: [PATCH 33/43] fix: count a native type only once it has a name

When the allocation of the name failed, looking up a type by name
afterwards read through a null pointer.
---
 src/nkvm.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index 938a803..6dcdf1a 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -496,19 +496,21 @@ NKVMExternalDataTypeID nkiVmRegisterExternalType(
 
     ret.id = vm->externalTypeCount;
 
-    // Note: Increment after reallocation to maintain correct state at
-    // all times, in case of alloc failure.
+    // Note: Increment after all allocations to maintain correct state
+    // at all times, in case of alloc failure. Every type that counts
+    // has a name.
     vm->externalTypes = (struct NKVMExternalType *)nkiReallocArray(
         vm, vm->externalTypes,
         sizeof(*(vm->externalTypes)),
         vm->externalTypeCount + 1);
-    vm->externalTypeCount++;
 
     nkiMemset(
         &vm->externalTypes[ret.id], 0,
         sizeof(vm->externalTypes[ret.id]));
 
     vm->externalTypes[ret.id].name = nkiStrdup(vm, name);
+    vm->externalTypeCount++;
+
     vm->externalTypes[ret.id].serializationCallback =
         serializationCallback;
     vm->externalTypes[ret.id].cleanupCallback =
-- 
2.43.0


From df3571fd1de303340264fb13eaca6cc345c2088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 34/43] fix: keep the functions of interactive input that
 failed while running

Recovering from a run-time error took back the instructions of the
failed input, including those of functions it had already defined.
Calling one of them afterwards ran whatever was compiled over it.
---
 src/nkcompil.c | 7 +++++++
 src/nkcompil.h | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 642c0e3..f445280 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1164,6 +1164,7 @@ void nkiCompilerPartiallyFinalize(
         nkuint32_t oldWriteIndex = cs->instructionWriteIndex;
         nkiCompilerAddInstructionSimple(cs, NK_OP_END, nkfalse);
         cs->instructionWriteIndex = oldWriteIndex;
+        cs->executableInstructionCount = oldWriteIndex;
     }
 }
 
@@ -1705,6 +1706,12 @@ void nkiCompilerClearReplErrorState(
     struct NKCompilerState *cs,
     nkuint32_t instructionPointerReset)
 {
+    // Code that failed while running may have left functions behind
+    // that are still in use. Only take back code that never ran.
+    if(instructionPointerReset < cs->executableInstructionCount) {
+        instructionPointerReset = cs->executableInstructionCount;
+    }
+
     // Reset instruction write index.
     cs->instructionWriteIndex = instructionPointerReset;
     cs->vm->instructions[cs->instructionWriteIndex].opcode = NK_OP_END;
diff --git a/src/nkcompil.h b/src/nkcompil.h
index 36d8e46..69d6be9 100644
--- a/src/nkcompil.h
+++ b/src/nkcompil.h
@@ -99,6 +99,11 @@ struct NKCompilerState
     nkuint32_t recursionCount;
 
     nkuint32_t staticVariableCount;
+
+    // Instructions before this have been handed over for execution.
+    // Functions in them may be referred to by the running program, so
+    // they have to stay where they are.
+    nkuint32_t executableInstructionCount;
 };
 
 extern nkint32_t nkiCompilerStackOffsetTable[NK_OPCODE_PADDEDCOUNT];
-- 
2.43.0


From be192cc397700f7acfe8600ae9bc9cbef01e9d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:11 +0000
Subject: [PATCH 35/43] fix: forget the variables of input that did not compile

In an interactive session, the names that a rejected input declared
could never be declared again, and showed up as global variables.
---
 src/nkcompil.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index f445280..7250dfa 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1202,6 +1202,10 @@ nkbool nkiCompilerCompileScript(
     const char *filename)
 {
     struct NKTokenList tokenList;
+    struct NKCompilerStateContext *startContext = cs->context;
+    struct NKCompilerStateContextVariable *oldVariables =
+        startContext->variables;
+    nkuint32_t oldErrorCount = nkiGetErrorCount(cs->vm);
     nkbool success;
 
     if(!nkiCompilerPushRecursion(cs)) {
@@ -1238,6 +1242,21 @@ nkbool nkiCompilerCompileScript(
     cs->currentFileIndex = NK_INVALID_VALUE;
     nkiCompilerDestroyTokenList(cs->vm, &tokenList);
 
+    // Code that doesn't compile never runs, so forget about the
+    // variables it was going to declare. Otherwise, they could never
+    // be declared again. (New variables are at the front.)
+    if(nkiGetErrorCount(cs->vm) != oldErrorCount &&
+        cs->context == startContext)
+    {
+        while(startContext->variables != oldVariables) {
+            struct NKCompilerStateContextVariable *var =
+                startContext->variables;
+            startContext->variables = var->next;
+            nkiFree(cs->vm, var->name);
+            nkiFree(cs->vm, var);
+        }
+    }
+
     nkiCompilerPopRecursion(cs);
     return success;
 }
-- 
2.43.0


From 7824079ea7142c112463cfc7f33568ae48431a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:22 +0000
Subject: [PATCH 36/43] fix: looking up a global variable that does not exist
 is not an error

nkxVmFindGlobalVariable() just returns NULL after compilation, but
stopped the program with an error while there was a compiler.
---
 src/nkcompil.c | 12 +++++++++++-
 src/nkcompil.h |  8 ++++++++
 src/nkx.c      |  2 +-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 7250dfa..2beebb6 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -523,7 +523,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
     return nktrue;
 }
 
-struct NKCompilerStateContextVariable *nkiCompilerLookupVariable(
+struct NKCompilerStateContextVariable *nkiCompilerFindVariable(
     struct NKCompilerState *cs,
     const char *name)
 {
@@ -545,6 +545,16 @@ struct NKCompilerStateContextVariable *nkiCompilerLookupVariable(
         }
     }
 
+    return var;
+}
+
+struct NKCompilerStateContextVariable *nkiCompilerLookupVariable(
+    struct NKCompilerState *cs,
+    const char *name)
+{
+    struct NKCompilerStateContextVariable *var =
+        nkiCompilerFindVariable(cs, name);
+
     if(!var) {
         struct NKDynString *dynStr =
             nkiDynStrCreate(cs->vm, "Cannot find variable: ");
diff --git a/src/nkcompil.h b/src/nkcompil.h
index 69d6be9..4ef6a03 100644
--- a/src/nkcompil.h
+++ b/src/nkcompil.h
@@ -163,6 +163,14 @@ struct NKValue *nkiCompilerCreateGlobalVariable(
     struct NKCompilerState *cs,
     const char *name);
 
+/// Find a variable that is visible from the current context. Returns
+/// NULL if there is none.
+struct NKCompilerStateContextVariable *nkiCompilerFindVariable(
+    struct NKCompilerState *cs,
+    const char *name);
+
+/// Same as nkiCompilerFindVariable(), but it is an error if there is
+/// no such variable.
 struct NKCompilerStateContextVariable *nkiCompilerLookupVariable(
     struct NKCompilerState *cs,
     const char *name);
diff --git a/src/nkx.c b/src/nkx.c
index 2f2c155..18d1454 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -191,7 +191,7 @@ struct NKValue *nkxVmFindGlobalVariable(
     NK_SET_FAILURE_RECOVERY(NULL);
     if(cs) {
         struct NKCompilerStateContextVariable *var =
-            nkiCompilerLookupVariable(cs, name);
+            nkiCompilerFindVariable(cs, name);
         if(var) {
             ret = &vm->staticSpace[var->position & vm->staticAddressMask];
         }
-- 
2.43.0


From c8b09db4d18b65591bfd71e59d4ed3b07af38359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:16 +0000
Subject: [PATCH 37/43] fix: don't overflow the C stack on very deep
 expressions

Expressions with very many terms are built iteratively, without regard to
the recursion limit, and then deleted, cloned and constant-folded
recursively.
---
 src/nkexpr.c | 51 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index 9c605a1..9c7aa64 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -46,23 +46,33 @@
 // TODO: Make a non-recursive version of this.
 void nkiCompilerDeleteExpressionNode(struct NKVM *vm, struct NKExpressionAstNode *node)
 {
-    if(!node) {
-        return;
+    // Expressions that were too deep to compile can be arbitrarily
+    // deep, so don't recurse into them. Keep a list of what's left to
+    // delete.
+    if(node) {
+        node->stackNext = NULL;
     }
 
-    if(node->ownedToken) {
-        nkiCompilerDeleteToken(vm, node->opOrValue);
-        node->opOrValue = NULL;
-    }
+    while(node) {
 
-    if(node->children[0]) {
-        nkiCompilerDeleteExpressionNode(vm, node->children[0]);
-    }
-    if(node->children[1]) {
-        nkiCompilerDeleteExpressionNode(vm, node->children[1]);
-    }
+        struct NKExpressionAstNode *next = node->stackNext;
+        nkuint32_t i;
+
+        if(node->ownedToken) {
+            nkiCompilerDeleteToken(vm, node->opOrValue);
+            node->opOrValue = NULL;
+        }
 
-    nkiFree(vm, node);
+        for(i = 0; i < 2; i++) {
+            if(node->children[i]) {
+                node->children[i]->stackNext = next;
+                next = node->children[i];
+            }
+        }
+
+        nkiFree(vm, node);
+        node = next;
+    }
 }
 
 nkbool nkiCompilerIsSubexpressionEndingToken(struct NKToken *token)
@@ -1095,8 +1105,13 @@ struct NKExpressionAstNode *nkiCompilerCloneExpressionTree(
 
     newNode->isRootFunctionCallNode = node->isRootFunctionCallNode;
 
-    newNode->children[0] = nkiCompilerCloneExpressionTree(cs, node->children[0]);
-    newNode->children[1] = nkiCompilerCloneExpressionTree(cs, node->children[1]);
+    // If it's too deep, then this is an error, and nothing will be
+    // compiled from this (incomplete) tree.
+    if(nkiCompilerPushRecursion(cs)) {
+        newNode->children[0] = nkiCompilerCloneExpressionTree(cs, node->children[0]);
+        newNode->children[1] = nkiCompilerCloneExpressionTree(cs, node->children[1]);
+        nkiCompilerPopRecursion(cs);
+    }
 
     return newNode;
 }
@@ -1294,7 +1309,11 @@ struct NKExpressionAstNode *nkiCompilerCompileExpressionWithoutEmit(
     if(node) {
         nkiCompilerExpressionExpandIncrementsAndDecrements(
             cs, node, returnValueCanBeDiscarded);
-        nkiCompilerOptimizeConstants(cs->vm, &node);
+
+        // Only if it wasn't too deep.
+        if(!nkiGetErrorCount(cs->vm)) {
+            nkiCompilerOptimizeConstants(cs->vm, &node);
+        }
     }
 
     if(nkiGetErrorCount(cs->vm)) {
-- 
2.43.0


From f48dbd192d0c0d72d8b11362e9268a9907d0d887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:10 +0000
Subject: [PATCH 38/43] fix: don't make a call whose arguments did not fit on
 the stack

When the stack was full, nkiVmCallFunction went on to call whatever was on
top of it.
---
 src/nkfunc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nkfunc.c b/src/nkfunc.c
index 00339f6..4d85f16 100644
--- a/src/nkfunc.c
+++ b/src/nkfunc.c
@@ -94,6 +94,12 @@ void nkiVmCallFunction(
         // Push argument count.
         nkiVmStackPushInt(vm, argumentCount);
 
+        // If the stack was full, then what's on top of it is not the
+        // call we want to make.
+        if(vm->errorState.firstError) {
+            return;
+        }
+
         // Set the instruction pointer to a special return value we
         // use for external calls into the VM. This will push a
         // NK_UINT_MAX-1 pointer onto the stack, which the VM will
-- 
2.43.0


From 983a0dc5617ad710e69ffff0f4e1a9dfe485ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:06 +0000
Subject: [PATCH 39/43] fix: a parenthesised expression has to end with a
 closing parenthesis

---
 src/nkexpr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index 9c7aa64..80612c3 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -336,7 +336,7 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
             }
 
             // Make sure we ended on a closing parenthesis.
-            if(!(*currentToken) || !nkiCompilerIsSubexpressionEndingToken(*currentToken)) {
+            if(nkiCompilerCurrentTokenType(cs) != NK_TOKENTYPE_PAREN_CLOSE) {
                 nkiCompilerAddError(cs, "Bad expression end.");
                 NK_CLEANUP_INLOOP();
                 nkiCompilerPopRecursion(cs);
-- 
2.43.0


From 890d7ef536b434924ae7a327b59ff75555772636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:06 +0000
Subject: [PATCH 40/43] fix: call the result of a parenthesised function-style
 expression

---
 src/nkexpr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index 80612c3..5f1b23d 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -605,6 +605,7 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
 
         if(firstPostfixOp) {
             if(valueNode->opOrValue->type == NK_TOKENTYPE_FUNCTIONSTYLEEXPRESSION &&
+                !valueNode->isRootFunctionCallNode &&
                 firstPostfixOp->opOrValue->type == NK_TOKENTYPE_PAREN_OPEN)
             {
                 assert(!valueNode->children[0]);
-- 
2.43.0


From 6c14ec6f627d0c3cd18f45c17e6b249829f92765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:06 +0000
Subject: [PATCH 41/43] fix: an operator without operands is not an expression

---
 src/nkexpr.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index 5f1b23d..3aae44b 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -382,6 +382,20 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
 
                     valueNode->ownedToken = nktrue;
 
+                } else if(
+                    nkiCompilerCurrentTokenType(cs) == NK_TOKENTYPE_BRACKET_OPEN ||
+                    nkiCompilerGetPrecedence(nkiCompilerCurrentTokenType(cs)) != -1)
+                {
+                    // An operator that's missing its operands.
+                    struct NKDynString *str =
+                        nkiDynStrCreate(cs->vm, "Expected a value: ");
+                    nkiDynStrAppend(str, nkiCompilerCurrentTokenString(cs));
+                    nkiCompilerAddError(cs, str->data);
+                    nkiDynStrDelete(str);
+                    NK_CLEANUP_INLOOP();
+                    nkiCompilerPopRecursion(cs);
+                    return NULL;
+
                 } else {
 
                     // Function-style expression names get routed
-- 
2.43.0


From f472582210bbe5b9d7241b76fb18a38c97235ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:26 +0000
Subject: [PATCH 42/43] fix: skip the cleanup of a function body that is a
 declaration

---
 src/nkcompil.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 2beebb6..8448279 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -911,6 +911,12 @@ nkbool nkiCompilerCompileFunctionDefinition(
     }
     nkiCompilerEmitReturn(cs);
 
+    // Restore the "real" context back to the parent. If the body is
+    // itself a declaration, then this emits code to pop it, which
+    // has to be skipped along with the rest of the function.
+    nkiCompilerPopContext(cs);
+    cs->context = savedContext;
+
     // Go back and fix up our relative jump that skips this
     // function now that we know how long it is.
     if(cs->vm->instructions) {
@@ -918,10 +924,6 @@ nkbool nkiCompilerCompileFunctionDefinition(
             cs->instructionWriteIndex - skipOffset - 2;
     }
 
-    // Restore the "real" context back to the parent.
-    nkiCompilerPopContext(cs);
-    cs->context = savedContext;
-
     nkiCompilerPopRecursion(cs);
 
     if(outputId) {
-- 
2.43.0


From b096878e27567e73b3a9e0b8a5a92a8dbc81a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:24 +0000
Subject: [PATCH 43/43] fix: a directive extends to the end of its line, past
 any carriage return

---
 src/nktoken.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/nktoken.c b/src/nktoken.c
index 408a3bd..c5456a4 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -465,7 +465,7 @@ nkbool nkiCompilerTokenize(
 
             // Figure out how long the line is, and also advance the
             // tokenization system past it.
-            while(str[i] != '\n' && str[i] != '\r' && str[i]) {
+            while(str[i] != '\n' && str[i]) {
                 i++;
             }
 
@@ -537,9 +537,6 @@ nkbool nkiCompilerTokenize(
             // The newline that ends the directive gets skipped below,
             // so account for it here. A #line directive sets the
             // number of the line that comes after it.
-            while(str[i] == '\r') {
-                i++;
-            }
             if(str[i] == '\n') {
                 actualLineNumber++;
                 if(!setsLineNumber) {
-- 
2.43.0

