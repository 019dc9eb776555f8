From dd42017300219c4685d8d07ddc8ecd4af61fa63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:06 +0000
Subject: [PATCH 01/67] fix: handle incoming messages of a sender in arrival
 order

The per-sender queue was popped from its end, so a burst of messages from
one robot was processed newest first: a join followed by a leave left the
receiver with the robot still in the swarm.
---
 src/buzz/buzzinmsg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzinmsg.c b/src/buzz/buzzinmsg.c
index 1185491..69195fe 100644
--- a/src/buzz/buzzinmsg.c
+++ b/src/buzz/buzzinmsg.c
@@ -60,8 +60,8 @@ int buzzinmsg_queue_extract(buzzvm_t vm,
       }
    }
    /* Extract payload from array */
-   *payload = buzzdarray_last(q, buzzmsg_payload_t);
-   buzzdarray_pop(q);
+   *payload = buzzdarray_get(q, 0, buzzmsg_payload_t);
+   buzzdarray_remove(q, 0);
    /* If array is empty, remove (id,array entry) from dict */
    if(buzzdarray_isempty(q))
       buzzdict_remove(vm->inmsgs, rid);
-- 
2.43.0


From b654e129308bdfa4aca572766d534ba8ec0654dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:33 +0000
Subject: [PATCH 02/67] fix: announce the winner of a stigmergy conflict

A queued message about a key suppressed every later message with the same
timestamp, so the entry that won a conflict was never sent while the losing
entry was still queued; neighbours then kept the losing entry for good.
---
 src/buzz/buzzoutmsg.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index e7af5b1..dfb6a13 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -337,9 +337,12 @@ void buzzoutmsg_queue_append_vstig(buzzvm_t vm,
    /* Do we have a more recent duplicate? */
    int etype = -1, eidx = -1; /* No message to remove from the queue */
    if(e) {
-      /* Yes; if the duplicate is newer than the passed message, nothing to do */
-      if((*e)->data->timestamp >= data->timestamp) return;
-      /* The duplicate is older, store data to remove it later */
+      /* Yes; if the duplicate is newer than the passed message, or it
+       * carries the same entry, nothing to do */
+      if(((*e)->data->timestamp > data->timestamp) ||
+         ((*e)->data->timestamp == data->timestamp &&
+          (*e)->data->robot == data->robot)) return;
+      /* The duplicate is older or it lost a conflict, store data to remove it later */
       etype = (*e)->type;
       eidx = buzzdarray_find(vm->outmsgs->queues[etype], buzzoutmsg_vstig_cmp, e);
    }
-- 
2.43.0


From 31ae63cd524511f8991455cb74e4869c4313db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:36 +0000
Subject: [PATCH 03/67] fix: do not free conflict managers owned by the heap

Setting a conflict manager a second time freed the previous closure, which
is still in the heap's object list: the next collection freed it again.
---
 src/buzz/buzzvstig.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 9375e3e..b8236ec 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -359,7 +359,6 @@ int buzzvstig_onconflict(struct buzzvm_s* vm) {
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
       /* Clone the closure */
-      if((*vs)->onconflict) free((*vs)->onconflict);
       (*vs)->onconflict = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
@@ -387,7 +386,6 @@ int buzzvstig_onconflictlost(struct buzzvm_s* vm) {
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
       /* Clone the closure */
-      if((*vs)->onconflictlost) free((*vs)->onconflictlost);
       (*vs)->onconflictlost = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
-- 
2.43.0


From 420a3c37298d0ec6642a64628423187a98b514c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:28 +0000
Subject: [PATCH 04/67] fix: announce the value chosen by a conflict manager

When a conflict manager keeps the author of a queued entry but changes its
value, the queued message must carry the new value: it has the same
timestamp and robot, and was left untouched.
---
 src/buzz/buzzoutmsg.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index dfb6a13..74b9df6 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -337,11 +337,16 @@ void buzzoutmsg_queue_append_vstig(buzzvm_t vm,
    /* Do we have a more recent duplicate? */
    int etype = -1, eidx = -1; /* No message to remove from the queue */
    if(e) {
-      /* Yes; if the duplicate is newer than the passed message, or it
-       * carries the same entry, nothing to do */
-      if(((*e)->data->timestamp > data->timestamp) ||
-         ((*e)->data->timestamp == data->timestamp &&
-          (*e)->data->robot == data->robot)) return;
+      /* Yes; if the duplicate is newer than the passed message, nothing to do */
+      if((*e)->data->timestamp > data->timestamp) return;
+      /* If the duplicate carries the same entry, leave it where it is; a
+       * conflict manager might have changed the value, though */
+      if((*e)->data->timestamp == data->timestamp &&
+         (*e)->data->robot == data->robot) {
+         if(type == BUZZMSG_VSTIG_PUT)
+            (*e)->data->data = buzzheap_clone(vm, data->data);
+         return;
+      }
       /* The duplicate is older or it lost a conflict, store data to remove it later */
       etype = (*e)->type;
       eidx = buzzdarray_find(vm->outmsgs->queues[etype], buzzoutmsg_vstig_cmp, e);
-- 
2.43.0


From 0370a1b05bd19b22e2ef44d3982a66f24c4feb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:35 +0000
Subject: [PATCH 05/67] fix: compare strings by sign and nil by identity

buzzobj_cmp() returned strcmp()'s raw value; when that happened to be 2 it
was taken for the "one operand is nil" marker, and every comparison of the
two strings was true. The marker itself made nil == x and x != nil both
true for any x.
---
 src/buzz/buzztype.c | 16 +++++++++++-----
 src/buzz/buzzvm.c   |  2 +-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 35e57b0..7912fd2 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -133,6 +133,12 @@ int buzzobj_eq(const buzzobj_t a,
 /****************************************/
 /****************************************/
 
+/* Like strcmp(), but always returns -1, 0, or 1 */
+static int buzzobj_strcmp(const char* a, const char* b) {
+   int c = strcmp(a, b);
+   return (c > 0) - (c < 0);
+}
+
 int buzzobj_cmp(const buzzobj_t a,
                 const buzzobj_t b) {
    /* Nil */
@@ -165,29 +171,29 @@ int buzzobj_cmp(const buzzobj_t a,
    }
    /* String and other types */
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_STRING) {
-      return strcmp(a->s.value.str, b->s.value.str);
+      return buzzobj_strcmp(a->s.value.str, b->s.value.str);
    }
 
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_INT) {
       char str[30];
       sprintf(str, "%d", b->i.value);
-      return strcmp(a->s.value.str, str);
+      return buzzobj_strcmp(a->s.value.str, str);
    }
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_FLOAT) {
       char str[30];
       sprintf(str, "%f", b->f.value);
-      return strcmp(a->s.value.str, str);
+      return buzzobj_strcmp(a->s.value.str, str);
    }
 
    if(a->o.type == BUZZTYPE_INT && b->o.type == BUZZTYPE_STRING) {
       char str[30];
       sprintf(str, "%d", a->i.value);
-      return strcmp(str, b->s.value.str);
+      return buzzobj_strcmp(str, b->s.value.str);
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_STRING) {
       char str[30];
       sprintf(str, "%f", a->f.value);
-      return strcmp(str, b->s.value.str);
+      return buzzobj_strcmp(str, b->s.value.str);
    }
    /* Tables */
    if(a->o.type == BUZZTYPE_TABLE || b->o.type == BUZZTYPE_TABLE) {
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index d8b2dff..932363d 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -133,7 +133,7 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
    buzzdarray_pop(vm->stack);                                           \
    buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);                 \
    int cmp = buzzobj_cmp(op2, op1);                                     \
-   res->i.value = (cmp == 2 || cmp oper 0);                             \
+   res->i.value = (cmp oper 0);                                         \
    return buzzvm_push(vm, res);
 
 /****************************************/
-- 
2.43.0


From 9e98a883a11de440ba62ee5817988d5c661bbf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:38 +0000
Subject: [PATCH 06/67] fix: comparing functions must not abort the host

A script comparing two functions, or a function with a number, ended the
whole process. Equal functions now compare equal (as in buzzobj_eq()) and
values of types that have no common order are ordered by type.
---
 src/buzz/buzztype.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 7912fd2..39d4c9b 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -217,9 +217,15 @@ int buzzobj_cmp(const buzzobj_t a,
       if((uintptr_t)(a->u.value) > (uintptr_t)(b->u.value)) return 1;
       return 0;
    }
-   // TODO better error management
-   fprintf(stderr, "[TODO] %s:%d: Error for comparison between Buzz objects of types %d and %d\n", __FILE__, __LINE__, a->o.type, b->o.type);
-   abort();
+   /* Closures */
+   if(a->o.type == BUZZTYPE_CLOSURE && b->o.type == BUZZTYPE_CLOSURE) {
+      if(buzzobj_eq(a, b)) return 0;
+      if(a->c.value.ref != b->c.value.ref)
+         return a->c.value.ref < b->c.value.ref ? -1 : 1;
+      return (uintptr_t)(a->c.value.actrec) < (uintptr_t)(b->c.value.actrec) ? -1 : 1;
+   }
+   /* Types with no common order */
+   return a->o.type < b->o.type ? -1 : 1;
 }
 
 /****************************************/
-- 
2.43.0


From 3a124414273d8ed01829a2182016a91305450831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:41 +0000
Subject: [PATCH 07/67] fix: hash closures used as stigmergy keys

Putting a function key in a virtual stigmergy aborted the whole process.
---
 src/buzz/buzztype.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 39d4c9b..39f94e3 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -98,7 +98,9 @@ uint32_t buzzobj_hash(const buzzobj_t o) {
          uint32_t p = (uintptr_t)(o->u.value);
          return buzzdict_uint32keyhash(&p);
       }
-      case BUZZTYPE_CLOSURE:
+      case BUZZTYPE_CLOSURE: {
+         return buzzdict_int32keyhash(&(o->c.value.ref));
+      }
       default:
          fprintf(stderr, "[BUG] %s:%d: Hash for Buzz object type %d\n", __FILE__, __LINE__, o->o.type);
          abort();
-- 
2.43.0


From 0a1662783d5aceda36312fb56b29642badce601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:44 +0000
Subject: [PATCH 08/67] fix: a string and a number are different table keys

Keys were compared with buzzobj_cmp(), for which "5" equals 5; whether
t["5"] and t[5] were the same entry depended on the string's id modulo the
number of buckets.
---
 src/buzz/buzztype.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 39f94e3..0c12f81 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -32,6 +32,10 @@ uint32_t buzzobj_table_hash(const void* key) {
 }
 
 int buzzobj_table_keycmp(const void* a, const void* b) {
+   int sa = ((*(buzzobj_t*)a)->o.type == BUZZTYPE_STRING);
+   int sb = ((*(buzzobj_t*)b)->o.type == BUZZTYPE_STRING);
+   /* A string never equals a number */
+   if(sa != sb) return sa - sb;
    return buzzobj_cmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
 }
 
-- 
2.43.0


From d8af1dc8125872c826e3b968f3633de8b1109f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:48 +0000
Subject: [PATCH 09/67] fix: report an error on integer division by zero

Dividing (or taking the remainder of) an integer by zero killed the whole
process; so did INT_MIN / -1.
---
 src/buzz/buzzvm.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 932363d..10e53e3 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1447,7 +1447,31 @@ buzzvm_state buzzvm_mul(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+/*
+ * Checks the divisor of an integer division at the stack top.
+ * If both operands are integers and the divisor is zero, it updates the VM
+ * state and exits the current function.
+ */
+#define buzzvm_divisor_assert(vm)                                       \
+   buzzvm_stack_assert((vm), 2);                                        \
+   if(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_INT &&                 \
+      buzzvm_stack_at(vm, 2)->o.type == BUZZTYPE_INT &&                 \
+      buzzvm_stack_at(vm, 1)->i.value == 0) {                           \
+      buzzvm_seterror((vm), BUZZVM_ERROR_TYPE, "integer division by zero"); \
+      return (vm)->state;                                               \
+   }
+
 buzzvm_state buzzvm_div(buzzvm_t vm) {
+   buzzvm_divisor_assert(vm);
+   /* x / -1 is -x; the division would trap for the smallest integer */
+   if(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_INT &&
+      buzzvm_stack_at(vm, 2)->o.type == BUZZTYPE_INT &&
+      buzzvm_stack_at(vm, 1)->i.value == -1) {
+      int32_t res = -(uint32_t)buzzvm_stack_at(vm, 2)->i.value;
+      buzzvm_pop(vm);
+      buzzvm_pop(vm);
+      return buzzvm_pushi(vm, res);
+   }
    buzzvm_binary_op_arith(vm, /);
 }
 
@@ -1455,7 +1479,7 @@ buzzvm_state buzzvm_div(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_mod(buzzvm_t vm) {
-   buzzvm_stack_assert((vm), 2);
+   buzzvm_divisor_assert(vm);
    buzzobj_t op1 = buzzvm_stack_at(vm, 1);
    buzzobj_t op2 = buzzvm_stack_at(vm, 2);
    buzzdarray_pop(vm->stack);
@@ -1463,7 +1487,7 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
    if(op1->o.type == BUZZTYPE_INT &&
       op2->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);
-      res->i.value = op2->i.value % op1->i.value;
+      res->i.value = (op1->i.value == -1) ? 0 : op2->i.value % op1->i.value;
       if(res->i.value < 0) res->i.value += op1->i.value;
       return buzzvm_push(vm, res);
    }
-- 
2.43.0


From c25455a4fde1baf1b6c840b89e14cda2dc31bc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:51 +0000
Subject: [PATCH 10/67] fix: remainder of a negative number by a number of the
 other type

The result was corrected with the divisor read as the wrong type.
---
 src/buzz/buzzvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 10e53e3..8607dbc 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1502,14 +1502,14 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
            op2->o.type == BUZZTYPE_FLOAT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->f.value, op1->i.value);
-      if(res->f.value < 0.) res->f.value += op1->f.value;
+      if(res->f.value < 0.) res->f.value += op1->i.value;
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_FLOAT &&
            op2->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->i.value, op1->f.value);
-      if(res->f.value < 0.) res->f.value += op1->i.value;
+      if(res->f.value < 0.) res->f.value += op1->f.value;
       return buzzvm_push(vm, res);
    }
    else {
-- 
2.43.0


From 24247821b2108f52c8868226d360304587c88153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:55 +0000
Subject: [PATCH 11/67] fix: arithmetic on wrong types must set an error
 message

The error state was set without a message, and printing the error passed a
NULL (or stale) string to printf().
---
 src/buzz/buzzvm.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 8607dbc..2f028f2 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -40,8 +40,7 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
        op1->o.type != BUZZTYPE_FLOAT) ||                                \
       (op2->o.type != BUZZTYPE_INT &&                                   \
        op2->o.type != BUZZTYPE_FLOAT))  {                               \
-      (vm)->state = BUZZVM_STATE_ERROR;                                 \
-      (vm)->error = BUZZVM_ERROR_TYPE;                                  \
+      buzzvm_seterror((vm), BUZZVM_ERROR_TYPE, NULL);                   \
       return (vm)->state;                                               \
    }                                                                    \
    buzzdarray_pop(vm->stack);                                           \
@@ -1513,8 +1512,7 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, NULL);
       return (vm)->state;
    }
 }
@@ -1553,8 +1551,7 @@ buzzvm_state buzzvm_pow(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, NULL);
       return (vm)->state;
    }
 }
@@ -1577,8 +1574,7 @@ buzzvm_state buzzvm_unm(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, NULL);
       return (vm)->state;
    }
 }
-- 
2.43.0


From 8d22eaaee0fb98c025abebb7c5383ee1c2a5069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:58 +0000
Subject: [PATCH 12/67] fix: name the type of an invalid key when reading a
 table

The message formatted the type number with %s.
---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 2f028f2..fb02dea 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1321,7 +1321,7 @@ buzzvm_state buzzvm_tget(buzzvm_t vm) {
    if(k->o.type != BUZZTYPE_INT &&
       k->o.type != BUZZTYPE_FLOAT &&
       k->o.type != BUZZTYPE_STRING) {
-      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", k->o.type);
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", buzztype_desc[k->o.type]);
       return vm->state;
    }
    const buzzobj_t* v = buzzdict_get(t->t.value, &k, buzzobj_t);
-- 
2.43.0


From 8917c4d80e5336ec0000a844727b04cb8dbd17be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:02 +0000
Subject: [PATCH 13/67] fix: do not run an extra instruction after calling a C
 closure

When the called closure is a C function, the call is already over when
buzzvm_call() returns; stepping once more executed the caller's next
instruction inside the caller's pending operation.
---
 src/buzz/buzzswarm.c | 6 +++---
 src/buzz/buzzvm.c    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 996ddd9..923c8fb 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -506,9 +506,9 @@ int buzzswarm_exec(buzzvm_t vm) {
       buzzvm_push(vm, c);
       int32_t numargs = 0;
       buzzvm_pushi(vm, numargs);
-      buzzvm_calls(vm);
-      do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-      while(stacks < buzzdarray_size(vm->stacks));
+      if(buzzvm_calls(vm) != BUZZVM_STATE_READY) return vm->state;
+      while(stacks < buzzdarray_size(vm->stacks))
+         if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
       return vm->state;
    }
    else {
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index fb02dea..31ca0f6 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1015,9 +1015,9 @@ buzzvm_state buzzvm_closure_call(buzzvm_t vm,
    uint32_t stacks = buzzdarray_size(vm->stacks);
    /* Call the closure and keep stepping until
     * the stack count is back to the saved value */
-   buzzvm_callc(vm);
-   do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-   while(stacks < buzzdarray_size(vm->stacks));
+   if(buzzvm_callc(vm) != BUZZVM_STATE_READY) return vm->state;
+   while(stacks < buzzdarray_size(vm->stacks))
+      if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
    return vm->state;
 }
 
-- 
2.43.0


From 980cca6067378f9bef6c972dd851b9aed3489920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:37 +0000
Subject: [PATCH 14/67] fix: a string and a number are different stigmergy keys

As for tables: "5" and 5 compare equal with buzzobj_cmp(), so that two keys
could end up sharing an entry when they fell in the same bucket.
---
 src/buzz/buzzoutmsg.c | 2 +-
 src/buzz/buzztype.h   | 9 +++++++++
 src/buzz/buzzvstig.c  | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index 74b9df6..738214d 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -57,7 +57,7 @@ uint32_t buzzoutmsg_obj_hash(const void* key) {
 }
 
 int buzzoutmsg_obj_cmp(const void* a, const void* b) {
-   return buzzobj_cmp(*(const buzzobj_t*)a, *(const buzzobj_t*)b);
+   return buzzobj_table_keycmp(a, b);
 }
 
 void buzzoutmsg_destroy(uint32_t pos, void* data, void* params) {
diff --git a/src/buzz/buzztype.h b/src/buzz/buzztype.h
index 92fe8c4..f55f6cb 100644
--- a/src/buzz/buzztype.h
+++ b/src/buzz/buzztype.h
@@ -147,6 +147,15 @@ extern "C" {
    extern int buzzobj_eq(const buzzobj_t a,
                          const buzzobj_t b);
 
+   /*
+    * Compares two keys (pointers to Buzz objects) of a table or virtual stigmergy.
+    * Unlike buzzobj_cmp(), a string never equals a number.
+    * @param a The first key.
+    * @param b The second key.
+    * @return 0 if a == b, nonzero otherwise.
+    */
+   extern int buzzobj_table_keycmp(const void* a, const void* b);
+
    /*
     * Compares two Buzz objects.
     * Returns:
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index b8236ec..da026e4 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -50,7 +50,7 @@ uint32_t buzzvstig_key_hash(const void* key) {
 }
 
 int buzzvstig_key_cmp(const void* a, const void* b) {
-   return buzzobj_cmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
+   return buzzobj_table_keycmp(a, b);
 }
 
 /****************************************/
-- 
2.43.0


From f56ca83d9726d5ca33445f6b78e2a4d53e41088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:40 +0000
Subject: [PATCH 15/67] fix: pass the closure to a host call with arguments

buzzdarray_insert() takes the address of the element: the closure's own
contents were inserted in the stack in place of a pointer to it.
---
 src/buzz/buzzvm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 31ca0f6..e61dab0 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1056,10 +1056,11 @@ buzzvm_state buzzvm_function_call(buzzvm_t vm,
    }
    /* Move closure before arguments */
    if(argc > 0) {
-      buzzdarray_insert(vm->stack,
-                        buzzdarray_size(vm->stack) - argc - 1,
-                        buzzvm_stack_at(vm, 1));
+      buzzobj_t c = buzzvm_stack_at(vm, 1);
       buzzvm_pop(vm);
+      buzzdarray_insert(vm->stack,
+                        buzzdarray_size(vm->stack) - argc,
+                        &c);
    }
    /* Call the closure */
    return buzzvm_closure_call(vm, argc);
-- 
2.43.0


From c989a52d258ab7c146068523657f864cfc809240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:43 +0000
Subject: [PATCH 16/67] fix: check the argument count and the target of a call

A negative or huge argument count, and a negative C function id, read
outside the stack and the function list.
---
 src/buzz/buzzvm.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index e61dab0..f06e7fe 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1096,13 +1096,20 @@ buzzvm_state buzzvm_call(buzzvm_t vm, int isswrm) {
    int32_t argn = buzzvm_stack_at(vm, 1)->i.value;
    buzzvm_pop(vm);
    /* Make sure the stack has enough elements */
-   buzzvm_stack_assert(vm, argn+1);
+   if(argn < 0 || argn >= buzzvm_stack_top(vm)) {
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_STACK,
+                      "wrong number of arguments %d",
+                      argn);
+      return vm->state;
+   }
    /* Make sure the closure is where expected */
    buzzvm_type_assert(vm, argn+1, BUZZTYPE_CLOSURE);
    buzzobj_t c = buzzvm_stack_at(vm, argn+1);
    /* Make sure that that data about C closures is correct */
    if((!c->c.value.isnative) &&
-      ((c->c.value.ref) >= buzzdarray_size(vm->flist))) {
+      ((c->c.value.ref) < 0 ||
+       (c->c.value.ref) >= buzzdarray_size(vm->flist))) {
       buzzvm_seterror(vm, BUZZVM_ERROR_FLIST, NULL);
       return vm->state;
    }
-- 
2.43.0


From d7efa1f1cd269a623b8f2de6b1a103a4f185da54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:46 +0000
Subject: [PATCH 17/67] fix: calling a function with too few arguments must not
 crash

Storing a local variable past the end of the local symbols left the symbols
in between uninitialized. As when such a symbol is read, report an error.
---
 src/buzz/buzzvm.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index f06e7fe..1f079ab 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1720,6 +1720,14 @@ buzzvm_state buzzvm_lload(buzzvm_t vm, uint32_t idx) {
 
 buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
    buzzvm_stack_assert((vm), 1);
+   /* Make sure there are sufficient local symbols in the stack */
+   if(buzzdarray_size(vm->lsyms->syms) < idx) {
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_LNUM,
+                      "not enough local symbols in stack (maybe you called a function with an insufficient number of parameters?)"
+         );
+      return vm->state;
+   }
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    buzzvm_pop(vm);
    buzzdarray_set((vm)->lsyms->syms, idx, &o);
-- 
2.43.0


From bbecfd46904ae839661966de94b7d74db0833f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:49 +0000
Subject: [PATCH 18/67] fix: stop when there are too few local symbols to
 remove

The error was set, but the symbols were removed anyway.
---
 src/buzz/buzzvm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 1f079ab..20f9ab9 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1735,11 +1735,13 @@ buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
 }
 
 buzzvm_state buzzvm_lremove(buzzvm_t vm, uint32_t num) {
-   if(buzzvm_lnum(vm) < num)
+   if(buzzvm_lnum(vm) < num) {
       buzzvm_seterror(vm,
                       BUZZVM_ERROR_LNUM,
                       "not enough local symbols in stack"
          );
+      return vm->state;
+   }
   for( uint32_t i =0 ; i < num ; i++ )
     buzzdarray_pop((vm)->lsyms->syms);
    return vm->state;
-- 
2.43.0


From 45103e3d900bf1ba9160089e83b983a18186a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:46 +0000
Subject: [PATCH 19/67] fix: give the top level of a script its own local
 symbols

A variable declared in a block at the top level ('if(c) { var x = 1 }') is
compiled as a local symbol, but outside functions there was no local symbol
table: the script crashed the host.
---
 src/buzz/buzzvm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 20f9ab9..83901a2 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -536,6 +536,11 @@ buzzvm_t buzzvm_new(uint16_t robot) {
    vm->strings = buzzstrman_new();
    /* Create heap */
    vm->heap = buzzheap_new();
+   /* Create the local variable table of the top level (self is nil) */
+   vm->lsyms = buzzvm_lsyms_new(0, buzzdarray_new(1, sizeof(buzzobj_t), NULL));
+   buzzobj_t self = buzzheap_newobj(vm, BUZZTYPE_NIL);
+   buzzdarray_push(vm->lsyms->syms, &self);
+   buzzdarray_push(vm->lsymts, &(vm->lsyms));
    /* Create function list */
    vm->flist = buzzdarray_new(20, sizeof(buzzvm_funp), NULL);
    /* Create swarm list */
-- 
2.43.0


From e878fa8728677e8f46b24dcff790f8725b562a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:50 +0000
Subject: [PATCH 20/67] fix: report an error when returning outside of a
 function

A 'return' at the top level of a script crashed the host.
---
 src/buzz/buzzvm.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 83901a2..53e2f4a 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1375,6 +1375,11 @@ buzzvm_state buzzvm_gstore(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret0(buzzvm_t vm) {
+   /* Make sure there is a call to return from */
+   if(buzzdarray_size(vm->stacks) < 2) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
+      return vm->state;
+   }
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
@@ -1405,6 +1410,11 @@ buzzvm_state buzzvm_ret0(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret1(buzzvm_t vm) {
+   /* Make sure there is a call to return from */
+   if(buzzdarray_size(vm->stacks) < 2) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
+      return vm->state;
+   }
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
-- 
2.43.0


From 186775be184f7fd6f186aa5b931905aebbc05759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:53 +0000
Subject: [PATCH 21/67] fix: report run-time errors at the instruction that
 caused them

pop, tput and tget failed before the position of the current instruction was
saved, so the error was reported at the previously executed instruction.
---
 src/buzz/buzzvm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 53e2f4a..45365be 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -746,8 +746,8 @@ buzzvm_state buzzvm_step(buzzvm_t vm) {
          break;
       }
       case BUZZVM_INSTR_POP: {
-         if(buzzvm_pop(vm) != BUZZVM_STATE_READY) return vm->state;
          inc_pc();
+         if(buzzvm_pop(vm) != BUZZVM_STATE_READY) return vm->state;
          break;
       }
       case BUZZVM_INSTR_RET0: {
@@ -881,13 +881,13 @@ buzzvm_state buzzvm_step(buzzvm_t vm) {
          break;
       }
       case BUZZVM_INSTR_TPUT: {
-         if(buzzvm_tput(vm) != BUZZVM_STATE_READY) return vm->state;
          inc_pc();
+         if(buzzvm_tput(vm) != BUZZVM_STATE_READY) return vm->state;
          break;
       }
       case BUZZVM_INSTR_TGET: {
-         if(buzzvm_tget(vm) != BUZZVM_STATE_READY) return vm->state;
          inc_pc();
+         if(buzzvm_tget(vm) != BUZZVM_STATE_READY) return vm->state;
          break;
       }
       case BUZZVM_INSTR_CALLC: {
-- 
2.43.0


From 08e7fdbf353d80d98be74c4ef1d83d08cb28398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:56 +0000
Subject: [PATCH 22/67] fix: debugger calls pass objects by address and do not
 overrun C closures

As in buzzvm_closure_call() and buzzvm_function_call().
---
 src/buzz/buzzdebug.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 763d78a..f5317c3 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -308,21 +308,21 @@ buzzvm_state buzzdebug_closure_call(buzzvm_t vm,
       else return vm->state;
    }
    /* Insert the self table */
-   buzzdarray_insert(vm->stack, buzzdarray_size(vm->stack) - argc - 1, buzzobj_new(BUZZTYPE_NIL));
+   buzzobj_t o = buzzheap_newobj(vm, BUZZTYPE_NIL);
+   buzzdarray_insert(vm->stack, buzzdarray_size(vm->stack) - argc - 1, &o);
    /* Push the argument count */
    buzzvm_pushi(vm, argc);
    /* Save the current stack depth */
    uint32_t stacks = buzzdarray_size(vm->stacks);
    /* Call the closure and keep stepping until
     * the stack count is back to the saved value */
-   buzzvm_callc(vm);
-   do {
+   if(buzzvm_callc(vm) != BUZZVM_STATE_READY) return vm->state;
+   while(stacks < buzzdarray_size(vm->stacks)) {
       if(buzzdebug_breakpoint_exists(dbg, vm->pc))
          vm->state = BUZZVM_STATE_STOPPED;
       if(buzzvm_step(vm) != BUZZVM_STATE_READY)
          return vm->state;
    }
-   while(stacks < buzzdarray_size(vm->stacks));
    return vm->state;
 }
 
@@ -348,10 +348,11 @@ buzzvm_state buzzdebug_function_call(buzzvm_t vm,
    buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
    /* Move closure before arguments */
    if(argc > 0) {
-      buzzdarray_insert(vm->stack,
-                        buzzdarray_size(vm->stack) - argc - 1,
-                        buzzvm_stack_at(vm, 1));
+      buzzobj_t c = buzzvm_stack_at(vm, 1);
       buzzvm_pop(vm);
+      buzzdarray_insert(vm->stack,
+                        buzzdarray_size(vm->stack) - argc,
+                        &c);
    }
    /* Call the closure */
    return buzzdebug_closure_call(vm, argc, dbg);
-- 
2.43.0


From 943c0de9a4b120cc36c416262c45055cd5627931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:59 +0000
Subject: [PATCH 23/67] fix: avoid registering a C function twice

The search compared the stored pointers with the function's code.
---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 45365be..542a8d8 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1083,7 +1083,7 @@ int buzzvm_function_cmp(const void* a, const void* b) {
 uint32_t buzzvm_function_register(buzzvm_t vm,
                                   buzzvm_funp funp) {
    /* Look for function pointer to avoid duplicates */
-   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, funp);
+   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, &funp);
    if(fpos == buzzdarray_size(vm->flist)) {
       /* Add function to the list */
       buzzdarray_push(vm->flist, &funp);
-- 
2.43.0


From 538a14c88a8176205795f77fbe024c227f4319ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:03 +0000
Subject: [PATCH 24/67] fix: swarm.id() honours its argument

The argument was only read when there were two, and zero (or a negative
number) read outside the swarm stack.
---
 src/buzz/buzzswarm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 923c8fb..ac667c4 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -315,14 +315,16 @@ int buzzswarm_id(struct buzzvm_s* vm) {
    }
    else {
       /* Take the stack top by default */
-      uint16_t stackpos = 1;
+      int32_t stackpos = 1;
       /* Do we have an argument? */
-      if(buzzvm_lnum(vm) > 1) {
+      if(buzzvm_lnum(vm) > 0) {
          buzzvm_lload(vm, 1);
          buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
          stackpos = buzzvm_stack_at(vm, 1)->i.value;
       }
       /* Limit stackpos value to avoid out-of-bounds operations */
+      if(stackpos < 1)
+         stackpos = 1;
       if(stackpos > buzzdarray_size(vm->swarmstack))
          stackpos = buzzdarray_size(vm->swarmstack);
       /* Push the swarm id located at stackpos */
-- 
2.43.0


From 31cdabbc1f6d8cd714e5f01e802e50fc4213484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:06 +0000
Subject: [PATCH 25/67] fix: swarm.select() must not truncate its condition

The condition was stored as a byte: 256 meant 'leave', and in() returned
the condition instead of 0 or 1.
---
 src/buzz/buzzswarm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index ac667c4..6b59fdf 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -456,7 +456,7 @@ int buzzswarm_select(buzzvm_t vm) {
    /* Get the result of the condition check */
    buzzvm_lload(vm, 1);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
-   uint8_t in = buzzvm_stack_at(vm, 1)->i.value;
+   uint8_t in = (buzzvm_stack_at(vm, 1)->i.value != 0);
    /* Update the swarm, if known */
    if(buzzdict_exists(vm->swarms, &id)) {
       /* Store membership */
-- 
2.43.0


From a8da9f92891fc908db8aca870f2ad1652ece15ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:51 +0000
Subject: [PATCH 26/67] fix: ignore malformed broadcast and empty messages

---
 src/buzz/buzzvm.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 542a8d8..6e08c24 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -245,12 +245,21 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
       uint16_t rid;
       buzzmsg_payload_t msg;
       buzzinmsg_queue_extract(vm, &rid, &msg);
+      /* Ignore empty messages */
+      if(buzzmsg_payload_size(msg) == 0) {
+         buzzmsg_payload_destroy(&msg);
+         continue;
+      }
       /* Dispatch the message wrt its type in msg->payload[0] */
       switch(buzzmsg_payload_get(msg, 0)) {
          case BUZZMSG_BROADCAST: {
             /* Deserialize the topic */
             buzzobj_t topic;
             int64_t pos = buzzobj_deserialize(&topic, msg, 1, vm);
+            if(pos < 0 || topic->o.type != BUZZTYPE_STRING) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make sure there's a listener to call */
             const buzzobj_t* l = buzzdict_get(vm->listeners, &topic->s.value.sid, buzzobj_t);
             if(!l) {
@@ -260,6 +269,10 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             /* Deserialize value */
             buzzobj_t value;
             pos = buzzobj_deserialize(&value, msg, pos, vm);
+            if(pos < 0) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make an object for the robot id */
             buzzobj_t rido = buzzheap_newobj(vm, BUZZTYPE_INT);
             rido->i.value = rid;
-- 
2.43.0


From eb7b6161de0197f5ca64d0a72996d4c6478c3458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:54 +0000
Subject: [PATCH 27/67] fix: an error in a listener must not be overwritten

---
 src/buzz/buzzvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 6e08c24..1f6b633 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -281,8 +281,8 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             buzzvm_push(vm, topic);
             buzzvm_push(vm, value);
             buzzvm_push(vm, rido);
-            buzzvm_closure_call(vm, 3);
-            buzzvm_pop(vm);
+            if(buzzvm_closure_call(vm, 3) == BUZZVM_STATE_READY)
+               buzzvm_pop(vm);
             break;
          }
          case BUZZMSG_VSTIG_PUT: {
-- 
2.43.0


From 9d778b0062ea7df1d3723ef86de1017f2660e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:58 +0000
Subject: [PATCH 28/67] fix: apply a swarm list message only when complete,
 also when empty

---
 src/buzz/buzzvm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 1f6b633..5e9d4ed 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -450,9 +450,8 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_SWARM_LIST message received\n", vm->robot);
                break;
             }
-            if(nsids < 1) break;
             /* Deserialize swarm ids */
-            buzzdarray_t sids = buzzdarray_new(nsids, sizeof(uint16_t), NULL);
+            buzzdarray_t sids = buzzdarray_new(nsids > 0 ? nsids : 1, sizeof(uint16_t), NULL);
             uint16_t i;
             for(i = 0; i < nsids; ++i) {
                pos = buzzmsg_deserialize_u16(buzzdarray_makeslot(sids, i), msg, pos);
@@ -461,6 +460,10 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   break;
                }
             }
+            if(pos < 0) {
+               buzzdarray_destroy(&sids);
+               break;
+            }
             /* Update the information */
             buzzswarm_members_refresh(vm->swarmmembers, rid, sids);
             break;
-- 
2.43.0


From e0b7b7f0723249ec7fd072c2221bf242be68a63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:02 +0000
Subject: [PATCH 29/67] fix: reject received objects of unknown type or with
 invalid table keys

---
 src/buzz/buzztype.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 0c12f81..c754a1d 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -597,6 +597,10 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
    uint8_t type;
    p = buzzmsg_deserialize_u8(&type, buf, p);
    if(p < 0) return -1;
+   if(type > BUZZTYPE_CLOSURE) {
+      fprintf(stderr, "[WARNING] [ROBOT %u] Can't deserialize an object of type %u\n", vm->robot, type);
+      return -1;
+   }
    *data = buzzheap_newobj(vm, type);
    switch(type) {
       case BUZZTYPE_NIL: {
@@ -627,6 +631,10 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
             buzzobj_t v;
             p = buzzobj_deserialize(&k, buf, p, vm);
             if(p < 0) return -1;
+            /* Only numbers and strings can be keys */
+            if(k->o.type != BUZZTYPE_INT &&
+               k->o.type != BUZZTYPE_FLOAT &&
+               k->o.type != BUZZTYPE_STRING) return -1;
             p = buzzobj_deserialize(&v, buf, p, vm);
             if(p < 0) return -1;
             buzzdict_set((*data)->t.value, &k, &v);
-- 
2.43.0


From f38c40ea7d38d70d5db4e08bc6142b3be899d385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 30/67] fix: handle errors in conflict managers and leave the
 stack balanced

---
 src/buzz/buzzvstig.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index da026e4..ad1d756 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -423,19 +423,22 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       add_field(data, rv, push);
       add_field(timestamp, rv, pushi);
       /* Call closure (key, lv, rv on the stack) */
-      buzzvm_closure_call(vm, 3);
+      if(buzzvm_closure_call(vm, 3) != BUZZVM_STATE_READY) return NULL;
       /* Make new entry with return value */
       /* Make sure it's a table */
       if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_TABLE) {
          fprintf(stderr, "[WARNING] [ROBOT %u] virtual stigmergy onconflict(): Return value type is %s, expected table\n", vm->robot, buzztype_desc[buzzvm_stack_at(vm, 1)->o.type]);
+         buzzvm_pop(vm);
          return NULL;
       }
       /* Get the robot id */
       buzzobj_t ret = buzzvm_stack_at(vm, 1);
       buzzvm_pushs(vm, buzzvm_string_register(vm, "robot", 1));
       buzzvm_tget(vm);
-      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT)
+      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT) {
+         buzzvm_pop(vm);
          return NULL;
+      }
       uint16_t robot = buzzvm_stack_at(vm, 1)->i.value;
       buzzvm_pop(vm);
       /* Get the data */
@@ -487,7 +490,9 @@ void buzzvstig_onconflictlost_call(buzzvm_t vm,
       add_field(data, lv, push);
       add_field(timestamp, lv, pushi);
       /* Call closure (key and table are on the stack) */
-      buzzvm_closure_call(vm, 2);
+      if(buzzvm_closure_call(vm, 2) == BUZZVM_STATE_READY)
+         /* Get rid of the return value */
+         buzzvm_pop(vm);
    }
 }
 
-- 
2.43.0


From b38cd696818661187f17283c5114c550fe699973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:44 +0000
Subject: [PATCH 31/67] fix: conflict managers can collect garbage and delete
 the entry they arbitrate

---
 src/buzz/buzzvm.c    | 44 +++++++++++++++++++++++++++++++++++++++-----
 src/buzz/buzzvstig.c |  4 +++-
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 5e9d4ed..b701f06 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -320,14 +320,27 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                     ((*l)->robot != v->robot)) {         /* Different robot */
                /* Conflict! */
                /* Call conflict manager */
+               /* Protect the key from garbage collection */
+               buzzvm_push(vm, k);
                buzzvstig_elem_t c =
                   buzzvstig_onconflict_call(vm, *vs, k, *l, v);
+               /* Get rid of useless vstig element */
+               free(v);
                if(!c) {
                   fprintf(stderr, "[WARNING] [ROBOT %u] Error resolving PUT conflict\n", vm->robot);
+                  if(vm->state == BUZZVM_STATE_READY) buzzvm_pop(vm);
                   break;
                }
-               /* Get rid of useless vstig element */
-               free(v);
+               /* The manager might have deleted the local entry */
+               vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
+               l = vs ? buzzvstig_fetch(*vs, &k) : NULL;
+               if(!l) {
+                  free(c);
+                  buzzvm_pop(vm);
+                  break;
+               }
+               /* ...or updated it */
+               c->timestamp = (*l)->timestamp;
                /* Did this robot lose the conflict? */
                if((c->robot != vm->robot) &&
                   ((*l)->robot == vm->robot)) {
@@ -336,15 +349,18 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, *l);
                   /* Store winning value */
                   buzzvstig_store(*vs, &k, &c);
+                  buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
                   /* Call conflict lost manager */
                   buzzvstig_onconflictlost_call(vm, *vs, k, ol);
+                  free(ol);
                }
                else {
                   /* This robot did not lose the conflict */
                   /* Just propagate the PUT message */
                   buzzvstig_store(*vs, &k, &c);
+                  buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
                }
-               buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
+               if(vm->state == BUZZVM_STATE_READY) buzzvm_pop(vm);
             }
             else {
                /* Remote element is older, ignore it */
@@ -412,11 +428,26 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                     ((*l)->robot != v->robot)) {         /* Different robot */
                /* Conflict! */
                /* Call conflict manager */
+               /* Protect the key from garbage collection */
+               buzzvm_push(vm, k);
                buzzvstig_elem_t c =
                   buzzvstig_onconflict_call(vm, *vs, k, *l, v);
                free(v);
                /* Make sure conflict manager returned with an element to process */
-               if(!c) break;
+               if(!c) {
+                  if(vm->state == BUZZVM_STATE_READY) buzzvm_pop(vm);
+                  break;
+               }
+               /* The manager might have deleted the local entry */
+               vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
+               l = vs ? buzzvstig_fetch(*vs, &k) : NULL;
+               if(!l) {
+                  free(c);
+                  buzzvm_pop(vm);
+                  break;
+               }
+               /* ...or updated it */
+               c->timestamp = (*l)->timestamp;
                /* Did this robot lose the conflict? */
                if((c->robot != vm->robot) &&
                   ((*l)->robot == vm->robot)) {
@@ -425,15 +456,18 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, *l);
                   /* Store winning value */
                   buzzvstig_store(*vs, &k, &c);
+                  buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
                   /* Call conflict lost manager */
                   buzzvstig_onconflictlost_call(vm, *vs, k, ol);
+                  free(ol);
                }
                else {
                   /* This robot did not lose the conflict */
                   /* Just propagate the PUT message */
                   buzzvstig_store(*vs, &k, &c);
+                  buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
                }
-               buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
+               if(vm->state == BUZZVM_STATE_READY) buzzvm_pop(vm);
             }
             else {
                /* Remote element is same as local, ignore it */
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index ad1d756..cce0609 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -417,6 +417,8 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       add_field(robot, lv, pushi);
       add_field(data, lv, push);
       add_field(timestamp, lv, pushi);
+      /* Remember the timestamp, the closure might delete the local entry */
+      uint16_t timestamp = lv->timestamp;
       /* Make table for remote value */
       buzzvm_pusht(vm);
       add_field(robot, rv, pushi);
@@ -448,7 +450,7 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       buzzobj_t data = buzzvm_stack_at(vm, 1);
       buzzvm_pop(vm);
       /* Make new entry */
-      return buzzvstig_elem_new(data, lv->timestamp, robot);
+      return buzzvstig_elem_new(data, timestamp, robot);
    }
    else {
       /* No conflict manager, use default behavior */
-- 
2.43.0


From 4cf5bfd44323b0b39ba792eafdf6d33e5094b22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:30 +0000
Subject: [PATCH 32/67] fix: announce leaving a swarm through a set operation

---
 src/buzz/buzzswarm.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 6b59fdf..01e6b0a 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -362,11 +362,16 @@ int buzzswarm_others(buzzvm_t vm) {
    uint16_t id2 = buzzvm_stack_at(vm, 1)->i.value;
    /* Add a new entry for the swarm */
    uint8_t v = *x ? 0 : 1;
+   x = buzzdict_get(vm->swarms, &id2, uint8_t);
+   uint8_t wasin = x && *x;
    buzzdict_set(vm->swarms, &id2, &v);
    /* Send update, if necessary */
    if(v)
       buzzoutmsg_queue_append_swarm_joinleave(
          vm, BUZZMSG_SWARM_JOIN, id2);
+   else if(wasin)
+      buzzoutmsg_queue_append_swarm_joinleave(
+         vm, BUZZMSG_SWARM_LEAVE, id2);
    /* Create a table to return */
    make_table(vm, id2);
    /* Return */
@@ -571,6 +576,9 @@ static int buzzswarm_check(struct buzzvm_s* vm) {
    if(s2 < 0) return vm->state;                                   \
    /* Membership condition */                                     \
    uint8_t v = COND;                                              \
+   /* Was this robot part of a swarm with that id? */             \
+   const uint8_t* x = buzzdict_get(vm->swarms, &id, uint8_t);     \
+   uint8_t wasin = x && *x;                                       \
    /* Add a new entry to the swarm list */                        \
    buzzdict_set(vm->swarms, &id, &v);                             \
    /* Create a table */                                           \
@@ -579,6 +587,9 @@ static int buzzswarm_check(struct buzzvm_s* vm) {
    if(v)                                                          \
       buzzoutmsg_queue_append_swarm_joinleave(                    \
          vm, BUZZMSG_SWARM_JOIN, id);                             \
+   else if(wasin)                                                 \
+      buzzoutmsg_queue_append_swarm_joinleave(                    \
+         vm, BUZZMSG_SWARM_LEAVE, id);                            \
    /* Return swarm */                                             \
    return buzzvm_ret1(vm);
 
-- 
2.43.0


From e40a4c33d0bb62f1bd169c1d71cdf164f6207875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:51 +0000
Subject: [PATCH 33/67] fix: number the local variables of blocks at the top
 level after self

---
 src/buzz/buzzparser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 0c62721..eafb031 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -510,6 +510,8 @@ int parse_block(buzzparser_t par, int pushsymt) {
          if(buzzdarray_size(par->symstack) == 1) {
             /* Add new symtable */
             symt_push();
+            /* Add "self" symbol */
+            sym_add(par, "self", SCOPE_LOCAL);
          }
          else {
             symt_clone();
-- 
2.43.0


From 90228553c76dde1e2d6c1350a53b212708fa804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:37 +0000
Subject: [PATCH 34/67] fix: a lambda parameter hides a local variable with the
 same name

---
 src/buzz/buzzparser.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index eafb031..bd032f9 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -137,6 +137,21 @@ void sym_add(buzzparser_t par, const char* sym, int scope) {
    else       buzzdict_set(par->syms, &key, &symdata);
 }
 
+void sym_addparam(buzzparser_t par, const char* sym) {
+   /* Does the parameter hide another local symbol? */
+   const struct sym_s* s = buzzdict_get(par->syms, &sym, struct sym_s);
+   if(s) {
+      /* Yes, keep the place of the latter in the activation record
+       * under a name that cannot be found in a script */
+      struct sym_s hidden = *s;
+      char* key;
+      asprintf(&key, "%s %" PRId64, sym, hidden.pos);
+      buzzdict_remove(par->syms, &sym);
+      buzzdict_set(par->syms, &key, &hidden);
+   }
+   sym_add(par, sym, SCOPE_LOCAL);
+}
+
 void sym_clone(const void* key, void* data, void* params) {
    struct sym_s* toclone = (struct sym_s*)data;
    /* Copy key */
@@ -1176,19 +1191,13 @@ int parse_idlist(buzzparser_t par) {
     * reuse the parameters and local variables of
     * the parent
     */
-   const struct sym_s* sym = sym_lookup(par->tok->value, par->symstack);
-   if(!sym || sym->global) {
-      sym_add(par, par->tok->value, SCOPE_LOCAL);
-   }
+   sym_addparam(par, par->tok->value);
    fetchtok();
    /* Match rest of the argument list */
    while(par->tok->type == BUZZTOK_LISTSEP) {
       fetchtok();
       tokmatch(BUZZTOK_ID);
-      const struct sym_s* sym = sym_lookup(par->tok->value, par->symstack);
-      if(!sym || sym->global) {
-         sym_add(par, par->tok->value, SCOPE_LOCAL);
-      }
+      sym_addparam(par, par->tok->value);
       fetchtok();
    }
    return PARSE_OK;
-- 
2.43.0


From fc0ae76b0bd4527846d6e06f3bfe2c5e5805a45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:43 +0000
Subject: [PATCH 35/67] fix: comment on lambda parameters follows the code

---
 src/buzz/buzzparser.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index bd032f9..10e5692 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -1184,12 +1184,8 @@ int parse_idlist(buzzparser_t par) {
       return PARSE_OK;
    /* Match an id for the first argument */
    tokmatch(BUZZTOK_ID);
-   /* Look for the argument symbol in the context
-    * If a symbol is found and is not global,
-    * do not add a new symbol; otherwise do
-    * This allows lambdas and nested functions to
-    * reuse the parameters and local variables of
-    * the parent
+   /* Add the argument symbol; in a lambda, it hides
+    * a local symbol of the parent with the same name
     */
    sym_addparam(par, par->tok->value);
    fetchtok();
-- 
2.43.0


From 9b87f710b3783686e42963e2a5e904b784772703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:27 +0000
Subject: [PATCH 36/67] fix: a call checks that its target lies in the code and
 that self is there

---
 src/buzz/buzzvm.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index b701f06..cca63bf 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1151,7 +1151,8 @@ buzzvm_state buzzvm_call(buzzvm_t vm, int isswrm) {
    int32_t argn = buzzvm_stack_at(vm, 1)->i.value;
    buzzvm_pop(vm);
    /* Make sure the stack has enough elements */
-   if(argn < 0 || argn >= buzzvm_stack_top(vm)) {
+   /* (arguments, closure, self) */
+   if(argn < 0 || argn >= buzzvm_stack_top(vm) - 1) {
       buzzvm_seterror(vm,
                       BUZZVM_ERROR_STACK,
                       "wrong number of arguments %d",
@@ -1168,6 +1169,13 @@ buzzvm_state buzzvm_call(buzzvm_t vm, int isswrm) {
       buzzvm_seterror(vm, BUZZVM_ERROR_FLIST, NULL);
       return vm->state;
    }
+   /* Make sure that the address of a Buzz closure is correct */
+   if(c->c.value.isnative &&
+      ((c->c.value.ref) < 0 ||
+       (c->c.value.ref) >= vm->bcode_size)) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_PC, NULL);
+      return vm->state;
+   }
    /* Create a new local symbol list copying the parent's */
    vm->lsyms =
       buzzvm_lsyms_new(isswrm,
-- 
2.43.0


From 48f8b13337095d84b13a0e7ecd327ea5ad532a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:23 +0000
Subject: [PATCH 37/67] fix: removing a set element with two children keeps its
 successor

The successor's data was moved up and then handed to the destructor (and
the removed element's data leaked); unlink the successor node instead.
---
 src/buzz/buzzset.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/buzz/buzzset.c b/src/buzz/buzzset.c
index 5126bc2..4c91ff1 100644
--- a/src/buzz/buzzset.c
+++ b/src/buzz/buzzset.c
@@ -80,12 +80,15 @@ static void buzzset_tree_foreach(buzzset_tree_t n,
 /****************************************/
 /****************************************/
 
-/* Finds the smallest node in a tree */
-static buzzset_tree_t buzzset_tree_find_min(buzzset_tree_t n) {
-   /* This node has no smaller child */
-   if(n->left == NULL) return n;
-   /* Go to the smaller child */
-   return buzzset_tree_find_min(n->left);
+/* Unlinks the smallest node from a tree and returns what is left of it */
+static buzzset_tree_t buzzset_tree_unlink_min(buzzset_tree_t n,
+                                              buzzset_tree_t* min) {
+   if(n->left == NULL) {
+      *min = n;
+      return n->right;
+   }
+   n->left = buzzset_tree_unlink_min(n->left, min);
+   return n;
 }
 
 /****************************************/
@@ -114,6 +117,7 @@ static buzzset_tree_t buzzset_tree_remove(buzzset_t s,
       *removed = 1;
       /* Get rid of the data */
       if(s->dstryf) s->dstryf(n->data, NULL);
+      free(n->data);
       /* If the node has no children, simply remove it */
       if(!n->left && !n->right) {
          free(n);
@@ -133,12 +137,13 @@ static buzzset_tree_t buzzset_tree_remove(buzzset_t s,
       }
       /* Both children exist for this node */
       else {
-         /* Look for the minimum id on the right of the node to eliminate */
-         buzzset_tree_t m = buzzset_tree_find_min(n->right);
-         /* Copy its value over the current root */
-         n->data = m->data;
-         /* Delete the minimum node */
-         n->right = buzzset_tree_remove(s, n->right, m->data, removed);
+         /* Take out the minimum on the right of the node to eliminate */
+         buzzset_tree_t x = n;
+         buzzset_tree_t r = buzzset_tree_unlink_min(x->right, &n);
+         /* Put it in place of the node */
+         n->left = x->left;
+         n->right = r;
+         free(x);
       }
    }
    return n;
-- 
2.43.0


From 669fca68eb2a10c98109defec09314eada43f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:24 +0000
Subject: [PATCH 38/67] fix: inserting past the end of a dynamic array appends

---
 src/buzz/buzzdarray.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzdarray.c b/src/buzz/buzzdarray.c
index 65bc57d..db5c51b 100644
--- a/src/buzz/buzzdarray.c
+++ b/src/buzz/buzzdarray.c
@@ -116,7 +116,7 @@ void* buzzdarray_makeslot(buzzdarray_t da,
    /* Increase size */
    ++(da->size);
    /* Return pointer to the slot */
-   return buzzdarray_rawget(da, pos);
+   return buzzdarray_rawget(da, i);
 }
 
 /****************************************/
@@ -128,7 +128,7 @@ void buzzdarray_insert(buzzdarray_t da,
    /* Create the slot */
    void* slot = buzzdarray_makeslot(da, pos);
    /* Add element at the specified position */
-   if(slot != NULL) buzzdarray_set(da, pos, data);
+   if(slot != NULL) memcpy(slot, data, da->elem_size);
 }
 
 /****************************************/
-- 
2.43.0


From 5ebee09663ad604dc692cc5b17dcee0c0439b673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:26 +0000
Subject: [PATCH 39/67] fix: a dynamic array made from an empty buffer can grow

---
 src/buzz/buzzdarray.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzdarray.c b/src/buzz/buzzdarray.c
index db5c51b..0baa745 100644
--- a/src/buzz/buzzdarray.c
+++ b/src/buzz/buzzdarray.c
@@ -60,13 +60,13 @@ buzzdarray_t buzzdarray_frombuffer(const void* buf,
    /* Create the dynamic array. calloc() zeroes everything. */
    buzzdarray_t da = (buzzdarray_t)calloc(1, sizeof(struct buzzdarray_s));
    /* Set info */
-   da->capacity = buf_size / elem_size;
+   da->size = buf_size / elem_size;
+   da->capacity = da->size > 0 ? da->size : 1;
    da->elem_size = elem_size;
    da->elem_destroy = elem_destroy ? elem_destroy : buzzdarray_elem_destroy;
-   da->size = da->capacity;
    /* Create initial data */
-   da->data = malloc(buf_size);
-   memcpy(da->data, buf, buf_size);
+   da->data = malloc(da->capacity * elem_size);
+   memcpy(da->data, buf, da->size * elem_size);
    /* Done */
    return da;
 }
-- 
2.43.0


From da6b9ab8b3c8573f93f07399891e6653cff7829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:27 +0000
Subject: [PATCH 40/67] fix: a string protected during a collection is not
 reclaimed

---
 src/buzz/buzzstrman.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buzz/buzzstrman.c b/src/buzz/buzzstrman.c
index b56a698..d08648b 100644
--- a/src/buzz/buzzstrman.c
+++ b/src/buzz/buzzstrman.c
@@ -279,6 +279,8 @@ void buzzstrman_gc_dispose(uint16_t sid,
                            void* param) {
    /* Get string corresponding to given sid */
    buzzid2strdata_t sd = *buzzdict_get(((buzzstrman_t)param)->id2str, &sid, buzzid2strdata_t);
+   /* Nothing to do if the string was protected in the meantime */
+   if(sd->protect) return;
    /* Get rid of both the sid and the string */
    char* str = sd->str;
    buzzdict_remove(((buzzstrman_t)param)->str2id, &str);
-- 
2.43.0


From 948a71297063674fbe050de289afe060d903d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:39 +0000
Subject: [PATCH 41/67] fix: comparing a string with a large float overran a
 buffer

---
 src/buzz/buzztype.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index c754a1d..72354c1 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -186,7 +186,7 @@ int buzzobj_cmp(const buzzobj_t a,
       return buzzobj_strcmp(a->s.value.str, str);
    }
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_FLOAT) {
-      char str[30];
+      char str[64];
       sprintf(str, "%f", b->f.value);
       return buzzobj_strcmp(a->s.value.str, str);
    }
@@ -197,7 +197,7 @@ int buzzobj_cmp(const buzzobj_t a,
       return buzzobj_strcmp(str, b->s.value.str);
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_STRING) {
-      char str[30];
+      char str[64];
       sprintf(str, "%f", a->f.value);
       return buzzobj_strcmp(str, b->s.value.str);
    }
-- 
2.43.0


From 7252cd0ab0209df9014de508fa22323d711166b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:40 +0000
Subject: [PATCH 42/67] fix: the modulo of a negative divisor is not negative

-7 % -3 gave -4: the divisor was added to a negative remainder whatever
its sign.
---
 src/buzz/buzzvm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index cca63bf..3250735 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1568,28 +1568,28 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
       op2->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);
       res->i.value = (op1->i.value == -1) ? 0 : op2->i.value % op1->i.value;
-      if(res->i.value < 0) res->i.value += op1->i.value;
+      if(res->i.value < 0) res->i.value += (op1->i.value < 0) ? -op1->i.value : op1->i.value;
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_FLOAT &&
            op2->o.type == BUZZTYPE_FLOAT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->f.value, op1->f.value);
-      if(res->f.value < 0.) res->f.value += op1->f.value;
+      if(res->f.value < 0.) res->f.value += fabsf(op1->f.value);
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_INT &&
            op2->o.type == BUZZTYPE_FLOAT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->f.value, op1->i.value);
-      if(res->f.value < 0.) res->f.value += op1->i.value;
+      if(res->f.value < 0.) res->f.value += fabsf(op1->i.value);
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_FLOAT &&
            op2->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->i.value, op1->f.value);
-      if(res->f.value < 0.) res->f.value += op1->f.value;
+      if(res->f.value < 0.) res->f.value += fabsf(op1->f.value);
       return buzzvm_push(vm, res);
    }
    else {
-- 
2.43.0


From 23d555d2aef2220f510291d67094f192f1f964bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:09 +0000
Subject: [PATCH 43/67] fix: a } or a lexical error at top level ended the
 program silently

A stray closing brace, or a lexical error at the boundary of a statement
(an unknown character, a string without end, a file that cannot be
included), made the parser stop as if the script ended there and accept
it. An empty script produced code without an end.
---
 src/buzz/buzzparser.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 10e5692..1f050d8 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -440,13 +440,25 @@ int parse_script(buzzparser_t par) {
       buzzlex_destroytok(&par->tok);
       par->tok = buzzlex_nexttok(par->lex);
    }
-   if(par->tok->type == BUZZTOK_EOF) return PARSE_OK;
    /* Add a symbol table */
    symt_push();
    /* Add the first chunk for the global scope */
    chunk_push(0);
    /* Parse the statements */
-   if(!parse_statlist(par)) return PARSE_ERROR;
+   if(par->tok->type != BUZZTOK_EOF &&
+      !parse_statlist(par)) return PARSE_ERROR;
+   /* Make sure we are at the end of the script */
+   if(par->tok->type != BUZZTOK_EOF) {
+      fprintf(stderr,
+              "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected statement, found %s\n",
+              par->tok->fname,
+              par->tok->line,
+              par->tok->col,
+              buzztok_desc[par->tok->type]);
+      return PARSE_ERROR;
+   }
+   /* Make sure we are not here because of a lexical error */
+   if(!buzzlex_done(par->lex)) return PARSE_ERROR;
    /* Finalize the output */
    chunk_append("\n@__exitpoint");
    chunk_append("\tdone");
-- 
2.43.0


From 10cbea94b14acba04e248c88d99168082b858a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:11 +0000
Subject: [PATCH 44/67] fix: errors at the end of a file were reported through
 a closed file

The parser named the file on top of the lexer's stack in its messages.
At the end of the script there is none left (the access was out of
bounds), and after an included file it is another one than the token's.
---
 src/buzz/buzzparser.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 1f050d8..eae0728 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -364,6 +364,11 @@ void chunk_print(uint32_t pos, void* data, void* params) {
       } while(par->tok->type != BUZZTOK_EOF && par->tok->type == BUZZTOK_STATEND); \
    }
 
+/* Returns the name of the file the current token belongs to */
+static const char* tokfname(buzzparser_t par) {
+   return par->tok->fname ? par->tok->fname : par->scriptfn;
+}
+
 int match(buzzparser_t par,
           buzztok_type_e type) {
    if(par->tok->type == BUZZTOK_EOF) {
@@ -376,7 +381,7 @@ int match(buzzparser_t par,
    if(par->tok->type != type) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected %s, found %s\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfname(par),
               par->tok->line,
               par->tok->col,
               buzztok_desc[type],
@@ -599,7 +604,7 @@ int parse_var(buzzparser_t par) {
    if(s && s->global == SCOPE_LOCAL) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Duplicated symbol '%s'\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfname(par),
               par->tok->line,
               par->tok->col,
               par->tok->value);
@@ -651,7 +656,7 @@ int parse_fun(buzzparser_t par) {
    if(buzzdarray_size(par->symstack) > 1) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: the definition of function %s() is nested within another scope. To define local functions, use the lambda syntax %s = function() { ... }.\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfname(par),
               par->tok->line,
               par->tok->col,
               par->tok->value,
@@ -887,7 +892,7 @@ int parse_expression(buzzparser_t par) {
          par->tok->type != BUZZTOK_BLOCKCLOSE) {
          fprintf(stderr,
                  "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected .id = expression or }, found %s\n",
-                 buzzlex_getfile(par->lex)->fname,
+                 tokfname(par),
                  par->tok->line,
                  par->tok->col,
                  buzztok_desc[par->tok->type]);
@@ -914,7 +919,7 @@ int parse_expression(buzzparser_t par) {
          else {
             fprintf(stderr,
                     "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected id or numeric constant, found %s\n",
-                    buzzlex_getfile(par->lex)->fname,
+                    tokfname(par),
                     par->tok->line,
                     par->tok->col,
                     buzztok_desc[par->tok->type]);
@@ -950,7 +955,7 @@ int parse_expression(buzzparser_t par) {
             else {
                fprintf(stderr,
                        "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected id or numeric constant, found %s\n",
-                       buzzlex_getfile(par->lex)->fname,
+                       tokfname(par),
                        par->tok->line,
                        par->tok->col,
                        buzztok_desc[par->tok->type]);
@@ -1144,7 +1149,7 @@ int parse_command(buzzparser_t par) {
          if(idrefinfo.info == TYPE_CLOSURE) {
             fprintf(stderr,
                     "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: can't have a function call as lvalue\n",
-                    buzzlex_getfile(par->lex)->fname,
+                    tokfname(par),
                     par->tok->line,
                     par->tok->col);
             return PARSE_ERROR;
@@ -1180,7 +1185,7 @@ int parse_command(buzzparser_t par) {
       }
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected function call or assignment\n",
-              buzzlex_getfile(par->lex)->fname,
+              tokfname(par),
               par->tok->line,
               par->tok->col);
       return PARSE_ERROR;
@@ -1228,7 +1233,7 @@ int parse_idreflist(buzzparser_t par) {
    }
    fprintf(stderr,
            "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected , or ), found %s\n",
-           buzzlex_getfile(par->lex)->fname,
+           tokfname(par),
            par->tok->line,
            par->tok->col,
            buzztok_desc[par->tok->type]);
-- 
2.43.0


From 3c760a5ee29931d7c01d320ed54549a6c77c30cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:12 +0000
Subject: [PATCH 45/67] fix: return followed by the end of the statement
 returned the next one

The token after return was fetched skipping newlines and semicolons, so
'return;' took the next statement for the returned value. The newline
that ends a comment ends the statement too.
---
 src/buzz/buzzlex.c    |  6 ------
 src/buzz/buzzparser.c | 11 ++++++++---
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index f80003f..fb1ee5d 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -300,12 +300,6 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
                return eoftok;
             lexf = buzzlex_getfile(lex);
          }
-         else {
-            /* New line and carry on */
-            ++lexf->cur_line;
-            lexf->cur_col = 0;
-            ++lexf->cur_c;
-         }
       }
       else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0) {
          /* Manage file inclusion */
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index eae0728..cabb842 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -1129,9 +1129,14 @@ int parse_operand(buzzparser_t par) {
 int parse_command(buzzparser_t par) {
    if(par->tok->type == BUZZTOK_RETURN) {
       /* Return statement */
-      fetchtok();
-      if(par->tok->type == BUZZTOK_STATEND ||
-         par->tok->type == BUZZTOK_BLOCKCLOSE) {
+      /* Don't use fetchtok() because a newline or ; is meaningful here */
+      buzzlex_destroytok(&par->tok);
+      par->tok = buzzlex_nexttok(par->lex);
+      if(par->tok->type == BUZZTOK_STATEND) {
+         chunk_append("\tret0");
+         fetchtok();
+      }
+      else if(par->tok->type == BUZZTOK_BLOCKCLOSE) {
          chunk_append("\tret0");
       }
       else {
-- 
2.43.0


From 9bc98a91a590c060d9781772b9be2ea57b21f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:14 +0000
Subject: [PATCH 46/67] fix: escapes in strings read past the closing quote

Each escape made the string one character longer than its source, and
whether a quote closes the string was decided by the two characters
before it, wrongly for \\\\\". Newlines inside a string were not counted.
---
 src/buzz/buzzlex.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index fb1ee5d..29fbd93 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -144,7 +144,7 @@ static char* buzzlex_newstring(const char* s,
    /* Pointer for current current */
    char* pns = ns;
    /* Go through original string */
-   for(size_t i = 0; i < len; ++i) {
+   for(const char* end = s + len; s < end;) {
       /* Escape sequence? */
       if(*s != '\\') {
          /* No, normal character - just copy it */
@@ -553,14 +553,15 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
    else if(buzzlex_isquote(c)) {
       /* String - eat any character until you find the next matching quote */
       size_t start = lexf->cur_c;
-      char last1 = 0, last2 = 0;
+      uint64_t newlines = 0;
       while(lexf->cur_c < lexf->buf_size &&    /* Not end of stream */
-            ((lexf->buf[lexf->cur_c] != c) ||  /* Matching quote not found */
-             (lexf->buf[lexf->cur_c] == c &&   /* Matching quote found, but preceded by \ and not \\ */
-              last1 == '\\' && last2 != '\\'))) {
-         /* Remember the last two characters read */
-         last2 = last1;
-         last1 = lexf->buf[lexf->cur_c];
+            lexf->buf[lexf->cur_c] != c) {     /* Matching quote not found */
+         /* The character after a \ never closes the string */
+         if(lexf->buf[lexf->cur_c] == '\\') {
+            nextchar();
+            if(lexf->cur_c >= lexf->buf_size) break;
+         }
+         if(lexf->buf[lexf->cur_c] == '\n') ++newlines;
          /* Keep parsing the string */
          nextchar();
       }
@@ -577,9 +578,10 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
       char* val = buzzlex_newstring(lexf->buf + start,
                                     lexf->cur_c - start);
       nextchar();
+      lexf->cur_line += newlines;
       return buzzlex_newtok(BUZZTOK_STRING,
                             val,
-                            lexf->cur_line,
+                            lexf->cur_line - newlines,
                             tokstart,
                             lexf->fname);
    }
-- 
2.43.0


From 8ca8eae40cc696cfe779443f6349400a2e8103d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:15 +0000
Subject: [PATCH 47/67] fix: identifiers may start with include

---
 src/buzz/buzzlex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 29fbd93..a6794c8 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -301,7 +301,8 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
             lexf = buzzlex_getfile(lex);
          }
       }
-      else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0) {
+      else if(strncmp(lexf->buf + lexf->cur_c, "include", 7) == 0 &&
+              !buzzlex_isid(lexf->buf[lexf->cur_c + 7])) {
          /* Manage file inclusion */
          lexf->cur_c += 7;
          lexf->cur_col += 7;
-- 
2.43.0


From 6966dfafc66e793c0f22935f5dc53a82bd97945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:16 +0000
Subject: [PATCH 48/67] fix: a number has at most one decimal point

1.2.3 was taken as one number and cut at the second point.
---
 src/buzz/buzzlex.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index a6794c8..74314a8 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -130,8 +130,8 @@ static int buzzlex_isquote(char c) {
    return (c == '\'') || (c == '"');
 }
 
-static int buzzlex_isnumber(char c) {
-   return isdigit(c) || (c == '.');
+static int buzzlex_isnumber(char c, int* dots) {
+   return isdigit(c) || (c == '.' && ++(*dots) == 1);
 }
 
 /****************************************/
@@ -405,7 +405,9 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
     * an arithmetic operator, or an unexpected character */
    if(isdigit(c)) {
       /* It's a constant */
-      readval(buzzlex_isnumber);
+      int dots = 0;
+#define buzzlex_isnumber_next(C) buzzlex_isnumber(C, &dots)
+      readval(buzzlex_isnumber_next);
       return buzzlex_newtok(BUZZTOK_CONST,
                             val,
                             lexf->cur_line,
-- 
2.43.0


From cb916e840f0cca133f718206f39d9ab9a70c15a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:17 +0000
Subject: [PATCH 49/67] fix: a variable declared by an unbraced branch stayed
 on the locals

The single statement of an if, for or while declares its variables in
a scope of its own, like a block: whether it ran or not, the variables
declared after it must keep their positions.
---
 src/buzz/buzzparser.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index cabb842..2b35966 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -586,7 +586,16 @@ int parse_blockstat(buzzparser_t par) {
    }
    else {
       /* It's a single statement, eat extra statement end characters */
-      return parse_stat(par);
+      /* At the top level, variables are global */
+      if(buzzdarray_size(par->symstack) == 1) return parse_stat(par);
+      /* Otherwise, the statement is a scope */
+      symt_clone();
+      uint32_t numvars = buzzdict_size(par->syms);
+      if(!parse_stat(par)) return PARSE_ERROR;
+      if(buzzdict_size(par->syms) - numvars)
+         chunk_append("\tlremove %" PRId32, buzzdict_size(par->syms) - numvars);
+      symt_pop();
+      return PARSE_OK;
    }
 }
 
-- 
2.43.0


From b90af6d6eebbb9aa4260bef731537d149b0223c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:15 +0000
Subject: [PATCH 50/67] fix: strings with newlines did not survive the
 assembler

The assembly has one string per line, so a newline in a string cut it
short and left the rest as an instruction. Newlines and backslashes are
now escaped there.
---
 src/buzz/buzzasm.c    | 22 +++++++++++++++++++---
 src/buzz/buzzparser.c | 10 +++++++++-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index bcd8c25..2f38461 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -189,7 +189,18 @@ int buzz_asm(const char* fname,
       /* Is the line a string? */
       if(*trimline == '\'') {
          ++trimline;
-         trimline[strlen(trimline)-1] = 0;
+         size_t tl = strlen(trimline);
+         if(tl > 0 && trimline[tl-1] == '\n') trimline[tl-1] = 0;
+         /* Replace the escape sequences */
+         char* w = trimline;
+         for(const char* r = trimline; *r; ++r) {
+            if(*r == '\\' && (r[1] == 'n' || r[1] == '\\')) {
+               ++r;
+               *w++ = (*r == 'n') ? '\n' : '\\';
+            }
+            else *w++ = *r;
+         }
+         *w = 0;
          size_t l = strlen(trimline) + 1;
          bcode_resize(l);
          strcpy((char*)(*buf + *size), trimline);
@@ -369,9 +380,14 @@ int buzz_deasm(const uint8_t* buf,
    long int c = 0;
    for(; (c < count) && (i < size); ++c) {
       /* Print string */
-      fprintf(fd, "'%s\n", ((char*)buf + i));
+      fputc('\'', fd);
       /* Advance to first character of next string */
-      while(*(buf + i) != 0) ++i;
+      for(; *(buf + i) != 0; ++i) {
+         if(*(buf + i) == '\n')      fputs("\\n", fd);
+         else if(*(buf + i) == '\\') fputs("\\\\", fd);
+         else                        fputc(*(buf + i), fd);
+      }
+      fputc('\n', fd);
       ++i;
    }
    if(c < count) {
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 2b35966..ad6a7d4 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -73,7 +73,15 @@ uint32_t string_add(buzzdict_t strings, const char* str) {
 }
 
 void string_print(uint32_t pos, void* data, void* params) {
-   fprintf((FILE*)params, "'%s\n", (*(struct strarray_data_s**)data)->str);
+   FILE* f = (FILE*)params;
+   /* Strings take one line each, so newlines and backslashes are escaped */
+   fputc('\'', f);
+   for(const char* s = (*(struct strarray_data_s**)data)->str; *s; ++s) {
+      if(*s == '\n')      fputs("\\n", f);
+      else if(*s == '\\') fputs("\\\\", f);
+      else                fputc(*s, f);
+   }
+   fputc('\n', f);
 }
 
 /****************************************/
-- 
2.43.0


From b29a86fff6267879898d17bc6089595cf65e3575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:17 +0000
Subject: [PATCH 51/67] fix: the disassembler rounded float constants to six
 decimals

---
 src/buzz/buzzasm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 2f38461..20a42ca 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -415,7 +415,7 @@ int buzz_deasm(const uint8_t* buf,
       /* Does the opcode have an argument? */
       if(op == BUZZVM_INSTR_PUSHF) {
          /* Float argument */
-         write_arg(float, "%f");
+         write_arg(float, "%.9g");
       }
       else if(op > BUZZVM_INSTR_PUSHF) {
          /* Integer argument */
@@ -450,7 +450,7 @@ int buzz_instruction_deasm(const uint8_t* bcode,
    /* Does the opcode have an argument? */
    if(op == BUZZVM_INSTR_PUSHF) {
       /* Float argument */
-      asprintf(buf, "%s %f",
+      asprintf(buf, "%s %.9g",
                buzzvm_instr_desc[op],
                *(float*)(bcode+off+1));
    }
-- 
2.43.0


From 8a8ee2e5ef4f18b0db796a5e228dbb97a5eec90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:19 +0000
Subject: [PATCH 52/67] fix: a file is included once, not once per chain of
 inclusions

Only the files being read were looked at, so a file included from two
places one after the other was spliced in twice.
---
 src/buzz/buzzlex.c | 21 ++++++++++++++++-----
 src/buzz/buzzlex.h |  2 ++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 74314a8..c72d9a9 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -95,6 +95,7 @@ buzzlex_file_t buzzlex_file_new(const char* fname) {
    x->cur_line = 1;
    x->cur_col = 0;
    x->cur_c = 0;
+   x->included = NULL;
    return x;
 }
 
@@ -102,13 +103,16 @@ void buzzlex_file_destroy(uint32_t pos, void* data, void* params) {
    buzzlex_file_t f = *(buzzlex_file_t*)data;
    free(f->buf);
    free(f->fname);
+   if(f->included) buzzdarray_destroy(&(f->included));
    free(f);
 }
 
-int buzzlex_file_cmp(const void* a, const void* b) {
-   buzzlex_file_t f1 = *(buzzlex_file_t*)a;
-   buzzlex_file_t f2 = *(buzzlex_file_t*)b;
-   return strcmp(f1->fname, f2->fname);
+static void buzzlex_fname_destroy(uint32_t pos, void* data, void* params) {
+   free(*(char**)data);
+}
+
+static int buzzlex_fname_cmp(const void* a, const void* b) {
+   return strcmp(*(char**)a, *(char**)b);
 }
 
 /****************************************/
@@ -217,6 +221,10 @@ buzzlex_t buzzlex_new(const char* fname) {
    buzzlex_file_t f = buzzlex_file_new(fname);
    if(!f) return NULL;
    buzzdarray_push(x, &f);
+   /* Remember the names of the files */
+   f->included = buzzdarray_new(10, sizeof(char*), buzzlex_fname_destroy);
+   char* mainfn = strdup(f->fname);
+   buzzdarray_push(f->included, &mainfn);
    /* Return the lexer state */
    return x;
 }
@@ -360,10 +368,13 @@ buzztok_t buzzlex_nexttok(buzzlex_t lex) {
          }
          free(fname);
          /* Make sure the file hasn't been already included */
-         if(buzzdarray_find(lex, buzzlex_file_cmp, &f) < buzzdarray_size(lex)) {
+         buzzdarray_t included = buzzdarray_get(lex, 0, buzzlex_file_t)->included;
+         if(buzzdarray_find(included, buzzlex_fname_cmp, &f->fname) < buzzdarray_size(included)) {
             buzzlex_file_destroy(0, &f, NULL);
          }
          else {
+            char* incfn = strdup(f->fname);
+            buzzdarray_push(included, &incfn);
             /* Push file structure */
             buzzdarray_push(lex, &f);
             lexf = buzzlex_getfile(lex);
diff --git a/src/buzz/buzzlex.h b/src/buzz/buzzlex.h
index ba2f907..32a83c3 100644
--- a/src/buzz/buzzlex.h
+++ b/src/buzz/buzzlex.h
@@ -81,6 +81,8 @@ extern "C" {
       char* buf;
       /* The name of the file */
       char* fname;
+      /* The names of the files met so far; only used by the first file of the stack */
+      buzzdarray_t included;
    };
    typedef struct buzzlex_file_s* buzzlex_file_t;
 
-- 
2.43.0


From 7e81428fe615ea377c7c5480d525e0d20726a63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:02 +0000
Subject: [PATCH 53/67] fix: string.tostring() of something that is no number
 returned garbage

After pushing nil, the conversion went on with the object as a float.
---
 src/buzz/buzzstring.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 288dc7e..4929db3 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -152,6 +152,7 @@ int buzzstring_tostring(buzzvm_t vm) {
       o->o.type != BUZZTYPE_FLOAT) {
       /* Can't convert */
       buzzvm_pushnil(vm);
+      return buzzvm_ret1(vm);
    }
    /* Perform conversion */
    char* str;
-- 
2.43.0


From b850fc5945d202b1806d471b684c9d92a5bb10cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:03 +0000
Subject: [PATCH 54/67] fix: string.sub() with a negative start read before the
 string

---
 src/buzz/buzzstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 4929db3..6a9bddb 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -71,7 +71,7 @@ int buzzstring_sub(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    int32_t n = buzzvm_stack_at(vm, 1)->i.value;
-   if(n >= ls) {
+   if(n < 0 || n >= ls) {
       /* Out of bounds */
       buzzvm_pushnil(vm);
       return buzzvm_ret1(vm);
-- 
2.43.0


From bf85345e04f407be2ecbc7ee84eaab83c5b828c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:04 +0000
Subject: [PATCH 55/67] fix: math.rng.uniform() left the requested integer
 range

With a negative limit, a descending range or one wider than an integer,
the multiplication wrapped around.
---
 src/buzz/buzzmath.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index a2479cb..8956e5c 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -56,6 +56,15 @@ uint32_t mt_uniform32(buzzvm_t vm) {
    return y;
 }
 
+/* Returns an integer between min and max, in whichever order */
+static int32_t mt_uniform_range(buzzvm_t vm,
+                                int32_t min,
+                                int32_t max) {
+   int64_t range = (int64_t)max - min;
+   int64_t off = (uint64_t)mt_uniform32(vm) * (uint64_t)(range < 0 ? -range : range) / INT_MAX;
+   return min + (range < 0 ? -off : off);
+}
+
 /****************************************/
 /****************************************/
 
@@ -502,7 +511,7 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
       if(max->o.type == BUZZTYPE_INT) {
          /* Integer value */
          buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * max->i.value / INT_MAX);
+                      mt_uniform_range(vm, 0, max->i.value));
       }
       else if(max->o.type == BUZZTYPE_FLOAT) {
          /* Float value */
@@ -521,7 +530,7 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
          max->o.type == BUZZTYPE_INT) {
          /* Both integers */
          buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->i.value - min->i.value) / INT_MAX + min->i.value);
+                      mt_uniform_range(vm, min->i.value, max->i.value));
       }
       else if(min->o.type == BUZZTYPE_FLOAT &&
               max->o.type == BUZZTYPE_INT) {
-- 
2.43.0


From 01ab9afc4d206ef69b489ce09ca4363dd502d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:06 +0000
Subject: [PATCH 56/67] fix: math.rng.gaussian() took its first argument for
 both

The mean was read from the first argument, and a single argument was
refused.
---
 src/buzz/buzzmath.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index 8956e5c..a05faf3 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -603,7 +603,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
       }
       if(buzzvm_lnum(vm) == 2) {
          /* Take second argument */
-         buzzvm_lload(vm, 1);
+         buzzvm_lload(vm, 2);
          o = buzzvm_stack_at(vm, 1);
          if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
          else if(o->o.type == BUZZTYPE_INT) mean = o->i.value;
@@ -617,7 +617,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
             return vm->state;
          }
       }
-      else {
+      else if(buzzvm_lnum(vm) > 2) {
          /* Error */
          buzzvm_seterror(vm,
                          BUZZVM_ERROR_LNUM,
-- 
2.43.0


From ff07336d80a3251033068164739d74c98bd3e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:07 +0000
Subject: [PATCH 57/67] fix: math.rng.exponential() never loaded its argument

It looked for it on an empty stack and failed for every argument.
---
 src/buzz/buzzmath.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index a05faf3..ccd4e4a 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -648,6 +648,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
 int buzzmath_rng_exponential(buzzvm_t vm) {
    /* Get the mean */
    buzzvm_lnum_assert(vm, 1);
+   buzzvm_lload(vm, 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    float mean;
    if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
-- 
2.43.0


From 2ea48b60058be3671ccad69f8424e14a09aabd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:42 +0000
Subject: [PATCH 58/67] fix: cloning a table that contains itself never ended

A table met again inside itself is now the copy that is being made.
---
 src/buzz/buzzheap.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzheap.c b/src/buzz/buzzheap.c
index f8b65f0..480d66c 100644
--- a/src/buzz/buzzheap.c
+++ b/src/buzz/buzzheap.c
@@ -58,19 +58,31 @@ buzzobj_t buzzheap_newobj(buzzvm_t vm,
 /****************************************/
 /****************************************/
 
+/* A table being cloned, and the ones that contain it */
 struct buzzheap_clone_tableelem_s {
    buzzvm_t vm;
-   buzzdict_t t;
+   buzzobj_t orig;
+   buzzobj_t copy;
+   struct buzzheap_clone_tableelem_s* parent;
 };
 
+static buzzobj_t buzzheap_clone_within(buzzvm_t vm, const buzzobj_t o, struct buzzheap_clone_tableelem_s* parent);
+
 void buzzheap_clone_tableelem(const void* key, void* data, void* params) {
    struct buzzheap_clone_tableelem_s* p = (struct buzzheap_clone_tableelem_s*)params;
-   buzzobj_t k = buzzheap_clone(p->vm, *(buzzobj_t*)key);
-   buzzobj_t d = buzzheap_clone(p->vm, *(buzzobj_t*)data);
-   buzzdict_set(p->t, &k, &d);
+   buzzobj_t k = buzzheap_clone_within(p->vm, *(buzzobj_t*)key, p);
+   buzzobj_t d = buzzheap_clone_within(p->vm, *(buzzobj_t*)data, p);
+   buzzdict_set(p->copy->t.value, &k, &d);
 }
 
 buzzobj_t buzzheap_clone(buzzvm_t vm, const buzzobj_t o) {
+   return buzzheap_clone_within(vm, o, NULL);
+}
+
+static buzzobj_t buzzheap_clone_within(buzzvm_t vm, const buzzobj_t o, struct buzzheap_clone_tableelem_s* parent) {
+   /* A table within itself is the copy already being made */
+   for(struct buzzheap_clone_tableelem_s* p = parent; p; p = p->parent)
+      if(p->orig == o) return p->copy;
    buzzobj_t x = (buzzobj_t)malloc(sizeof(union buzzobj_u));
    x->o.type = o->o.type;
    x->o.marker = o->o.marker;
@@ -112,7 +124,9 @@ buzzobj_t buzzheap_clone(buzzvm_t vm, const buzzobj_t o) {
                                    orig->dstryf);
          struct buzzheap_clone_tableelem_s p = {
             .vm = vm,
-            .t = x->t.value
+            .orig = o,
+            .copy = x,
+            .parent = parent
          };
          buzzdict_foreach(orig, buzzheap_clone_tableelem, &p);
          return x;
-- 
2.43.0


From 8a9fe1ddd8c6bb841960f1b19e9b0f41c5217a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:51 +0000
Subject: [PATCH 59/67] fix: give instructions the source position of what was
 parsed

The debug information of an instruction was taken from the token that
follows the code it was compiled from, usually the first token of the
next statement, so run-time errors were reported at the wrong line, and
the last ones at no line at all.
---
 src/buzz/buzzparser.c | 60 ++++++++++++++++++++++++++++---------------
 src/buzz/buzzparser.h |  2 ++
 2 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index ad6a7d4..df487bd 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -293,13 +293,19 @@ void chunk_finalize(chunk_t c) {
    c->code[c->csize] = 0;
 }
 
-#define chunk_append(...) {                         \
+#define chunk_append_at(TOK, ...) {                 \
       char* str;                                    \
       asprintf(&str, ##__VA_ARGS__);                \
-      chunk_addcode(par->chunk, str, par->tok);     \
+      chunk_addcode(par->chunk, str, (TOK));        \
       free(str);                                    \
    }
 
+/* Adds code for what was parsed so far */
+#define chunk_append(...) chunk_append_at(par->prevtok, ##__VA_ARGS__)
+
+/* Adds code for the current token */
+#define chunk_append_tok(...) chunk_append_at(par->tok, ##__VA_ARGS__)
+
 void chunk_register(uint32_t pos, void* data, void* params) {
    /* Cast params */
    chunk_t c = *(chunk_t*)data;
@@ -354,7 +360,7 @@ void chunk_print(uint32_t pos, void* data, void* params) {
       char* str;                                                                     \
       struct chunk_s tmpchunk = {.code = tmpcode, .csize = tmpsize, .ccap = tmpcap}; \
       asprintf(&str, ##__VA_ARGS__);                                                 \
-      chunk_addcode(&tmpchunk, str, par->tok);                                       \
+      chunk_addcode(&tmpchunk, str, par->prevtok);                                   \
       free(str);                                                                     \
       tmpcode = tmpchunk.code;                                                       \
       tmpsize = tmpchunk.csize;                                                      \
@@ -364,11 +370,22 @@ void chunk_print(uint32_t pos, void* data, void* params) {
 /****************************************/
 /****************************************/
 
+/* Moves to the next token, remembering the current one */
+static void nexttok(buzzparser_t par) {
+   if(par->tok->type == BUZZTOK_STATEND) {
+      buzzlex_destroytok(&par->tok);
+   }
+   else {
+      if(par->prevtok) buzzlex_destroytok(&par->prevtok);
+      par->prevtok = par->tok;
+   }
+   par->tok = buzzlex_nexttok(par->lex);
+}
+
 #define fetchtok()                                                      \
    {                                                                    \
       do {                                                              \
-         buzzlex_destroytok(&par->tok);                                 \
-         par->tok = buzzlex_nexttok(par->lex);                          \
+         nexttok(par);                                                  \
       } while(par->tok->type != BUZZTOK_EOF && par->tok->type == BUZZTOK_STATEND); \
    }
 
@@ -924,13 +941,13 @@ int parse_expression(buzzparser_t par) {
          /* Consume the id */
          fetchtok();
          if(par->tok->type == BUZZTOK_ID) {
-            chunk_append("\tpushs %u", string_add(par->strings, par->tok->value));
+            chunk_append_tok("\tpushs %u", string_add(par->strings, par->tok->value));
          }
          else if(par->tok->type == BUZZTOK_CONST) {
             if(strchr(par->tok->value, '.')) {
-               chunk_append("\tpushf %s", par->tok->value);
+               chunk_append_tok("\tpushf %s", par->tok->value);
             } else {
-               chunk_append("\tpushi %s", par->tok->value);
+               chunk_append_tok("\tpushi %s", par->tok->value);
             }
          }
          else {
@@ -960,13 +977,13 @@ int parse_expression(buzzparser_t par) {
             tokmatch(BUZZTOK_DOT);
             fetchtok();
             if(par->tok->type == BUZZTOK_ID) {
-               chunk_append("\tpushs %u", string_add(par->strings, par->tok->value));
+               chunk_append_tok("\tpushs %u", string_add(par->strings, par->tok->value));
             }
             else if(par->tok->type == BUZZTOK_CONST) {
                if(strchr(par->tok->value, '.')) {
-                  chunk_append("\tpushf %s", par->tok->value);
+                  chunk_append_tok("\tpushf %s", par->tok->value);
                } else {
-                  chunk_append("\tpushi %s", par->tok->value);
+                  chunk_append_tok("\tpushi %s", par->tok->value);
                }
             }
             else {
@@ -1082,29 +1099,29 @@ int parse_bitwisenot(buzzparser_t par) {
 
 int parse_operand(buzzparser_t par) {
    if(par->tok->type == BUZZTOK_FUN) {
-      chunk_append("\tpushl " LABELREF "%u", par->labels);
+      chunk_append_tok("\tpushl " LABELREF "%u", par->labels);
       if(!parse_lambda(par)) return PARSE_ERROR;
       return PARSE_OK;
    }
    else if(par->tok->type == BUZZTOK_NIL) {
-      chunk_append("\tpushnil");
+      chunk_append_tok("\tpushnil");
       fetchtok();
       return PARSE_OK;
    }
    else if(par->tok->type == BUZZTOK_CONST) {
       if(strchr(par->tok->value, '.')) {
          /* Floating-point constant */
-         chunk_append("\tpushf %s", par->tok->value);
+         chunk_append_tok("\tpushf %s", par->tok->value);
       }
       else {
          /* Integer constant */
-         chunk_append("\tpushi %s", par->tok->value);
+         chunk_append_tok("\tpushi %s", par->tok->value);
       }
       fetchtok();
       return PARSE_OK;
    }
    else if(par->tok->type == BUZZTOK_STRING) {
-      chunk_append("\tpushs %u", string_add(par->strings, par->tok->value));
+      chunk_append_tok("\tpushs %u", string_add(par->strings, par->tok->value));
       fetchtok();
       return PARSE_OK;
    }
@@ -1121,11 +1138,11 @@ int parse_operand(buzzparser_t par) {
       if(par->tok->type == BUZZTOK_CONST) {
          if(strchr(par->tok->value, '.')) {
             /* Floating-point constant */
-            chunk_append("\tpushf %c%s", op, par->tok->value);
+            chunk_append_tok("\tpushf %c%s", op, par->tok->value);
          }
          else {
             /* Integer constant */
-            chunk_append("\tpushi %c%s", op, par->tok->value);
+            chunk_append_tok("\tpushi %c%s", op, par->tok->value);
          }
          fetchtok();
          return PARSE_OK;
@@ -1147,8 +1164,7 @@ int parse_command(buzzparser_t par) {
    if(par->tok->type == BUZZTOK_RETURN) {
       /* Return statement */
       /* Don't use fetchtok() because a newline or ; is meaningful here */
-      buzzlex_destroytok(&par->tok);
-      par->tok = buzzlex_nexttok(par->lex);
+      nexttok(par);
       if(par->tok->type == BUZZTOK_STATEND) {
          chunk_append("\tret0");
          fetchtok();
@@ -1425,6 +1441,9 @@ buzzparser_t buzzparser_new(int argc,
       free(par);
       return NULL;
    }
+   /* No tokens fetched yet */
+   par->tok = NULL;
+   par->prevtok = NULL;
    /* Initialize label counter */
    par->labels = 0;
    /* Initialize chunk list */
@@ -1480,6 +1499,7 @@ void buzzparser_destroy(buzzparser_t* par) {
    free((*par)->scriptfn);
    buzzlex_destroy(&((*par)->lex));
    if((*par)->tok) buzzlex_destroytok(&((*par)->tok));
+   if((*par)->prevtok) buzzlex_destroytok(&((*par)->prevtok));
    free(*par);
    *par = NULL;
 }
diff --git a/src/buzz/buzzparser.h b/src/buzz/buzzparser.h
index b546293..6845ed2 100644
--- a/src/buzz/buzzparser.h
+++ b/src/buzz/buzzparser.h
@@ -29,6 +29,8 @@ extern "C" {
       buzzlex_t lex;
       /* The last fetched token */
       buzztok_t tok;
+      /* The last parsed token */
+      buzztok_t prevtok;
       /* The list of chunks */
       buzzdarray_t chunks;
       /* The current chunk being written */
-- 
2.43.0


From 5c31c4b26cd0ee135a68bbd72f444bdd61ea4504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:52 +0000
Subject: [PATCH 60/67] fix: make buzzdebug_tofile() return 1 on success, as
 documented

---
 src/buzz/buzzdebug.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index f5317c3..7831938 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -188,7 +188,7 @@ int buzzdebug_tofile(const char* fname,
    buzzdict_foreach(dbg->off2script, buzzdebug_entry_dump, &i);
    /* Close file */
    fclose(fd);
-   return i.ok ? 0 : 1;
+   return i.ok;
 }
 
 /****************************************/
-- 
2.43.0


From a939dbf176baa53842e8eba882955848a7e85892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:53 +0000
Subject: [PATCH 61/67] fix: make room for the terminator of a 512-byte file
 name in debug information

---
 src/buzz/buzzdebug.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 7831938..64a1c4a 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -120,7 +120,8 @@ int buzzdebug_fromfile(buzzdebug_t dbg,
    /* Keep reading until you reach the end of the data or an error */
    uint32_t offset;
    uint64_t line, col;
-   uint16_t srcfnlen, srcfnlenmax = 512;
+   uint16_t srcfnlen;
+   uint32_t srcfnlenmax = 512;
    char* srcfname = (char*)malloc(srcfnlenmax);
    /* char fepmark; */
    while(!feof(fd) && !ferror(fd)) {
@@ -130,7 +131,7 @@ int buzzdebug_fromfile(buzzdebug_t dbg,
          fread(&col,      sizeof(col),      1, fd) == 1 &&
          fread(&srcfnlen, sizeof(srcfnlen), 1, fd) == 1) {
          /* Read source file name, resizing buffer if necessary */
-         if(srcfnlen > srcfnlenmax) {
+         if(srcfnlen >= srcfnlenmax) {
             srcfnlenmax = srcfnlen + 1;
             srcfname = realloc(srcfname, srcfnlenmax);
          }
-- 
2.43.0


From 5f2ef47f0ac81f239451f9bdfea53f1a40ea9f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:52 +0000
Subject: [PATCH 62/67] fix: io.fforeach pops its closure after the first line
 and ignores errors in it

---
 src/buzz/buzzio.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index e1d6a1f..90f519f 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -162,8 +162,7 @@ int buzzio_fforeach(buzzvm_t vm) {
    size_t cap; /* line buffer capacity */
    char* line = NULL;
    ssize_t len = getline(&line, &cap, f);
-   while(len >= 0 &&
-         vmstate == BUZZVM_STATE_READY) {
+   while(len >= 0) {
       /* Remove newline if present */
       if(line[len-1] == '\n') line[len-1] = '\0';
       /* Put closure on the stack (will be wiped by buzzvm_closure_call) */
@@ -172,16 +171,18 @@ int buzzio_fforeach(buzzvm_t vm) {
       buzzvm_pushs(vm, buzzvm_string_register(vm, line, 0));
       /* Call closure */
       vmstate = buzzvm_closure_call(vm, 1);
+      if(vmstate != BUZZVM_STATE_READY) break;
+      /* Remove the return value left by closure_call */
       buzzvm_pop(vm);
       /* Next line */
       len = getline(&line, &cap, f);
-      /* Remove the nil (return value) left by closure_call */
-      buzzvm_pop(vm);
    }
+   free(line);
+   /* Stop here if the closure failed */
+   if(vmstate != BUZZVM_STATE_READY) return vmstate;
    /* Register error information */
    buzzio_update_error(vm);
    /* All done */
-   free(line);
    return buzzvm_ret0(vm);
 }
 
-- 
2.43.0


From 2908e31b9a672ed1d1ee46c1f68bc618832923b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:55 +0000
Subject: [PATCH 63/67] fix: io functions report the error of an earlier
 operation

---
 src/buzz/buzzio.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index 90f519f..100fbdf 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -80,6 +80,7 @@ int buzzio_fopen(buzzvm_t vm) {
    const char* fmode = buzzvm_stack_at(vm, 1)->s.value.str;
    buzzvm_pop(vm);
    /* Try to open the file */
+   errno = 0;
    FILE* f = fopen(fname, fmode);
    /* Register error information */
    buzzio_update_error(vm);
@@ -116,6 +117,7 @@ int buzzio_fclose(buzzvm_t vm) {
    /* Get file handle */
    filehandle_get(f);
    /* Close the file */
+   errno = 0;
    fclose(f);
    /* Register error information */
    buzzio_update_error(vm);
@@ -131,6 +133,7 @@ int buzzio_fsize(buzzvm_t vm) {
    buzzvm_lnum_assert(vm, 1);
    /* Get file handle */
    filehandle_get(f);
+   errno = 0;
    /* Remember the current position */
    long int cur = ftell(f);
    /* Get the file size */
@@ -161,6 +164,8 @@ int buzzio_fforeach(buzzvm_t vm) {
    int vmstate = vm->state;
    size_t cap; /* line buffer capacity */
    char* line = NULL;
+   errno = 0;
+   clearerr(f);
    ssize_t len = getline(&line, &cap, f);
    while(len >= 0) {
       /* Remove newline if present */
@@ -175,6 +180,7 @@ int buzzio_fforeach(buzzvm_t vm) {
       /* Remove the return value left by closure_call */
       buzzvm_pop(vm);
       /* Next line */
+      errno = 0;
       len = getline(&line, &cap, f);
    }
    free(line);
@@ -202,6 +208,7 @@ int buzzio_fwrite(buzzvm_t vm) {
    int err = 0;
    /* Get file handle */
    filehandle_get(f);
+   errno = 0;
    /* Go through the arguments */
    for(int i = 2; err >= 0 && i <= buzzvm_lnum(vm); ++i) {
       /* Get argument */
-- 
2.43.0


From 65deb0fc8c1fd13ee234d0ca7122203fa89146a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:09 +0000
Subject: [PATCH 64/67] fix: io functions accept anything as a file handle, and
 closed handles

---
 src/buzz/buzzio.c | 67 +++++++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index 100fbdf..4c78efa 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -12,12 +12,15 @@
    buzzvm_pushcc(vm, buzzvm_function_register(vm, buzzio_ ## FNAME));   \
    buzzvm_tput(vm);
 
+/* Leaves the handle of the file passed as first parameter in VAR; its
+ * value is NULL if the file has been closed */
 #define filehandle_get(VAR)                                   \
    buzzvm_lload(vm, 1);                                       \
    buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);                 \
    buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1)); \
    buzzvm_tget(vm);                                           \
-   FILE* VAR = buzzvm_stack_at(vm, 1)->u.value;               \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_USERDATA);              \
+   buzzobj_t VAR = buzzvm_stack_at(vm, 1);                    \
    buzzvm_pop(vm);
 
 /****************************************/
@@ -115,10 +118,14 @@ int buzzio_fclose(buzzvm_t vm) {
    /* Make sure there is one parameter */
    buzzvm_lnum_assert(vm, 1);
    /* Get file handle */
-   filehandle_get(f);
+   filehandle_get(h);
    /* Close the file */
    errno = 0;
-   fclose(f);
+   if(h->u.value) {
+      fclose((FILE*)h->u.value);
+      h->u.value = NULL;
+   }
+   else errno = EBADF;
    /* Register error information */
    buzzio_update_error(vm);
    /* All done */
@@ -132,15 +139,20 @@ int buzzio_fsize(buzzvm_t vm) {
    /* Make sure there are is one parameter */
    buzzvm_lnum_assert(vm, 1);
    /* Get file handle */
-   filehandle_get(f);
+   filehandle_get(h);
+   FILE* f = h->u.value;
+   long int sz = -1;
    errno = 0;
-   /* Remember the current position */
-   long int cur = ftell(f);
-   /* Get the file size */
-   fseek(f, 0, SEEK_END);
-   long int sz = ftell(f);
-   /* Go back to saved position */
-   fseek(f, cur, SEEK_SET);
+   if(f) {
+      /* Remember the current position */
+      long int cur = ftell(f);
+      /* Get the file size */
+      fseek(f, 0, SEEK_END);
+      sz = ftell(f);
+      /* Go back to saved position */
+      fseek(f, cur, SEEK_SET);
+   }
+   else errno = EBADF;
    /* Put size on the stack */
    buzzvm_pushi(vm, sz);
    /* Register error information */
@@ -155,19 +167,26 @@ int buzzio_fsize(buzzvm_t vm) {
 int buzzio_fforeach(buzzvm_t vm) {
    /* Make sure there are two parameters */
    buzzvm_lnum_assert(vm, 2);
-   /* Get file handle */
-   filehandle_get(f);
+   /* Get file handle, keep it on the stack */
+   filehandle_get(h);
+   buzzvm_push(vm, h);
    /* Get closure */
    buzzvm_lload(vm, 2);
    buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
-   /* Go through the file lines */
+   /* Go through the file lines; the closure might close the file */
    int vmstate = vm->state;
-   size_t cap; /* line buffer capacity */
+   size_t cap = 0; /* line buffer capacity */
    char* line = NULL;
-   errno = 0;
-   clearerr(f);
-   ssize_t len = getline(&line, &cap, f);
-   while(len >= 0) {
+   while(1) {
+      errno = 0;
+      if(!h->u.value) {
+         errno = EBADF;
+         break;
+      }
+      /* Get the next line; past failures do not count */
+      clearerr((FILE*)h->u.value);
+      ssize_t len = getline(&line, &cap, (FILE*)h->u.value);
+      if(len < 0) break;
       /* Remove newline if present */
       if(line[len-1] == '\n') line[len-1] = '\0';
       /* Put closure on the stack (will be wiped by buzzvm_closure_call) */
@@ -179,9 +198,6 @@ int buzzio_fforeach(buzzvm_t vm) {
       if(vmstate != BUZZVM_STATE_READY) break;
       /* Remove the return value left by closure_call */
       buzzvm_pop(vm);
-      /* Next line */
-      errno = 0;
-      len = getline(&line, &cap, f);
    }
    free(line);
    /* Stop here if the closure failed */
@@ -207,8 +223,13 @@ int buzzio_fwrite(buzzvm_t vm) {
    /* Used to store the return value of fprintf */
    int err = 0;
    /* Get file handle */
-   filehandle_get(f);
+   filehandle_get(h);
+   FILE* f = h->u.value;
    errno = 0;
+   if(!f) {
+      errno = EBADF;
+      err = -1;
+   }
    /* Go through the arguments */
    for(int i = 2; err >= 0 && i <= buzzvm_lnum(vm); ++i) {
       /* Get argument */
-- 
2.43.0


From 20ce04b9c07ee3601a22af379f01fbd602994fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:32 +0000
Subject: [PATCH 65/67] fix: arrows.run executes only the last operation of a
 sequence

---
 src/include/arrows.bzz | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/include/arrows.bzz b/src/include/arrows.bzz
index d779f4f..b5468ba 100644
--- a/src/include/arrows.bzz
+++ b/src/include/arrows.bzz
@@ -26,8 +26,11 @@ arrows.wrap = function(f) {
   return {
     .f = f,
     .next = function(f) {
-      self.n = arrows.wrap(f)
-      return self.n
+      # Append to the end of the sequence, whose start is self
+      var last = self
+      while(last.n) last = last.n
+      last.n = arrows.wrap(f)
+      return self
     }
   }
 }
-- 
2.43.0


From df86a1fecd9668c618bb47dfacdda3cb70a3e525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:05 +0000
Subject: [PATCH 66/67] fix: buzzdebug_continue never leaves the breakpoint it
 stopped at

---
 src/buzz/buzzdebug.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 64a1c4a..bce18d7 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -284,15 +284,20 @@ buzzvm_state buzzdebug_continue(buzzvm_t vm,
                                 buzzdebug_t dbg) {
    /* Make sure the VM is either ready or stopped */
    if(vm->state != BUZZVM_STATE_READY) {
-      if(vm->state == BUZZVM_STATE_STOPPED)
+      if(vm->state == BUZZVM_STATE_STOPPED) {
          vm->state = BUZZVM_STATE_READY;
+         /* Execute the instruction at which the VM was stopped */
+         buzzvm_step(vm);
+      }
       else return vm->state;
    }
    /* Go on until the end, an error, or a breakpoint */
-   while(!buzzdebug_breakpoint_exists(dbg, vm->pc) &&
-         buzzvm_step(vm) == BUZZVM_STATE_READY);
-   if(buzzdebug_breakpoint_exists(dbg, vm->pc))
-      vm->state = BUZZVM_STATE_STOPPED;
+   while(vm->state == BUZZVM_STATE_READY) {
+      if(buzzdebug_breakpoint_exists(dbg, vm->pc))
+         vm->state = BUZZVM_STATE_STOPPED;
+      else
+         buzzvm_step(vm);
+   }
    return vm->state;
 }
 
-- 
2.43.0


From 2750da8eed7f170c26afc472dcb8b08bf63e9ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 67/67] fix: keep the whole source file name in the debug
 information

A name with a comma or a vertical bar was cut at that character.
---
 src/buzz/buzzasm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index 20a42ca..05629e2 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -224,13 +224,13 @@ int buzz_asm(const char* fname,
       if(*trimline == '@') {
          /* Parse label and debug info */
          char* labelinfo = strsep(&trimline, "|\n");
-         char* debuginfo = strsep(&trimline, "|\n");
+         char* debuginfo = strsep(&trimline, "\n");
          /* Add debug information, if any */
          if(debuginfo && *debuginfo) {
             /* Parse line and column data */
             char* line = strsep(&debuginfo, ",\n");
             char* col = strsep(&debuginfo, ",\n");
-            char* srcfname = strsep(&debuginfo, ",\n");
+            char* srcfname = strsep(&debuginfo, "\n");
             if(srcfname) {
                uint64_t l = 0;
                uint64_t c = 0;
@@ -250,7 +250,7 @@ int buzz_asm(const char* fname,
       }
       /* Fetch the instruction */
       char* instrinfo = strsep(&trimline, "|\n");
-      char* debuginfo = strsep(&trimline, "|\n");
+      char* debuginfo = strsep(&trimline, "\n");
       char* instr = strsep(&instrinfo, " \n\t");
       char* argstr = strsep(&instrinfo, " \n\t");
       /* Add debug information, if any */
@@ -258,7 +258,7 @@ int buzz_asm(const char* fname,
          /* Parse line and column data */
          char* line = strsep(&debuginfo, ",\n");
          char* col = strsep(&debuginfo, ",\n");
-         char* srcfname = strsep(&debuginfo, ",\n");
+         char* srcfname = strsep(&debuginfo, "\n");
          if(srcfname) {
             uint64_t l = 0;
             uint64_t c = 0;
-- 
2.43.0

