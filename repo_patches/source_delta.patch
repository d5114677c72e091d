From e403231fb0a5359c588b7014a6ac549341b92025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 01/25] fix: ask the system for the NUMA node of a core instead
 of dividing by a node size that may be zero

---
 libconcurrent/primitives/threadtools.c | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 63823d1..894c7b5 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -88,6 +88,8 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
         uint32_t nodes = numa_num_task_nodes();
         uint32_t node_size = ncpus / nodes;
 
+        if (node_size == 0) // there are NUMA nodes without processors
+            node_size = 1;
         if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_SPARSE) {
             if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
                 uint32_t half_node_size = node_size / 2;
@@ -129,21 +131,10 @@ inline uint32_t synchPreferredNumaNodeOfThread(uint32_t pid) {
     uint32_t preferred_node = 0;
 
 #ifdef SYNCH_NUMA_SUPPORT
-    uint32_t preferred_core = synchPreferredCoreOfThread(pid);
-    uint32_t ncpus = synchGetNCores();
-    uint32_t nodes = numa_num_task_nodes();
-    uint32_t node_size = ncpus / nodes;
-
-    if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
-        uint32_t half_node_size = node_size / 2;
-
-        if (preferred_core < ncpus / 2)
-            preferred_node = preferred_core/half_node_size;
-        else 
-            preferred_node = (preferred_core - (ncpus/2))/half_node_size;
-    } else {
-        preferred_node = preferred_core/node_size;
-    }
+    int node = numa_node_of_cpu(synchPreferredCoreOfThread(pid));
+
+    if (node >= 0)
+        preferred_node = node;
 #else
     preferred_node = 0;
 #endif
-- 
2.43.0


From 20bf650c29357abf7b93a1fe1267dba2c2ff8c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 02/25] fix: SPARSE_SMT_PREFER placement puts threads on the
 same core although other cores are free

---
 libconcurrent/primitives/threadtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 894c7b5..614fd41 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -108,7 +108,7 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
                 uint32_t double_nodes = 2 * nodes;
                 uint32_t half_node_size = node_size / 2;
 
-                preferred_core = (pid % node_size) * half_node_size + (pid / double_nodes);
+                preferred_core = (pid % double_nodes) * half_node_size + (pid / double_nodes);
             } else preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_DENSE) {
             preferred_core = pid;
-- 
2.43.0


From 13dbe2379878d30d24c689d475070f4a3b40561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 03/25] fix: scheduling mode of an earlier run survives in
 later synchStartThreadsN calls, fibers then never yield

---
 libconcurrent/primitives/threadtools.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 614fd41..ad7a07d 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -202,6 +202,7 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
         __uthreads = uthreads;
         __uthread_sched = true;
         __system_oversubscription = true;
+        __noop_resched = false;
         synchBarrierSet(&bar, nthreads / uthreads + 1);
         for (i = 0; i < (nthreads / uthreads) - 1; i++) {
             last_thread_id = pthread_create(&__threads[i], NULL, uthreadWrapper, (void *)(i * uthreads));
@@ -214,10 +215,8 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
         uthreadWrapper((void *)(i * uthreads));
     } else {
         __uthread_sched = false;
-        if (__nthreads > __ncores)
-            __system_oversubscription = true;
-        else
-            __noop_resched = true;
+        __system_oversubscription = __nthreads > __ncores;
+        __noop_resched = !__system_oversubscription;
         synchBarrierSet(&bar, nthreads + 1);
         for (i = 0; i < nthreads - 1; i++) {
             last_thread_id = pthread_create(&__threads[i], NULL, kthreadWrapper, (void *)i);
-- 
2.43.0


From 634ee7ac5bd9508c93df04278782ba9ed78a1bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 04/25] fix: synchBarrierLastLeave returns before every thread
 has left the barrier

---
 libconcurrent/primitives/barrier.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/barrier.c b/libconcurrent/primitives/barrier.c
index 4cee31a..b5c1213 100644
--- a/libconcurrent/primitives/barrier.c
+++ b/libconcurrent/primitives/barrier.c
@@ -45,7 +45,7 @@ inline void synchBarrierLeave(SynchBarrier *bar) {
 
 inline void synchBarrierLastLeave(SynchBarrier *bar) {
     synchBarrierLeave(bar);
-    while (bar->arrive != 0 && bar->leave != 0) {
+    while (bar->arrive != 0 || bar->leave != 0) {
         synchResched();
     }
 }
-- 
2.43.0


From 00e70ddfeef8b6ff80c95ffb4fd492c1ab230cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 05/25] fix: flat-combining applies a request with the
 combiner's pid instead of the requester's

---
 libconcurrent/concurrent/fc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/fc.c b/libconcurrent/concurrent/fc.c
index 316331f..92beb34 100644
--- a/libconcurrent/concurrent/fc.c
+++ b/libconcurrent/concurrent/fc.c
@@ -82,7 +82,7 @@ RetVal FCApplyOp(FCStruct *lock, FCThreadState *st_thread, RetVal (*sfunc)(void
     for (i = 0; i < FC_COMBINING_ROUNDS; i++) {
         for (cur = lock->head; cur != NULL; cur = cur->next) {
             if (cur->pending) {
-                cur->val = sfunc(state, cur->val, pid);
+                cur->val = sfunc(state, cur->val, cur - lock->nodes);
                 synchNonTSOFence();
                 cur->pending = false;
                 cur->age = count;
-- 
2.43.0


From ee7f1a3b09c2c0be1a80e630bb171b4b342d8839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 06/25] fix: FC-Queue enqueues the pid instead of the value,
 returns dequeued nodes' old guard value and never recycles nodes

---
 libconcurrent/concurrent/fcqueue.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/libconcurrent/concurrent/fcqueue.c b/libconcurrent/concurrent/fcqueue.c
index b5d0faf..4423b8c 100644
--- a/libconcurrent/concurrent/fcqueue.c
+++ b/libconcurrent/concurrent/fcqueue.c
@@ -7,13 +7,12 @@
 inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid);
 inline static RetVal serialDequeue(void *state, ArgVal arg, int pid);
 
-static const int GUARD = INT_MIN;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void FCQueueStructInit(FCQueueStruct *queue_object_struct, uint32_t nthreads) {
     FCStructInit(&queue_object_struct->enqueue_struct, nthreads);
     FCStructInit(&queue_object_struct->dequeue_struct, nthreads);
-    queue_object_struct->guard.val = GUARD;
+    queue_object_struct->guard.val = GUARD_VALUE;
     queue_object_struct->guard.next = NULL;
     queue_object_struct->first = &queue_object_struct->guard;
     queue_object_struct->last = &queue_object_struct->guard;
@@ -34,23 +33,28 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     node->val = arg;
     st->last->next = node;
     st->last = node;
-    return -1;
+    synchNonTSOFence();
+    return ENQUEUE_SUCCESS;
 }
 
 inline static RetVal serialDequeue(void *state, ArgVal arg, int pid) {
     FCQueueStruct *st = (FCQueueStruct *)state;
-    Node *node = (Node *)st->first;
-    
+    volatile Node *node, *prev;
+
     if (st->first->next != NULL){
+        prev = st->first;
         st->first = st->first->next;
+        node = st->first;
+        synchNonTSOFence();
+        synchRecycleObj(&pool_node, (Node *)prev);
         return node->val;
     } else {
-        return -1;
+        return EMPTY_QUEUE;
     }
 }
 
 void FCQueueApplyEnqueue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, ArgVal arg, int pid) {
-    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, (ArgVal) pid, pid);
+    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, (ArgVal) arg, pid);
 }
 
 RetVal FCQueueApplyDequeue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, int pid) {
-- 
2.43.0


From c0d28dc60fe4e62fbedb095a99eaf1eeb667ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 07/25] fix: FC-Stack reports an empty stack as -1 instead of
 EMPTY_STACK and never recycles nodes

---
 libconcurrent/concurrent/fcstack.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index 9d58279..e9e209f 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -24,9 +24,13 @@ inline static RetVal serialPushPop(void *state, ArgVal arg, int pid) {
         volatile Node *node = st->top;
 
         if (st->top != NULL) {
+            RetVal ret = node->val;
             st->top = st->top->next;
-            return node->val;
-        } else return -1;
+            synchNonTSOFence();
+            synchRecycleObj(&pool_node, (void *)node);
+            return ret;
+        } else
+            return EMPTY_STACK;
     } else {
         FCStackStruct *st = (FCStackStruct *)state;
         Node *node;
@@ -35,8 +39,9 @@ inline static RetVal serialPushPop(void *state, ArgVal arg, int pid) {
         node->next = st->top;
         node->val = arg;
         st->top = node;
+        synchNonTSOFence();
  
-        return 0;
+        return PUSH_SUCCESS;
     }
 }
 
-- 
2.43.0


From 8347e2c3554086b9dfd5968ddfbea4aa6e57b35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 08/25] fix: pushing INT_MIN on a combining stack pops an
 element (use the reserved guard value for pop requests)

---
 libconcurrent/concurrent/ccstack.c   | 2 +-
 libconcurrent/concurrent/dsmstack.c  | 2 +-
 libconcurrent/concurrent/fcstack.c   | 2 +-
 libconcurrent/concurrent/hstack.c    | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/concurrent/ccstack.c b/libconcurrent/concurrent/ccstack.c
index 03f49f1..abf9a8f 100644
--- a/libconcurrent/concurrent/ccstack.c
+++ b/libconcurrent/concurrent/ccstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void CCStackInit(CCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/dsmstack.c b/libconcurrent/concurrent/dsmstack.c
index e5fad18..231294e 100644
--- a/libconcurrent/concurrent/dsmstack.c
+++ b/libconcurrent/concurrent/dsmstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void DSMSStackInit(DSMStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index e9e209f..dd79ccf 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -4,7 +4,7 @@
 #include <pool.h>
 #include <queue-stack.h>
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void FCStackInit(FCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/hstack.c b/libconcurrent/concurrent/hstack.c
index 9a382da..ba9371b 100644
--- a/libconcurrent/concurrent/hstack.c
+++ b/libconcurrent/concurrent/hstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void HStackInit(HStackStruct *stack_object_struct, uint32_t nthreads, uint32_t numa_nodes) {
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index e4193b4..08e06d6 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-- 
2.43.0


From 3f7be4d02563e87695bccaccbfc6376d9f85998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 09/25] fix: deleting the second key of a hash cell also drops
 the first one

---
 libconcurrent/concurrent/clhhash.c | 2 +-
 libconcurrent/concurrent/dsmhash.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index b053460..dab189a 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -74,7 +74,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (cur != top)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index b3ac042..6789356 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -77,7 +77,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (cur != top)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
-- 
2.43.0


From e9df38ed05b83646427a1d9df72648634e8d1d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 10/25] fix: negative hash keys select a cell outside the table

---
 libconcurrent/concurrent/clhhash.c | 2 +-
 libconcurrent/concurrent/dsmhash.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index dab189a..4115287 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -25,7 +25,7 @@ inline void CLHHashThreadStateInit(CLHHash *hash, CLHHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(CLHHash *hash, int64_t key) {
-    return key % hash->size;
+    return (uint64_t)key % hash->size;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index 6789356..2f8b5ae 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -29,7 +29,7 @@ inline void DSMHashThreadStateInit(DSMHash *hash, DSMHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(DSMHash *hash, int64_t key) {
-    return key % hash->size;
+    return (uint64_t)key % hash->size;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
-- 
2.43.0


From e6614480a32b82f7294326b1323573fd9e9ef1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 11/25] fix: OsciQueue and OsciStack index their pools by
 thread id but allocate only one per group of fibers

---
 libconcurrent/concurrent/osciqueue.c | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/osciqueue.c b/libconcurrent/concurrent/osciqueue.c
index 0e43ece..ca8157a 100644
--- a/libconcurrent/concurrent/osciqueue.c
+++ b/libconcurrent/concurrent/osciqueue.c
@@ -7,7 +7,7 @@ inline static RetVal serialDequeue(void *state, ArgVal arg, int pid);
 void OsciQueueInit(OsciQueueStruct *queue_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(queue_object_struct->enqueue_struct), nthreads, fibers_per_thread);
     OsciInit(&queue_object_struct->dequeue_struct, nthreads, fibers_per_thread);
-    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, queue_object_struct->enqueue_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, queue_object_struct->enqueue_struct.nthreads * sizeof(SynchPoolStruct));
     queue_object_struct->guard.val = GUARD_VALUE;
     queue_object_struct->guard.next = NULL;
     queue_object_struct->first = &queue_object_struct->guard;
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index 08e06d6..34759b7 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -7,7 +7,7 @@ static const ArgVal POP_OP = GUARD_VALUE;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, stack_object_struct->object_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, stack_object_struct->object_struct.nthreads * sizeof(SynchPoolStruct));
     stack_object_struct->top = NULL;
 }
 
-- 
2.43.0


From e19a8dd42bf686812441a71e65bb3d5042cc75c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 12/25] fix: SimQueue copies the pointer to the return values,
 so that all states share one array and dequeues return wrong values

---
 libconcurrent/includes/simqueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/includes/simqueue.h b/libconcurrent/includes/simqueue.h
index b0deecc..5dc7cf3 100644
--- a/libconcurrent/includes/simqueue.h
+++ b/libconcurrent/includes/simqueue.h
@@ -41,12 +41,12 @@ typedef struct EnqState {
 typedef struct DeqState {
     /// @brief The applied vector of toggles.
     ToggleVector applied;
+    /// @brief A pointer to the array of return values.
+    RetVal *ret;
     /// @brief In case you want to copy this struct, start from here.
     uint64_t copy_point;
     /// @brief A pointer to the head of the queue.
     Node *head;
-    /// @brief A pointer to the array of return values.
-    RetVal *ret;
 #ifdef DEBUG
     int32_t counter;
 #endif
-- 
2.43.0


From 38029bf94fff389c812afa5460391651c2972bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 13/25] fix: H-Synch keeps the NUMA region of a thread per
 object, inside the object's regions, and sizes regions for all threads

---
 libconcurrent/concurrent/hsynch.c | 15 ++++++++-------
 libconcurrent/includes/hsynch.h   |  2 ++
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/libconcurrent/concurrent/hsynch.c b/libconcurrent/concurrent/hsynch.c
index bb58103..d9ed9b2 100644
--- a/libconcurrent/concurrent/hsynch.c
+++ b/libconcurrent/concurrent/hsynch.c
@@ -10,8 +10,6 @@
 #define HSYNCH_HELP_FACTOR            10
 #define HSYNCH_DEFAULT_NUMA_NODE_SIZE 8
 
-static __thread int node_of_thread = 0;
-
 RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfunc)(void *, ArgVal, int), void *state, ArgVal arg, int pid) {
     volatile HSynchNode *p;
     volatile HSynchNode *cur;
@@ -24,7 +22,7 @@ RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfu
     next_node->locked = true;
     next_node->completed = false;
 
-    cur = (volatile HSynchNode *)synchSWAP(&l->Tail[node_of_thread].ptr, next_node);
+    cur = (volatile HSynchNode *)synchSWAP(&l->Tail[st_thread->numa_node].ptr, next_node);
     cur->arg_ret = arg;
     cur->pid = pid;
     cur->next = (HSynchNode *)next_node;
@@ -71,6 +69,7 @@ RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfu
 void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pid) {
     HSynchNode *last_node = NULL;
     uint32_t node_index = 0;
+    int node_of_thread = 0;
 
 #ifdef SYNCH_NUMA_SUPPORT
     if (l->numa_policy) {
@@ -98,18 +97,20 @@ void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pi
     node_of_thread = pid / l->numa_node_size;
 #endif
 
+    node_of_thread %= l->numa_nodes;
+    st_thread->numa_node = node_of_thread;
     if (l->nodes[node_of_thread] == NULL) {
-        HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->numa_node_size + 2) * sizeof(HSynchNode));
+        HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->nthreads + 2) * sizeof(HSynchNode));
 
-        last_node = &ptr[l->numa_node_size + 1];
+        last_node = &ptr[l->nthreads + 1];
         last_node->next = NULL;
         last_node->locked = false;
         last_node->completed = false;
 
         if (synchCASPTR(&l->nodes[node_of_thread], NULL, ptr) == false) 
-            synchFreeMemory(ptr, (l->numa_node_size + 2) * sizeof(HSynchNode));
+            synchFreeMemory(ptr, (l->nthreads + 2) * sizeof(HSynchNode));
     }
-    last_node = l->nodes[node_of_thread] + l->numa_node_size + 1;
+    last_node = l->nodes[node_of_thread] + l->nthreads + 1;
     synchCASPTR(&l->Tail[node_of_thread].ptr, NULL, last_node);
     node_index = synchFAA32(&l->node_indexes[node_of_thread], 1);
     st_thread->next_node = l->nodes[node_of_thread] + node_index;
diff --git a/libconcurrent/includes/hsynch.h b/libconcurrent/includes/hsynch.h
index 69df39f..112b359 100644
--- a/libconcurrent/includes/hsynch.h
+++ b/libconcurrent/includes/hsynch.h
@@ -62,6 +62,8 @@ typedef union HSynchNodePtr {
 typedef struct HSynchThreadState {
     /// @brief pointer to an empty request that would be used for announcing future requests.
     HSynchNode *next_node;
+    /// @brief The NUMA region of the object where the thread announces its requests.
+    int32_t numa_node;
 } HSynchThreadState;
 
 ///  @brief HSynchStruct stores the state of an instance of the a HSynch combining object.
-- 
2.43.0


From f975fcc3440accc40fdfc34a86ce478574aaff19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 14/25] fix: SPARSE_SMT_PREFER placement shares cores while
 others are free when a node has an odd number of cores

---
 libconcurrent/primitives/threadtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index ad7a07d..383f941 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -106,7 +106,7 @@ inline uint32_t synchPreferredCoreOfThread(uint32_t pid) {
         } else if (__schedule_policy == SYNCH_THREAD_PLACEMENT_NUMA_SPARSE_SMT_PREFER) {
             if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
                 uint32_t double_nodes = 2 * nodes;
-                uint32_t half_node_size = node_size / 2;
+                uint32_t half_node_size = (node_size + 1) / 2;
 
                 preferred_core = (pid % double_nodes) * half_node_size + (pid / double_nodes);
             } else preferred_core = (pid / nodes) + (pid % nodes) * (node_size);
-- 
2.43.0


From 78c38e30e2dab2618890a52473687d057fdaf6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 15/25] fix: pool never links its second and later blocks, so
 destroying it leaks them and rollback re-allocates them

---
 libconcurrent/primitives/pool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libconcurrent/primitives/pool.c b/libconcurrent/primitives/pool.c
index a4b4a1b..e54b041 100644
--- a/libconcurrent/primitives/pool.c
+++ b/libconcurrent/primitives/pool.c
@@ -58,6 +58,7 @@ void *synchAllocObj(SynchPoolStruct *pool) {
             } else {
                 SynchPoolBlock *new_block = get_new_block(pool->obj_size);
                 new_block->metadata.back = pool->cur_block;
+                pool->cur_block->metadata.next = new_block;
                 pool->cur_block = new_block;
             }
             ret = synchAllocObj(pool);
-- 
2.43.0


From ada9f9da49a5d23ac1b08a9b1bb15af67bba3036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 16/25] fix: synchGetAlignedMemory turns a refused NUMA
 allocation into a wild pointer and returns addresses that numa_free rejects

---
 libconcurrent/primitives/primitives.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/primitives/primitives.c b/libconcurrent/primitives/primitives.c
index 377f726..a63c9b9 100644
--- a/libconcurrent/primitives/primitives.c
+++ b/libconcurrent/primitives/primitives.c
@@ -159,11 +159,13 @@ inline void *synchGetAlignedMemory(size_t align, size_t size) {
     void *p;
 
 #ifdef SYNCH_NUMA_SUPPORT
-    p = numa_alloc_local(size + align);
-    long plong = (long)p;
-    plong += align;
-    plong &= ~(align - 1);
-    p = (void *)plong;
+    p = numa_alloc_local(size); // page-aligned memory
+    if (((uintptr_t)p & (align - 1)) != 0) { // an alignment larger than a page is requested
+        numa_free(p, size);
+        p = numa_alloc_local(size + align);
+        if (p != NULL)
+            p = (void *)(((uintptr_t)p + align) & ~(uintptr_t)(align - 1));
+    }
 #else
     p = (void *)memalign(align, size);
 #endif
-- 
2.43.0


From 0a765d63685fb0c2e6b3a9f5c72abc0778c3eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 17/25] fix: stacks of finished fibers leak or are released
 with a wrong size

---
 libconcurrent/primitives/uthreads.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index c60c44c..3401a9b 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -42,6 +42,15 @@ inline static void switch_to_fiber(Fiber *prev, Fiber *cur) {
     }
 }
 
+// Releases the stack of a fiber that has just finished. Should be
+// called by the fiber that takes control, right after the switch.
+inline static void free_finished_fiber(void) {
+    if (FIBER_RECYCLE != NULL) {
+        synchFreeMemory(FIBER_RECYCLE, FIBER_STACK);
+        FIBER_RECYCLE = NULL;
+    }
+}
+
 void synchFiberYield(void) {
     int prev_fiber;
 
@@ -53,10 +62,7 @@ void synchFiberYield(void) {
         currentFiber = (currentFiber + 1) % MAX_FIBERS;
     } while (FIBER_LIST[currentFiber].active == false);
     switch_to_fiber(&FIBER_LIST[prev_fiber], &FIBER_LIST[currentFiber]);
-    if (FIBER_RECYCLE != NULL) {
-        synchFreeMemory(FIBER_RECYCLE, sizeof(Fiber));
-        FIBER_RECYCLE = NULL;
-    }
+    free_finished_fiber();
 }
 
 static void fiber_start_func(FiberData *context) {
@@ -69,6 +75,7 @@ static void fiber_start_func(FiberData *context) {
     arg = context->arg;
     if (_setjmp(*(context->cur)) == 0)
         swapcontext(&tmp, context->prev);
+    free_finished_fiber();
 
     func((void *)arg); // Execute fiber with function func
     if (N_FIBERS == 1) // This check is not useful, since
-- 
2.43.0


From eba21ff47af565991e24afcd5cc070db6aab873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 18/25] fix: a fiber spawned after another one has finished may
 overwrite a fiber that is still running

---
 libconcurrent/primitives/uthreads.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index 3401a9b..ea5953b 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -93,23 +93,26 @@ static void fiber_start_func(FiberData *context) {
 int synchSpawnFiber(void *(*func)(void *), long arg) {
     ucontext_t tmp;
     FiberData context;
+    int slot = 1;
 
     if (N_FIBERS == MAX_FIBERS)
         return -1;
+    while (FIBER_LIST[slot].active) // slots of finished fibers are reused
+        slot++;
 
-    getcontext(&(FIBER_LIST[N_FIBERS].context));
-    FIBER_LIST[N_FIBERS].active = true;
-    FIBER_LIST[N_FIBERS].context.uc_link = NULL;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_size = FIBER_STACK;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_flags = 0;
+    getcontext(&(FIBER_LIST[slot].context));
+    FIBER_LIST[slot].active = true;
+    FIBER_LIST[slot].context.uc_link = NULL;
+    FIBER_LIST[slot].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
+    FIBER_LIST[slot].context.uc_stack.ss_size = FIBER_STACK;
+    FIBER_LIST[slot].context.uc_stack.ss_flags = 0;
 
     context.func = func;
     context.arg = arg;
-    context.cur = &FIBER_LIST[N_FIBERS].jmp;
+    context.cur = &FIBER_LIST[slot].jmp;
     context.prev = &tmp;
-    makecontext(&FIBER_LIST[N_FIBERS].context, (void (*)())fiber_start_func, 1, &context);
-    swapcontext(&tmp, &FIBER_LIST[N_FIBERS].context);
+    makecontext(&FIBER_LIST[slot].context, (void (*)())fiber_start_func, 1, &context);
+    swapcontext(&tmp, &FIBER_LIST[slot].context);
     N_FIBERS++;
     return 1;
 }
-- 
2.43.0


From 49e65a443819dda112bf3ff9e1606ec23b51f9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:48 +0000
Subject: [PATCH 19/25] fix: emulated Fetch&Add re-reads the shared word on
 each attempt

The cast qualified the pointer and not the word it points to, so the compiler
was free to load the word once, outside the retry loop; with gcc -O3 it does,
and an operation that loses a race retries for ever.
---
 libconcurrent/primitives/primitives.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/primitives/primitives.c b/libconcurrent/primitives/primitives.c
index a63c9b9..5e4226e 100644
--- a/libconcurrent/primitives/primitives.c
+++ b/libconcurrent/primitives/primitives.c
@@ -304,7 +304,7 @@ inline int32_t _FAA32(volatile int32_t *A, int32_t B) {
     int32_t new_val;
 
     while (true) {
-        old_val = *((int32_t *volatile)A);
+        old_val = *((volatile int32_t *)A);
         new_val = old_val + B;
         if (*A == old_val && synchCAS32(A, old_val, new_val) == true) break;
     }
@@ -330,7 +330,7 @@ inline int64_t _FAA64(volatile int64_t *A, int64_t B) {
     int64_t new_val;
 
     while (true) {
-        old_val = *((int64_t *volatile)A);
+        old_val = *((volatile int64_t *)A);
         new_val = old_val + B;
         if (*A == old_val && synchCAS64(A, old_val, new_val) == true) break;
     }
-- 
2.43.0


From a026eedeb4660692891353faacce827eacde8656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:36 +0000
Subject: [PATCH 20/25] fix: CLHHashSearch and CLHHashDelete take a node from
 the pool that they never use

---
 libconcurrent/concurrent/clhhash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index 4115287..ddebab8 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -121,7 +121,7 @@ inline RetVal CLHHashSearch(CLHHash *hash, CLHHashThreadState *th_state, int64_t
     args.key = key;
     args.value = INT_MIN;
     args.cell = hash_func(hash, key);
-    args.node = synchAllocObj(&th_state->pool);
+    args.node = NULL;
     hash->announce[pid] = args;
 
     CLHLock(hash->synch[args.cell], pid);
@@ -138,7 +138,7 @@ inline void CLHHashDelete(CLHHash *hash, CLHHashThreadState *th_state, int64_t k
     args.key = key;
     args.value = INT_MIN;
     args.cell = hash_func(hash, key);
-    args.node = synchAllocObj(&th_state->pool);
+    args.node = NULL;
     hash->announce[pid] = args;
 
     CLHLock(hash->synch[args.cell], pid);
-- 
2.43.0


From d7f91f2020b82cd590a771f42b77119e8fccb829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:36 +0000
Subject: [PATCH 21/25] fix: synchSWAP orders the stores before it on machines
 without total store order

__sync_lock_test_and_set is an acquire barrier only; the node that DSM-Synch, CLH and the hash tables
announce with it could be seen by others before its fields were written.
---
 libconcurrent/primitives/primitives.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libconcurrent/primitives/primitives.c b/libconcurrent/primitives/primitives.c
index 5e4226e..52c5126 100644
--- a/libconcurrent/primitives/primitives.c
+++ b/libconcurrent/primitives/primitives.c
@@ -287,6 +287,8 @@ inline void *_SWAP(void *A, void *B) {
 #    endif
     return old_val;
 #else
+    // __sync_lock_test_and_set is an acquire barrier only, the stores before it have to be ordered as well
+    synchNonTSOFence();
 #    ifdef DEBUG
     __executed_swap++;
     return (void *)__SWAP(A, B);
-- 
2.43.0


From 136197bd70c86dac9a7315fc945ddacf23d46ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:36 +0000
Subject: [PATCH 22/25] fix: enqueue writes the element before it links it on
 machines without total store order

Dequeuers run concurrently with enqueuers in the queues with two combining instances and could read the
value or the next pointer of the node before they were written.
---
 libconcurrent/concurrent/ccqueue.c   | 1 +
 libconcurrent/concurrent/dsmqueue.c  | 1 +
 libconcurrent/concurrent/fcqueue.c   | 1 +
 libconcurrent/concurrent/hqueue.c    | 1 +
 libconcurrent/concurrent/osciqueue.c | 1 +
 5 files changed, 5 insertions(+)

diff --git a/libconcurrent/concurrent/ccqueue.c b/libconcurrent/concurrent/ccqueue.c
index fcd3f55..f64bb1a 100644
--- a/libconcurrent/concurrent/ccqueue.c
+++ b/libconcurrent/concurrent/ccqueue.c
@@ -28,6 +28,7 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     node = synchAllocObj(&pool_node);
     node->next = NULL;
     node->val = arg;
+    synchNonTSOFence();
     st->last->next = node;
     st->last = node;
     synchNonTSOFence();
diff --git a/libconcurrent/concurrent/dsmqueue.c b/libconcurrent/concurrent/dsmqueue.c
index 8c8224d..c9cccfb 100644
--- a/libconcurrent/concurrent/dsmqueue.c
+++ b/libconcurrent/concurrent/dsmqueue.c
@@ -28,6 +28,7 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     node = synchAllocObj(&pool_node);
     node->next = NULL;
     node->val = arg;
+    synchNonTSOFence();
     st->last->next = node;
     st->last = node;
     synchNonTSOFence();
diff --git a/libconcurrent/concurrent/fcqueue.c b/libconcurrent/concurrent/fcqueue.c
index 4423b8c..c432118 100644
--- a/libconcurrent/concurrent/fcqueue.c
+++ b/libconcurrent/concurrent/fcqueue.c
@@ -31,6 +31,7 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     node = synchAllocObj(&pool_node);
     node->next = NULL;
     node->val = arg;
+    synchNonTSOFence();
     st->last->next = node;
     st->last = node;
     synchNonTSOFence();
diff --git a/libconcurrent/concurrent/hqueue.c b/libconcurrent/concurrent/hqueue.c
index 5b66250..04c1466 100644
--- a/libconcurrent/concurrent/hqueue.c
+++ b/libconcurrent/concurrent/hqueue.c
@@ -30,6 +30,7 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     node = synchAllocObj(&pool_node);
     node->next = NULL;
     node->val = arg;
+    synchNonTSOFence();
     st->last->next = node;
     st->last = node;
     synchNonTSOFence();
diff --git a/libconcurrent/concurrent/osciqueue.c b/libconcurrent/concurrent/osciqueue.c
index ca8157a..ebb6265 100644
--- a/libconcurrent/concurrent/osciqueue.c
+++ b/libconcurrent/concurrent/osciqueue.c
@@ -27,6 +27,7 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     node = synchAllocObj(&(st->pool_node[synchGetThreadId()]));
     node->next = NULL;
     node->val = arg;
+    synchNonTSOFence();
     st->last->next = node;
     st->last = node;
     return ENQUEUE_SUCCESS;
-- 
2.43.0


From 40264df0b0a59384c1d0c046f211057388318e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:36 +0000
Subject: [PATCH 23/25] fix: H-Synch writes the request before it links it on
 machines without total store order

---
 libconcurrent/concurrent/hsynch.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libconcurrent/concurrent/hsynch.c b/libconcurrent/concurrent/hsynch.c
index d9ed9b2..507a50e 100644
--- a/libconcurrent/concurrent/hsynch.c
+++ b/libconcurrent/concurrent/hsynch.c
@@ -25,6 +25,7 @@ RetVal HSynchApplyOp(HSynchStruct *l, HSynchThreadState *st_thread, RetVal (*sfu
     cur = (volatile HSynchNode *)synchSWAP(&l->Tail[st_thread->numa_node].ptr, next_node);
     cur->arg_ret = arg;
     cur->pid = pid;
+    synchNonTSOFence();
     cur->next = (HSynchNode *)next_node;
 
     st_thread->next_node = (HSynchNode *)cur;
-- 
2.43.0


From 216ad6477615668cf98a6bfe79d662794bcf105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:36 +0000
Subject: [PATCH 24/25] fix: Oyama writes the result before it marks the
 request completed on machines without total store order

---
 libconcurrent/concurrent/oyama.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libconcurrent/concurrent/oyama.c b/libconcurrent/concurrent/oyama.c
index 0506a43..ef1898f 100644
--- a/libconcurrent/concurrent/oyama.c
+++ b/libconcurrent/concurrent/oyama.c
@@ -42,6 +42,7 @@ RetVal OyamaApplyOp(volatile OyamaStruct *l, OyamaThreadState *th_state, RetVal
 #endif
                     tmp_next = (OyamaAnnounceNode *)p->next;
                     p->arg_ret = sfunc(p->arg_ret, p->pid);
+                    synchNonTSOFence();
                     p->completed = true;
                     p = (OyamaAnnounceNode *)tmp_next;
                 }
-- 
2.43.0


From 62a25389709cb01fbbe66b9602dc52eb79d4bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:36 +0000
Subject: [PATCH 25/25] fix: Osci writes the request before it opens the door
 on machines without total store order

---
 libconcurrent/concurrent/osci.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libconcurrent/concurrent/osci.c b/libconcurrent/concurrent/osci.c
index e56672e..66c81a5 100644
--- a/libconcurrent/concurrent/osci.c
+++ b/libconcurrent/concurrent/osci.c
@@ -44,6 +44,7 @@ osci_start:
         synchNonTSOFence();
         cur->rec[offset_id].completed = false;
         cur->next = NULL;
+        synchNonTSOFence();
         cur->door = _OSCI_DOOR_OPENED;
         synchResched();                    // Scheduling point
         l->current_node[group].ptr = NULL; // Release the combining point
@@ -70,6 +71,7 @@ osci_start:
         cur->rec[offset_id].locked = true;
         synchNonTSOFence();
         cur->rec[offset_id].completed = false;
+        synchNonTSOFence();
         cur->door = _OSCI_DOOR_OPENED;
         synchNonTSOFence();
         do {
-- 
2.43.0

