From 10f090b5667eb7fbbe5575825de54d104a7b4537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 01/22] Verification hook: tunable performance constants behind
 CAL_VERIF_TUNING

---
 src/calCacheTableTwo.c |  4 ++++
 src/calInt.h           | 26 ++++++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/calCacheTableTwo.c b/src/calCacheTableTwo.c
index 8450793..978f9c5 100644
--- a/src/calCacheTableTwo.c
+++ b/src/calCacheTableTwo.c
@@ -44,6 +44,10 @@
 /* cache table management related constants */
 #define CACHE_TABLE_DEFAULT_SIZE_INDEX 16
 #define CACHE_TABLE_DEFAULT_CACHE_RATIO 4
+#ifdef CAL_VERIF_TUNING /* verification hook, see calInt.h */
+#  undef CACHE_TABLE_DEFAULT_SIZE_INDEX
+#  define CACHE_TABLE_DEFAULT_SIZE_INDEX CAL_VERIF_CACHE_SIZE_INDEX
+#endif
 
 /*---------------------------------------------------------------------------*/
 /* Type declarations                                                         */
diff --git a/src/calInt.h b/src/calInt.h
index 0a88629..f89c9af 100644
--- a/src/calInt.h
+++ b/src/calInt.h
@@ -245,6 +245,32 @@ extern unsigned long calPrimes[];
 #define  CAL_LARGE_BDD (1<<19) /* For smaller BDDs, we would
                                   use depth-first exist and forall routines */
 
+/* Verification hook: shrink the performance related constants so that short
+** histories reach garbage collection, repacking, reordering, rehashing and the
+** large BDD algorithms. Never defined in a normal build. */
+#ifdef CAL_VERIF_TUNING
+#  undef CAL_MIN_GC_LIMIT
+#  define CAL_MIN_GC_LIMIT CAL_VERIF_MIN_GC_LIMIT
+#  undef CAL_BDD_REORDER_THRESHOLD
+#  define CAL_BDD_REORDER_THRESHOLD CAL_VERIF_REORDER_THRESHOLD
+#  undef CAL_NUM_PAGES_THRESHOLD
+#  define CAL_NUM_PAGES_THRESHOLD CAL_VERIF_NUM_PAGES_THRESHOLD
+#  undef CAL_NUM_FORWARDED_NODES_LIMIT
+#  define CAL_NUM_FORWARDED_NODES_LIMIT CAL_VERIF_FORWARDED_NODES_LIMIT
+#  undef CAL_GC_CHECK
+#  define CAL_GC_CHECK CAL_VERIF_GC_CHECK
+#  undef NUM_PAGES_PER_SEGMENT
+#  define NUM_PAGES_PER_SEGMENT CAL_VERIF_PAGES_PER_SEGMENT
+#  undef MAX_NUM_SEGMENTS
+#  define MAX_NUM_SEGMENTS CAL_VERIF_MAX_NUM_SEGMENTS
+#  undef HASH_TABLE_DEFAULT_SIZE_INDEX
+#  define HASH_TABLE_DEFAULT_SIZE_INDEX CAL_VERIF_HASH_SIZE_INDEX
+#  undef HASH_TABLE_DEFAULT_MAX_DENSITY
+#  define HASH_TABLE_DEFAULT_MAX_DENSITY CAL_VERIF_HASH_MAX_DENSITY
+#  undef CAL_LARGE_BDD
+#  define CAL_LARGE_BDD CAL_VERIF_LARGE_BDD
+#endif
+
 
 /*---------------------------------------------------------------------------*/
 /* Type declarations                                                         */
-- 
2.43.0


From 089ef0fe2a715c016e64c384d817210f47f5ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:01 +0000
Subject: [PATCH 02/22] fix: pairwise operations process every level that holds
 a request

BddArrayOpBF remembered only the top index of the last pair, so requests of
earlier pairs with higher top variables were never applied.
---
 src/calBddOp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/calBddOp.c b/src/calBddOp.c
index cf6e2f2..a5d278c 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -679,7 +679,7 @@ BddArrayOpBF(Cal_BddManager_t * bddManager, Cal_Bdd_t*  bddArray,
 {
   Cal_BddId_t minId, bddId;
   /*Cal_BddIndex_t minIndex = 0;*/
-  int minIndex = 0;
+  int minIndex = bddManager->numVars;
   int bddIndex;
   CalHashTable_t *hashTable, **hashTableArray, *uniqueTableForId;
   Cal_Bdd_t F, G, result;
@@ -692,7 +692,8 @@ BddArrayOpBF(Cal_BddManager_t * bddManager, Cal_Bdd_t*  bddArray,
     F = bddArray[i<<1];
     G = bddArray[(i<<1)+1];
     if ((*calOpProc)(bddManager, F, G, &result) == 0){
-      CalBddGetMinIdAndMinIndex(bddManager, F, G, minId, minIndex);
+      CalBddGetMinIdAndMinIndex(bddManager, F, G, minId, bddIndex);
+      if (bddIndex < minIndex) minIndex = bddIndex;
       CalHashTableFindOrAdd(hashTableArray[minId], F, G, &result);
     }
     resultArray[i] = result;
-- 
2.43.0


From f97129720bfd50748e77d5c8805d78b60b166b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:20 +0000
Subject: [PATCH 03/22] fix: multiway operations do not disturb a pending
 pipeline

---
 src/calBddOp.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/calBddOp.c b/src/calBddOp.c
index a5d278c..90cfd2c 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -739,7 +739,15 @@ BddMultiwayOp(Cal_BddManager_t * bddManager, Cal_Bdd_t * calBddArray,
   int pipeDepth;
   CalRequestNode_t *requestNode;
   Cal_Bdd_t result;
+  /* A pipeline may be pending: its requests and depth are left alone */
+  int oldDepth = bddManager->depth;
+  CalRequestNode_t **oldListArray = bddManager->requestNodeListArray;
 
+  bddManager->requestNodeListArray = Cal_MemAlloc(CalRequestNode_t *,
+                                                  MAX_INSERT_DEPTH);
+  for(pipeDepth = 0; pipeDepth < MAX_INSERT_DEPTH; pipeDepth++){
+    bddManager->requestNodeListArray[pipeDepth] = Cal_Nil(CalRequestNode_t);
+  }
   BddArrayToRequestNodeListArray(bddManager, calBddArray, numBdds);
   CalRequestNodeListArrayOp(bddManager, bddManager->requestNodeListArray, op);
   for(pipeDepth = 0; pipeDepth < bddManager->depth-1; pipeDepth++){
@@ -759,6 +767,9 @@ BddMultiwayOp(Cal_BddManager_t * bddManager, Cal_Bdd_t * calBddArray,
   CalRequestNodeGetThenRequest(requestNode, result);
   CalNodeManagerFreeNode(bddManager->nodeManagerArray[0],
                          requestNode);
+  Cal_MemFree(bddManager->requestNodeListArray);
+  bddManager->requestNodeListArray = oldListArray;
+  bddManager->depth = oldDepth;
   return result;
 }
 
-- 
2.43.0


From 90026079e833b005577061d36a982103f0cd14df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:36 +0000
Subject: [PATCH 04/22] fix: Compose handles null operands and a complemented
 operand with a constant variable

---
 src/calBddCompose.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/calBddCompose.c b/src/calBddCompose.c
index 96770d0..b1d53d2 100644
--- a/src/calBddCompose.c
+++ b/src/calBddCompose.c
@@ -82,15 +82,14 @@ Cal_BddCompose(Cal_BddManager bddManager, Cal_Bdd  fUserBdd,
   Cal_Bdd_t F, G, H;
 
   if (CalBddPreProcessing(bddManager, 3, fUserBdd, gUserBdd, hUserBdd) == 0){
-    result = bddManager->bddNull;
+    return Cal_BddNull(bddManager);
   }
   F = CalBddGetInternalBdd(bddManager, fUserBdd);
   G = CalBddGetInternalBdd(bddManager, gUserBdd);
   H = CalBddGetInternalBdd(bddManager, hUserBdd);
 
   if(CalBddIsBddConst(G)){
-    CalBddNodeIcrRefCount(fUserBdd);
-    return fUserBdd;
+    return Cal_BddIdentity(bddManager, fUserBdd);
   }
   CalNodeManagerAllocNode(bddManager->nodeManagerArray[0], requestNode);
   CalRequestNodePutF(requestNode, F);
-- 
2.43.0


From 9bb84d35a12b50ab8091991c9fc8c6f731d33276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:36 +0000
Subject: [PATCH 05/22] fix: Compose does not disturb a pending pipeline

---
 src/calBddCompose.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/calBddCompose.c b/src/calBddCompose.c
index b1d53d2..591e9f8 100644
--- a/src/calBddCompose.c
+++ b/src/calBddCompose.c
@@ -95,18 +95,16 @@ Cal_BddCompose(Cal_BddManager bddManager, Cal_Bdd  fUserBdd,
   CalRequestNodePutF(requestNode, F);
   CalRequestNodePutG(requestNode, H);
   CalRequestNodePutNextRequestNode(requestNode, 0);
-  bddManager->requestNodeListArray[0] = requestNode;
   /*
   ** We can achieve a superscalar compose operation, provided G
   ** is the same for all the compose operation
   */
 
-  CalRequestNodeListCompose(bddManager, bddManager->requestNodeListArray[0],
+  CalRequestNodeListCompose(bddManager, requestNode,
       CalBddGetBddIndex(bddManager, G));
 
   CalRequestNodeGetThenRequest(requestNode, result);
   CalNodeManagerFreeNode(bddManager->nodeManagerArray[0], requestNode);
-  bddManager->requestNodeListArray[0] = Cal_Nil(CalRequestNode_t);
 
   return CalBddGetExternalBdd(bddManager, result);
 }
-- 
2.43.0


From c8585863b37180fc1cb3cfe3a011fee41c59b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:37 +0000
Subject: [PATCH 06/22] fix: Reduce and Between accept an empty care set

---
 src/calReduce.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calReduce.c b/src/calReduce.c
index 81d2420..1161115 100644
--- a/src/calReduce.c
+++ b/src/calReduce.c
@@ -233,6 +233,11 @@ BddReduceBF(
   Cal_BddId_t bddId, minId;
 
 
+  if (CalBddIsBddZero(bddManager, c)){
+    CalBddWarningMessage("Bdd Reduce Called with zero care set");
+    return bddManager->bddOne;
+  }
+
   if ((*calOpProc)(bddManager, f, c, &result) == 1){
     return result;
   }
-- 
2.43.0


From b0e869cda6603039033bc3af5e7d38c3ef29f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:37 +0000
Subject: [PATCH 07/22] fix: pipelined results and requests survive collections
 and reorderings until the pipeline is quit

---
 src/calGC.c          |  2 +-
 src/calHashTable.c   |  4 ++--
 src/calInteract.c    |  2 +-
 src/calPipeline.c    | 43 ++++++++++++++++++++++++++++---------------
 src/calReorderBF.c   | 14 +++++++-------
 src/calReorderDF.c   |  4 ++--
 src/calReorderUtil.c |  4 ++--
 7 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/src/calGC.c b/src/calGC.c
index 8599983..1a4b091 100644
--- a/src/calGC.c
+++ b/src/calGC.c
@@ -356,7 +356,7 @@ CalRepackNodesAfterGC(Cal_BddManager_t *bddManager)
     nodeManager->freeNodeList = freeNodeList;
   }
   /* Need to update the handles to the nodes being moved */
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
diff --git a/src/calHashTable.c b/src/calHashTable.c
index c9e187b..abae38f 100644
--- a/src/calHashTable.c
+++ b/src/calHashTable.c
@@ -673,7 +673,7 @@ CalBddPackNodesAfterReorderForSingleId(Cal_BddManager_t *bddManager,
                            bddManager->indexToId[index]);
   }
 
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
@@ -854,7 +854,7 @@ CalBddPackNodesForMultipleIds(Cal_BddManager_t *bddManager,
 
   /* Fix the user BDDs */
   CalBddReorderFixUserBddPtrs(bddManager);
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
diff --git a/src/calInteract.c b/src/calInteract.c
index 6d7caa4..b8cb2e2 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -204,7 +204,7 @@ CalInitInteract(Cal_BddManager_t *bddManager)
   /* If there are some results pending in the pipeline, we need to
      take those into account as well */
 
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     CalRequestNode_t **requestNodeListArray =
         bddManager->requestNodeListArray;
     Cal_Bdd_t resultBdd;
diff --git a/src/calPipeline.c b/src/calPipeline.c
index 91bb09a..9c1b9b5 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -115,7 +115,6 @@ Cal_PipelineInit(Cal_BddManager bddManager, Cal_BddOp_t bddOp)
     return 0;
   }
   else{
-    bddManager->pipelineState = CREATE;
     switch(bddOp){
     case CAL_AND :
       bddManager->pipelineFn = CalOpAnd;
@@ -130,6 +129,8 @@ Cal_PipelineInit(Cal_BddManager bddManager, Cal_BddOp_t bddOp)
       CalBddWarningMessage("Unknown Bdd Operation type");
       return 0;
     }
+    bddManager->pipelineState = CREATE;
+    bddManager->currentPipelineDepth = bddManager->pipelineDepth;
     return 1;
   }
 }
@@ -148,12 +149,15 @@ Cal_PipelineCreateProvisionalBdd(Cal_BddManager bddManager, Cal_Bdd fUserBdd,
 
   insertDepth = 0;
 
-  f = CalBddGetInternalBdd(bddManager, fUserBdd);
-  g = CalBddGetInternalBdd(bddManager, gUserBdd);
   if(bddManager->pipelineState != CREATE){
     CalBddWarningMessage("Provisional Bdd not created: Pipeline is not initialized");
     return Cal_BddNull(bddManager);
   }
+  if (fUserBdd == 0 || gUserBdd == 0){
+    return Cal_BddNull(bddManager);
+  }
+  f = CalBddGetInternalBdd(bddManager, fUserBdd);
+  g = CalBddGetInternalBdd(bddManager, gUserBdd);
   if(CalBddIsMarked(f)){
     CalBddGetDepth(f, operandDepth);
     if(insertDepth <= operandDepth){
@@ -166,14 +170,16 @@ Cal_PipelineCreateProvisionalBdd(Cal_BddManager bddManager, Cal_Bdd fUserBdd,
       insertDepth = operandDepth + 1;
     }
   }
-  if (bddManager->pipelineDepth <= insertDepth){
-    bddManager->pipelineDepth = insertDepth + 1;
-  }
   if (insertDepth >= MAX_INSERT_DEPTH){
     CalBddWarningMessage("Provisional Bdd not created");
     CalBddWarningMessage("Maximum pipeline depth is reached");
     return Cal_BddNull(bddManager);
   }
+  if (bddManager->pipelineDepth <= insertDepth){
+    bddManager->pipelineDepth = insertDepth + 1;
+  }
+  /* None of the requests has been executed yet */
+  bddManager->currentPipelineDepth = bddManager->pipelineDepth;
 
   CalNodeManagerAllocNode(bddManager->nodeManagerArray[0], requestNode);
   CalRequestNodePutF(requestNode, f);
@@ -244,20 +250,14 @@ Cal_PipelineExecute(Cal_BddManager bddManager)
     /* Save the current pipelineDepth */
     bddManager->currentPipelineDepth = pipelineDepth;
     if (CalBddPostProcessing(bddManager) == CAL_BDD_OVERFLOWED){
-      /* Abort, may be we should clean up a little bit */
+      /* Abort and release the requests and the results obtained so far */
       fprintf(stderr,"Bdd Overflow: Aborting\n");
+      Cal_PipelineQuit(bddManager);
       return 0;
     }
     requestNodeListArray += bddManager->depth;
   }
-  /* Need to decrement the reference counts */
-  for (i=0; i<bddManager->pipelineDepth; i++){
-    for (node=bddManager->requestNodeListArray[i]; node; node = nextNode){
-      nextNode = CalBddNodeGetNextBddNode(node);
-      CalBddNodeGetThenBdd(node, thenBdd);
-      CalBddDcrRefCount(thenBdd);
-    }
-  }
+  /* The results stay locked until the pipeline is quit */
   bddManager->pipelineState = UPDATE;
   return 1;
 }
@@ -292,8 +292,21 @@ void
 Cal_PipelineQuit(Cal_BddManager bddManager)
 {
   CalRequestNode_t *requestNode, *next;
+  Cal_Bdd_t thenBdd;
   int i;
 
+  if (bddManager->pipelineState != READY){
+    /* Unlock the results of the requests that have been executed */
+    for (i = 0;
+         i < bddManager->pipelineDepth-bddManager->currentPipelineDepth;
+         i++){
+      for (requestNode = bddManager->requestNodeListArray[i]; requestNode;
+           requestNode = CalRequestNodeGetNextRequestNode(requestNode)){
+        CalBddNodeGetThenBdd(requestNode, thenBdd);
+        CalBddDcrRefCount(thenBdd);
+      }
+    }
+  }
   bddManager->pipelineState = READY;
   for(i = 0; i < bddManager->pipelineDepth; i++){
     for(requestNode = bddManager->requestNodeListArray[i],
diff --git a/src/calReorderBF.c b/src/calReorderBF.c
index 6ed8128..6070ad7 100644
--- a/src/calReorderBF.c
+++ b/src/calReorderBF.c
@@ -568,7 +568,7 @@ CofactorFixAndReclaimForwardedNodes(Cal_BddManager_t *bddManager, int
   int index, varId;
   /* Clean up : Need to fix the cofactors of userBDDs and the
      indices above the varStartIndex only. */
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
@@ -888,7 +888,7 @@ BddReorderSiftToBestPos(Cal_BddManager_t * bddManager, int
 
     if (swapFlag){
       /* Fix user BDD pointers and reclaim forwarding nodes */
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -950,7 +950,7 @@ BddReorderSiftToBestPos(Cal_BddManager_t * bddManager, int
 
     if (swapFlag){
       /* Fix user BDD pointers and reclaim forwarding nodes */
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -1098,7 +1098,7 @@ BddSiftPerfromPhaseIV(Cal_BddManager_t *bddManager, int varStartIndex,
     CalBddReorderFixCofactors(bddManager, varId);
     varCurIndex--;
   }
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
@@ -1177,7 +1177,7 @@ BddReorderVarWindow(Cal_BddManager bddManager, char *levels)
         CalBddReorderFixCofactors(bddManager, bddManager->indexToId[i]);
       }
       CalBddReorderFixUserBddPtrs(bddManager);
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -1242,7 +1242,7 @@ BddReorderVarWindow(Cal_BddManager bddManager, char *levels)
       }
       even = 1;
       CalBddReorderFixUserBddPtrs(bddManager);
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -1256,7 +1256,7 @@ BddReorderVarWindow(Cal_BddManager bddManager, char *levels)
       CalBddReorderFixCofactors(bddManager, bddManager->indexToId[i]);
     }
     CalBddReorderFixUserBddPtrs(bddManager);
-    if (bddManager->pipelineState == CREATE){
+    if (bddManager->pipelineState != READY){
       /* There are some results computed in pipeline */
       CalBddReorderFixProvisionalNodes(bddManager);
     }
diff --git a/src/calReorderDF.c b/src/calReorderDF.c
index 5a92224..44b3902 100644
--- a/src/calReorderDF.c
+++ b/src/calReorderDF.c
@@ -600,7 +600,7 @@ BddReallocateNodesInPlace(Cal_BddManager_t *bddManager)
     /* Fix the varBdd array */
   }
 /* Need to update the handles to the nodes being moved */
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodesAfterReallocation(bddManager);
   }
@@ -795,7 +795,7 @@ BddReallocateNodes(Cal_BddManager_t *bddManager)
     CalBddIsForwardedTo(bddManager->varBdds[id]);
   }
 
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
diff --git a/src/calReorderUtil.c b/src/calReorderUtil.c
index a2a7f3e..b992729 100644
--- a/src/calReorderUtil.c
+++ b/src/calReorderUtil.c
@@ -142,7 +142,7 @@ CalCheckAllValidity(Cal_BddManager bddManager)
     CalCheckValidityOfNodesForId(bddManager, id);
   }
   CalCheckAssociationValidity(bddManager);
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     CalCheckPipelineValidity(bddManager);
   }
   CalCheckRefCountValidity(bddManager);
@@ -334,7 +334,7 @@ CalCheckRefCountValidity(Cal_BddManager_t *bddManager)
         nextBddNode = CalBddNodeGetNextBddNode(bddNode);
         /* If the pipeline execution is going on, the following
            assertion will not hold */
-        if (bddManager->pipelineState != CREATE){
+        if (bddManager->pipelineState == READY){
           Cal_Assert(CalBddNodeIsRefCountZero(bddNode) ||
                      CalBddNodeIsRefCountMax(bddNode));
         }
-- 
2.43.0


From 455b49b136845fec710b9c288421478a89b8b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:31 +0000
Subject: [PATCH 08/22] fix: Undump rejects files whose node numbers or nesting
 exceed what the header allows

---
 src/calDump.c | 54 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/calDump.c b/src/calDump.c
index d9e8870..b30c924 100644
--- a/src/calDump.c
+++ b/src/calDump.c
@@ -84,7 +84,7 @@ static long indexMask[] = {0xffl, 0xffffl, 0xffffffl};
 static void Write(Cal_BddManager_t * bddManager, unsigned long n, int bytes, FILE * fp);
 static void BddDumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t f, FILE * fp, CalHashTable_t * h, Cal_BddIndex_t * normalizedIndexes, int indexSize, int nodeNumberSize);
 static unsigned long Read(int * error, int bytes, FILE * fp);
-static Cal_Bdd_t BddUndumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t * vars, FILE * fp, Cal_BddIndex_t numberVars, Cal_Bdd_t * shared, long numberShared, long * sharedSoFar, int indexSize, int nodeNumberSize, int * error);
+static Cal_Bdd_t BddUndumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t * vars, FILE * fp, Cal_BddIndex_t numberVars, Cal_Bdd_t ** shared, long * sharedSize, long numberShared, long * sharedSoFar, int indexSize, int nodeNumberSize, long depth, int * error);
 static int BytesNeeded(long n);
 
 /**AutomaticEnd***************************************************************/
@@ -107,6 +107,7 @@ Cal_BddUndumpBdd(
   int indexSize;
   int nodeNumberSize;
   Cal_Bdd_t *shared;
+  long sharedSize;
   long sharedSoFar;
   Cal_Bdd_t v;
   Cal_Bdd_t result;
@@ -153,16 +154,17 @@ Cal_BddUndumpBdd(
     Cal_MemFree(vars);
     return Cal_BddNull(bddManager);
   }
-  shared = Cal_MemAlloc(Cal_Bdd_t, numberShared);
-  for(i = 0; i < numberShared; ++i){
-    shared[i] = CalBddNull(bddManager);
-  }
+  /* The table grows with the labels read: the header is not trusted */
+  shared = Cal_Nil(Cal_Bdd_t);
+  sharedSize = 0;
   sharedSoFar = 0;
-  result = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-      numberShared, &sharedSoFar, indexSize, nodeNumberSize, error);
+  /* A node is at most numberVars labelled nodes below the root */
+  result = BddUndumpBddStep(bddManager, vars, fp, numberVars, &shared,
+      &sharedSize, numberShared, &sharedSoFar, indexSize, nodeNumberSize,
+      2*(long)numberVars+1, error);
   Cal_MemFree(vars);
 
-  for(i = 0; i < numberShared; ++i){
+  for(i = 0; i < sharedSoFar; ++i){
     v = shared[i];
     if(!CalBddIsBddNull(bddManager, v)){
       CalBddFree(v);
@@ -400,11 +402,13 @@ BddUndumpBddStep(
   Cal_Bdd_t * vars,
   FILE * fp,
   Cal_BddIndex_t  numberVars,
-  Cal_Bdd_t * shared,
+  Cal_Bdd_t ** shared,
+  long * sharedSize,
   long  numberShared,
   long * sharedSoFar,
   int  indexSize,
   int  nodeNumberSize,
+  long  depth,
   int * error)
 {
   long nodeNumber;
@@ -416,6 +420,9 @@ BddUndumpBddStep(
   Cal_Bdd_t result;
 
   i = Read(error, indexSize, fp);
+  if(!*error && depth < 0){
+    *error = CAL_BDD_UNDUMP_FORMAT;
+  }
   if(*error){
     return CalBddNull(bddManager);
   }
@@ -457,14 +464,14 @@ BddUndumpBddStep(
     case POSNODE_ENCODING:
     case NEGNODE_ENCODING:
       nodeNumber = Read(error, nodeNumberSize, fp);
-      if(!*error && (nodeNumber >=  numberShared ||
-          CalBddIsBddNull(bddManager, shared[nodeNumber]))){
+      if(!*error && (nodeNumber >=  *sharedSoFar ||
+          CalBddIsBddNull(bddManager, (*shared)[nodeNumber]))){
         *error = CAL_BDD_UNDUMP_FORMAT;
       }
       if(*error){
         return CalBddNull(bddManager);
       }
-      v = shared[nodeNumber];
+      v = (*shared)[nodeNumber];
       v = CalBddIdentity(bddManager, v);
       if(encoding == POSNODE_ENCODING){
         return (v);
@@ -475,10 +482,23 @@ BddUndumpBddStep(
       }
     case NODELABEL_ENCODING:
       nodeNumber =  *sharedSoFar;
+      if(nodeNumber >= numberShared){
+        *error = CAL_BDD_UNDUMP_FORMAT;
+        return CalBddNull(bddManager);
+      }
+      if(nodeNumber >= *sharedSize){
+        *sharedSize = 2*nodeNumber+16;
+        *shared = Cal_MemRealloc(Cal_Bdd_t, *shared, *sharedSize);
+        if(*shared == Cal_Nil(Cal_Bdd_t)){
+          CalBddFatalMessage("out of memory");
+        }
+      }
+      (*shared)[nodeNumber] = CalBddNull(bddManager);
       ++*sharedSoFar;
       v = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-          numberShared, sharedSoFar, indexSize, nodeNumberSize, error);
-      shared[nodeNumber] = v;
+          sharedSize, numberShared, sharedSoFar, indexSize, nodeNumberSize,
+          depth-1, error);
+      (*shared)[nodeNumber] = v;
       v = CalBddIdentity(bddManager, v);
       return (v);
     default:
@@ -491,9 +511,11 @@ BddUndumpBddStep(
     return CalBddNull(bddManager);
   }
   temp1 = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-       numberShared, sharedSoFar, indexSize, nodeNumberSize, error);
+       sharedSize, numberShared, sharedSoFar, indexSize, nodeNumberSize,
+       depth-1, error);
   temp2 = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-       numberShared, sharedSoFar, indexSize, nodeNumberSize, error);
+       sharedSize, numberShared, sharedSoFar, indexSize, nodeNumberSize,
+       depth-1, error);
   if(*error){
       CalBddFree(temp1);
       return CalBddNull(bddManager);
-- 
2.43.0


From 7238686bf6d023fc27b6e9920887582e79db9f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:31 +0000
Subject: [PATCH 09/22] fix: Dump releases the support it computes

---
 src/calDump.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/calDump.c b/src/calDump.c
index b30c924..7f0f9ea 100644
--- a/src/calDump.c
+++ b/src/calDump.c
@@ -240,6 +240,9 @@ Cal_BddDumpBdd(
         ok = 0;
       }
     }
+    for(i = 0; support[i]; ++i){
+      Cal_BddFree(bddManager, support[i]);
+    }
     if(!ok){
       Cal_MemFree(normalizedIndexes);
       Cal_MemFree(support);
-- 
2.43.0


From a1bd7e0d9144bcfc2c9ca65de7a1237836c14720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:57 +0000
Subject: [PATCH 10/22] fix: multiway operations accept more than 1024 operands

---
 src/calBddOp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calBddOp.c b/src/calBddOp.c
index 90cfd2c..19b7172 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -787,7 +787,7 @@ BddArrayToRequestNodeListArray(
   CalRequestNode_t *even, *odd, *requestNode, *requestNodeList, *head;
 
   bddManager->depth = CeilLog2(numBdds);
-  if (bddManager->depth > 10){
+  if (bddManager->depth > MAX_INSERT_DEPTH){
     CalBddFatalMessage("Don't be stooopid\n, Use lesser depth\n");
   }
 
-- 
2.43.0


From 0dbd8030ba1101039bface577044e3e2098ec4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:52 +0000
Subject: [PATCH 11/22] fix: pairwise results are null-terminated and the C++
 wrapper returns every collection in full

---
 src/calBddOp.c |  9 ++++++---
 src/calObj.hh  | 19 ++++++++-----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/calBddOp.c b/src/calBddOp.c
index 19b7172..8454602 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -267,7 +267,8 @@ Cal_BddPairwiseAnd(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
     bddArray[i] = CalBddGetInternalBdd(bddManager, userBddArray[i]);
   }
   resultArray =  BddArrayOpBF(bddManager, bddArray, num, CalOpAnd);
-  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2);
+  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2+1);
+  userResultArray[num/2] = Cal_BddNull(bddManager);
   for (i=0; i<num/2; i++){
     userResultArray[i] = CalBddGetExternalBdd(bddManager, resultArray[i]);
   }
@@ -309,7 +310,8 @@ Cal_BddPairwiseOr(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
     bddArray[i] = CalBddGetInternalBdd(bddManager, userBddArray[i]);
   }
   resultArray =  BddArrayOpBF(bddManager, bddArray, num, CalOpOr);
-  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2);
+  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2+1);
+  userResultArray[num/2] = Cal_BddNull(bddManager);
   for (i=0; i<num/2; i++){
     userResultArray[i] = CalBddGetExternalBdd(bddManager, resultArray[i]);
   }
@@ -343,7 +345,8 @@ Cal_BddPairwiseXor(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
     bddArray[i] = CalBddGetInternalBdd(bddManager, userBddArray[i]);
   }
   resultArray =  BddArrayOpBF(bddManager, bddArray, num, CalOpXor);
-  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2);
+  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2+1);
+  userResultArray[num/2] = Cal_BddNull(bddManager);
   for (i=0; i<num/2; i++){
     userResultArray[i] = CalBddGetExternalBdd(bddManager, resultArray[i]);
   }
diff --git a/src/calObj.hh b/src/calObj.hh
index 4ebd6d1..2ddebef 100644
--- a/src/calObj.hh
+++ b/src/calObj.hh
@@ -597,8 +597,7 @@ public:
   //////////////////////////////////////////////////////////////////////////////
   std::vector<long> Profile(bool negout = true) const
   {
-    std::vector<long> results;
-    results.reserve(Cal_BddVars(this->_bddManager)+1);
+    std::vector<long> results(Cal_BddVars(this->_bddManager)+1);
     Cal_BddProfile(this->_bddManager, this->_bdd, results.data(), negout);
     return results;
   }
@@ -629,8 +628,7 @@ public:
   //////////////////////////////////////////////////////////////////////////////
   std::vector<long> FunctionProfile() const
   {
-    std::vector<long> results;
-    results.reserve(Cal_BddVars(this->_bddManager)+1);
+    std::vector<long> results(Cal_BddVars(this->_bddManager)+1);
     Cal_BddFunctionProfile(this->_bddManager, this->_bdd, results.data());
     return results;
   }
@@ -741,13 +739,14 @@ protected:
   {
     std::vector<BDD> res;
 
+    if (bddArray == NULL) return res;
+
     for (int i = 0; Cal_BddIsBddNull(bddManager, bddArray[i]) == 0; i++){
-      if (CalBddPreProcessing(bddManager, 1, bddArray[i]) == 0){
-        return std::vector<BDD>();
-      }
       res.push_back(BDD(bddManager, bddArray[i]));
     }
 
+    Cal_MemFree(bddArray);
+
     return res;
   }
 
@@ -1955,8 +1954,7 @@ public:
     std::vector<Cal_Bdd> c_arg =
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
-    std::vector<long> levelCounts;
-    levelCounts.reserve(this->Vars()+1);
+    std::vector<long> levelCounts(this->Vars()+1);
 
     Cal_BddProfileMultiple(this->_bddManager,
                            c_arg.data(),
@@ -2066,8 +2064,7 @@ public:
     std::vector<Cal_Bdd> c_arg =
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
-    std::vector<long> funcCounts;
-    funcCounts.reserve(Vars()+1);
+    std::vector<long> funcCounts(this->Vars()+1);
 
     Cal_BddFunctionProfileMultiple(this->_bddManager, c_arg.data(), funcCounts.data());
 
-- 
2.43.0


From dbc94130e71893bded7fa770ed30e1ce414515ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:49 +0000
Subject: [PATCH 12/22] fix: repacking forwards only those association values
 that moved

---
 src/calAssociation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calAssociation.c b/src/calAssociation.c
index 5a196aa..d46fe3d 100644
--- a/src/calAssociation.c
+++ b/src/calAssociation.c
@@ -385,7 +385,7 @@ CalVarAssociationRepackUpdate(Cal_BddManager_t *  bddManager,
     nextAssoc = assoc->next;
     for (i=1; i <= bddManager->numVars; i++){
       if (CalBddGetBddId(assoc->varAssociation[i]) == id){
-        CalBddForward(assoc->varAssociation[i]);
+        CalBddIsForwardedTo(assoc->varAssociation[i]);
       }
     }
   }
@@ -393,7 +393,7 @@ CalVarAssociationRepackUpdate(Cal_BddManager_t *  bddManager,
   assoc = bddManager->tempAssociation;
   for (i=1; i <= bddManager->numVars; i++){
     if (CalBddGetBddId(assoc->varAssociation[i]) == id){
-      CalBddForward(assoc->varAssociation[i]);
+      CalBddIsForwardedTo(assoc->varAssociation[i]);
     }
   }
 }
-- 
2.43.0


From 7d2453f0430a6e5d2d24e1ff103a4d27e1fc1289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:19 +0000
Subject: [PATCH 13/22] fix: packing several levels releases the old bins

---
 src/calHashTable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calHashTable.c b/src/calHashTable.c
index abae38f..66fb3d5 100644
--- a/src/calHashTable.c
+++ b/src/calHashTable.c
@@ -799,6 +799,7 @@ CalBddPackNodesForMultipleIds(Cal_BddManager_t *bddManager,
           Cal_Assert(!(CalBddNodeIsRefCountZero(dupNode)));
         }
       }
+      Cal_MemFree(oldBins);
 
 #ifdef __FOO__
       /*fprintf(stdout,"Repacking id = %d, index = %d\n", id, index+level);*/
-- 
2.43.0


From 915dcd3c20a04543f98c5ef935b1d300df51a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:01 +0000
Subject: [PATCH 14/22] fix: an association that names a variable twice
 protects only the value it keeps

---
 src/calAssociation.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/calAssociation.c b/src/calAssociation.c
index d46fe3d..9d5716c 100644
--- a/src/calAssociation.c
+++ b/src/calAssociation.c
@@ -173,9 +173,11 @@ Cal_AssociationInit(Cal_BddManager bddManager,
   p->refCount = 1;
   /* Protect BDDs in the association. */
   if(pairs){
-    for(i = 0; i < numAssociations; i++){
-      f = associationInfo[(i<<1)+1];
-      CalBddIcrRefCount(f);
+    for(i = 1; i <= bddManager->numVars; i++){
+      f = varAssociation[i];
+      if(!CalBddIsBddNull(bddManager, f)){
+        CalBddIcrRefCount(f);
+      }
     }
   }
   Cal_MemFree(associationInfo);
-- 
2.43.0


From 09d8309fc49913c0e39724eb9e17a418006decf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:39 +0000
Subject: [PATCH 15/22] fix: printing a function profile prints it instead of
 nothing

---
 src/calPrintProfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calPrintProfile.c b/src/calPrintProfile.c
index 3360319..96da4fa 100644
--- a/src/calPrintProfile.c
+++ b/src/calPrintProfile.c
@@ -135,7 +135,7 @@ Cal_BddPrintFunctionProfile(Cal_BddManager bddManager,
                             FILE * fp)
 {
   long *levelCounts;
-  if (CalBddPreProcessing(bddManager, 1, f)){
+  if (CalBddPreProcessing(bddManager, 1, f) == 0){
 	return;
   }
   levelCounts = Cal_MemAlloc(long, bddManager->numVars+1);
-- 
2.43.0


From 5a179f174c1d0e7b4d689966efaad710f41708ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:27 +0000
Subject: [PATCH 16/22] fix: reordering treats functions held only by
 associations as roots

---
 src/calInteract.c | 76 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 64 insertions(+), 12 deletions(-)

diff --git a/src/calInteract.c b/src/calInteract.c
index b8cb2e2..0881dd1 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -76,6 +76,8 @@
 /* Static function prototypes                                                */
 /*---------------------------------------------------------------------------*/
 
+static void ddRootInteract(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int *support);
+static void ddAssociationInteract(Cal_BddManager_t *bddManager, CalAssociation_t *assoc, int *support);
 static void ddSuppInteract(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int *support);
 static void ddClearLocal(Cal_Bdd_t f);
 static void ddUpdateInteract(Cal_BddManager_t *bddManager, int *support);
@@ -165,12 +167,13 @@ CalTestInteract(Cal_BddManager_t *bddManager, int x, int y)
 int
 CalInitInteract(Cal_BddManager_t *bddManager)
 {
-  int i,k;
+  int i, id;
   int words;
   long *interact;
   int *support;
   long numBins;
   CalBddNode_t **bins, *bddNode, *nextBddNode;
+  CalAssociation_t *assoc;
 
   int n = bddManager->numVars;
 
@@ -193,14 +196,33 @@ CalInitInteract(Cal_BddManager_t *bddManager)
       Cal_Bdd_t internalBdd;
       nextBddNode = CalBddNodeGetNextBddNode(bddNode);
       CalBddNodeGetThenBdd(bddNode, internalBdd);
-      for (k = 0; k < n; k++) {
-        support[k] = 0;
+      ddRootInteract(bddManager, internalBdd, support);
+    }
+  }
+  /* Nodes whose reference count has saturated stay, whether or not the user
+     still holds them. */
+  for (id = 1; id <= n; id++){
+    bins = bddManager->uniqueTable[id]->bins;
+    numBins = bddManager->uniqueTable[id]->numBins;
+    for (i=0; i<numBins; i++){
+      for (bddNode = bins[i]; bddNode; bddNode = nextBddNode) {
+        Cal_Bdd_t internalBdd;
+        nextBddNode = CalBddNodeGetNextBddNode(bddNode);
+        if (CalBddNodeIsRefCountMax(bddNode)){
+          CalBddPutBddId(internalBdd, id);
+          CalBddPutBddNode(internalBdd, bddNode);
+          ddRootInteract(bddManager, internalBdd, support);
+        }
       }
-      ddSuppInteract(bddManager, internalBdd, support);
-      ddClearLocal(internalBdd);
-      ddUpdateInteract(bddManager, support);
     }
   }
+
+  /* Functions may also be held by nothing but a variable association. */
+  for (assoc = bddManager->associationList; assoc; assoc = assoc->next){
+    ddAssociationInteract(bddManager, assoc, support);
+  }
+  ddAssociationInteract(bddManager, bddManager->tempAssociation, support);
+
   /* If there are some results pending in the pipeline, we need to
      take those into account as well */
 
@@ -217,12 +239,7 @@ CalInitInteract(Cal_BddManager_t *bddManager)
         Cal_Assert(CalBddNodeIsForwarded(bddNode));
         CalBddNodeGetThenBdd(bddNode, resultBdd);
         Cal_Assert(CalBddIsForwarded(resultBdd) == 0);
-        for (k = 0; k < n; k++) {
-          support[k] = 0;
-        }
-        ddSuppInteract(bddManager, resultBdd, support);
-        ddClearLocal(resultBdd);
-        ddUpdateInteract(bddManager, support);
+        ddRootInteract(bddManager, resultBdd, support);
       }
       requestNodeListArray++;
     }
@@ -240,6 +257,41 @@ CalInitInteract(Cal_BddManager_t *bddManager)
 /*---------------------------------------------------------------------------*/
 
 
+/**Function********************************************************************
+  Marks as interacting the variables f depends on.
+******************************************************************************/
+static void
+ddRootInteract(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int *support)
+{
+  int k;
+  int n = bddManager->numVars;
+
+  for (k = 0; k < n; k++) {
+    support[k] = 0;
+  }
+  ddSuppInteract(bddManager, f, support);
+  ddClearLocal(f);
+  ddUpdateInteract(bddManager, support);
+} /* end of ddRootInteract */
+
+
+/**Function********************************************************************
+  Treats every function held by an association as a root.
+******************************************************************************/
+static void
+ddAssociationInteract(Cal_BddManager_t *bddManager, CalAssociation_t *assoc,
+                      int *support)
+{
+  int i;
+
+  for (i = 1; i <= bddManager->numVars; i++){
+    if (CalBddGetBddId(assoc->varAssociation[i]) != CAL_BDD_NULL_ID){
+      ddRootInteract(bddManager, assoc->varAssociation[i], support);
+    }
+  }
+} /* end of ddAssociationInteract */
+
+
 /**Function********************************************************************
   Find the support of f.
 
-- 
2.43.0


From 6545d7b814788b4b485abcd5adefddbcd6bd1581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:27 +0000
Subject: [PATCH 17/22] fix: the profile of several functions counts a shared
 root once

---
 src/calBddSize.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/calBddSize.c b/src/calBddSize.c
index 18db633..32edf2d 100644
--- a/src/calBddSize.c
+++ b/src/calBddSize.c
@@ -272,6 +272,7 @@ Cal_BddFunctionProfileMultiple(Cal_BddManager bddManager, Cal_Bdd
   Cal_BddIndex_t j;
   Cal_Bdd_t *f, *fArray;
   CalHashTable_t *h;
+  int *dataPtr;
 
   Cal_Bdd userBdd;
 
@@ -301,7 +302,12 @@ Cal_BddFunctionProfileMultiple(Cal_BddManager bddManager, Cal_Bdd
   }
   i = -1;
   for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
-    CalHashTableOneInsert(h, *f, (char *)&i);
+    if (CalHashTableOneLookup(h, *f, (char **)&dataPtr)){
+      *dataPtr = i;
+    }
+    else{
+      CalHashTableOneInsert(h, *f, (char *)&i);
+    }
   }
   for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
     BddDominatedStep(bddManager, *f, funcCounts, h);
-- 
2.43.0


From f7e26a4a19aca3aa6abfa986df2b69e01199cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:03 +0000
Subject: [PATCH 18/22] fix: a node reached more than twice stays marked as
 shared

---
 src/calPrint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calPrint.c b/src/calPrint.c
index 4aa73f0..8d19427 100644
--- a/src/calPrint.c
+++ b/src/calPrint.c
@@ -173,8 +173,8 @@ CalBddMarkSharedNodes(Cal_BddManager_t *bddManager, Cal_Bdd_t f)
   if ((mark = CalBddGetMark(f))){
     if (mark == 1){
       CalBddPutMark(f, 2);
-      return;
     }
+    return;
   }
   CalBddPutMark(f, 1);
   CalBddGetThenBdd(f, thenBdd);
-- 
2.43.0


From 0d4bd5d46def98a6d9f3b03bf132acd93878d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:38 +0000
Subject: [PATCH 19/22] fix: codes of temporary associations never meet stale
 or foreign cache entries

---
 src/calBddVarSubstitute.c |  2 +-
 src/calInt.h              |  1 +
 src/calQuant.c            |  7 +++----
 src/calUtil.c             | 20 ++++++++++++++++++++
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/calBddVarSubstitute.c b/src/calBddVarSubstitute.c
index 4dc1bba..9c341ae 100644
--- a/src/calBddVarSubstitute.c
+++ b/src/calBddVarSubstitute.c
@@ -88,7 +88,7 @@ Cal_BddVarSubstitute(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     CalAssociation_t *assoc = bddManager->currentAssociation;
     unsigned short opCode;
     if (assoc->id == -1){
-      opCode = bddManager->tempOpCode--;
+      opCode = CalBddTempOpCode(bddManager, 1);
     }
     else {
       opCode = CAL_OP_VAR_SUBSTITUTE + assoc->id;
diff --git a/src/calInt.h b/src/calInt.h
index f89c9af..4cdbc86 100644
--- a/src/calInt.h
+++ b/src/calInt.h
@@ -1638,6 +1638,7 @@ EXTERN void CalUniqueTablePrint(Cal_BddManager_t *bddManager);
 EXTERN void CalBddFunctionPrint(Cal_BddManager_t * bddManager, Cal_Bdd_t calBdd, char * name);
 EXTERN int CalBddPreProcessing(Cal_BddManager_t *bddManager, int count, ...);
 EXTERN int CalBddPostProcessing(Cal_BddManager_t *bddManager);
+EXTERN unsigned short CalBddTempOpCode(Cal_BddManager_t *bddManager, int count);
 EXTERN int CalBddArrayPreProcessing(Cal_BddManager_t *bddManager, Cal_Bdd *userBddArray);
 EXTERN Cal_Bdd_t CalBddGetInternalBdd(Cal_BddManager bddManager, Cal_Bdd userBdd);
 EXTERN Cal_Bdd CalBddGetExternalBdd(Cal_BddManager_t *bddManager, Cal_Bdd_t internalBdd);
diff --git a/src/calQuant.c b/src/calQuant.c
index e5ec784..2100ebf 100644
--- a/src/calQuant.c
+++ b/src/calQuant.c
@@ -106,7 +106,7 @@ Cal_BddExists(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     unsigned short opCode;
 
     if (assoc->id == -1){
-      opCode = bddManager->tempOpCode--;
+      opCode = CalBddTempOpCode(bddManager, 1);
     }
     else {
       opCode = CAL_OP_QUANT + assoc->id;
@@ -145,8 +145,7 @@ Cal_BddRelProd(Cal_BddManager bddManager, Cal_Bdd fUserBdd, Cal_Bdd gUserBdd)
     unsigned short opCode;
 
     if (bddManager->currentAssociation->id == -1){
-      opCode = bddManager->tempOpCode--;
-      bddManager->tempOpCode--;
+      opCode = CalBddTempOpCode(bddManager, 2);
     }
     else {
       opCode = CAL_OP_REL_PROD + assoc->id;
@@ -184,7 +183,7 @@ Cal_BddForAll(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
 
     CalBddNot(f, f);
     if (assoc->id == -1){
-      opCode = bddManager->tempOpCode--;
+      opCode = CalBddTempOpCode(bddManager, 1);
     }
     else {
       opCode = CAL_OP_QUANT + assoc->id;
diff --git a/src/calUtil.c b/src/calUtil.c
index 66df24e..9ad4376 100644
--- a/src/calUtil.c
+++ b/src/calUtil.c
@@ -209,6 +209,26 @@ CalBddPreProcessing(Cal_BddManager_t *bddManager, int count, ...)
 }
 
 
+/**Function********************************************************************
+  Returns the first of "count" fresh op codes (counting downwards) for a use of
+  the temporary association. The codes above those of CAL_OP_VAR_SUBSTITUTE
+  serve this purpose; once they are used up, the cache is flushed, since it may
+  still hold results filed under them, and they are handed out again.
+******************************************************************************/
+unsigned short
+CalBddTempOpCode(Cal_BddManager_t *bddManager, int count)
+{
+  unsigned short opCode;
+
+  if (bddManager->tempOpCode < CAL_OP_VAR_SUBSTITUTE + 0x1000 + count){
+    CalCacheTableTwoFlush(bddManager->cacheTable);
+    bddManager->tempOpCode = -1;
+  }
+  opCode = bddManager->tempOpCode;
+  bddManager->tempOpCode -= count;
+  return opCode;
+}
+
 /**Function********************************************************************
 ******************************************************************************/
 int
-- 
2.43.0


From 8c987d2b366799992976ffd29a99afdeee40056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 20/22] fix: no automatic collection while garbage collection
 is turned off

---
 src/calUtil.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/calUtil.c b/src/calUtil.c
index 9ad4376..146122b 100644
--- a/src/calUtil.c
+++ b/src/calUtil.c
@@ -238,7 +238,12 @@ CalBddPostProcessing(Cal_BddManager_t *bddManager)
   bddManager->gcCheck = CAL_GC_CHECK;
   if(bddManager->numNodes > bddManager->uniqueTableGCLimit){
     long origNodes = bddManager->numNodes;
-    Cal_BddManagerGC(bddManager);
+    /* Reordering needs a collection even if the garbage collection is off */
+    int collect = bddManager->gcMode ||
+        (bddManager->reorderTechnique != CAL_REORDER_NONE);
+    if (collect){
+      Cal_BddManagerGC(bddManager);
+    }
     if ((bddManager->numNodes > bddManager->reorderingThreshold) &&
         (3*bddManager->numNodes > 2* bddManager->uniqueTableGCLimit) &&
         (bddManager->reorderTechnique != CAL_REORDER_NONE)){
@@ -250,7 +255,7 @@ CalBddPostProcessing(Cal_BddManager_t *bddManager)
         CalBddReorderAuxDF(bddManager);
       }
     }
-    else {
+    else if (collect){
       /* Check if we should repack */
       Cal_Assert(CalCheckAllValidity(bddManager));
       if (bddManager->numNodes <
-- 
2.43.0


From 1c48343ebf22214fa6c01b736a009e6072c6d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:35 +0000
Subject: [PATCH 21/22] fix: a variable's own node is followed when pages are
 repacked after a collection

---
 src/calGC.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/calGC.c b/src/calGC.c
index 1a4b091..9d60604 100644
--- a/src/calGC.c
+++ b/src/calGC.c
@@ -366,6 +366,12 @@ CalRepackNodesAfterGC(Cal_BddManager_t *bddManager)
   /* Fix the user BDDs */
   CalBddReorderFixUserBddPtrs(bddManager);
 
+  /* Fix the variables' own nodes */
+  for (index = bddManager->numVars-1; index >= 0; index--){
+    id = bddManager->indexToId[index];
+    CalBddIsForwardedTo(bddManager->varBdds[id]);
+  }
+
   /* Fix the association */
   CalReorderAssociationFix(bddManager);
 
-- 
2.43.0


From e45ac033fa2a85b856a9d30870f3d594d68a3365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:19 +0000
Subject: [PATCH 22/22] fix: associations with large identifiers shared the
 cache codes of other operations

---
 src/calBddVarSubstitute.c | 2 +-
 src/calInt.h              | 5 +++++
 src/calQuant.c            | 8 ++++----
 src/calUtil.c             | 2 +-
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/calBddVarSubstitute.c b/src/calBddVarSubstitute.c
index 9c341ae..f5cf422 100644
--- a/src/calBddVarSubstitute.c
+++ b/src/calBddVarSubstitute.c
@@ -87,7 +87,7 @@ Cal_BddVarSubstitute(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     Cal_Bdd_t f = CalBddGetInternalBdd(bddManager, fUserBdd);
     CalAssociation_t *assoc = bddManager->currentAssociation;
     unsigned short opCode;
-    if (assoc->id == -1){
+    if (!CalAssociationHasOpCodes(assoc)){
       opCode = CalBddTempOpCode(bddManager, 1);
     }
     else {
diff --git a/src/calInt.h b/src/calInt.h
index 4cdbc86..5530232 100644
--- a/src/calInt.h
+++ b/src/calInt.h
@@ -242,6 +242,11 @@ extern unsigned long calPrimes[];
 #define  CAL_OP_SUBST 0x7000
 #define  CAL_OP_VAR_SUBSTITUTE 0x8000
 
+/* An association has codes of its own only if its id fits between two of the
+   codes above. Uses of any other one get fresh codes (CalBddTempOpCode). */
+#define CalAssociationHasOpCodes(assoc) \
+    (((assoc)->id >= 0) && ((assoc)->id < 0x1000))
+
 #define  CAL_LARGE_BDD (1<<19) /* For smaller BDDs, we would
                                   use depth-first exist and forall routines */
 
diff --git a/src/calQuant.c b/src/calQuant.c
index 2100ebf..169455c 100644
--- a/src/calQuant.c
+++ b/src/calQuant.c
@@ -105,7 +105,7 @@ Cal_BddExists(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     CalAssociation_t *assoc = bddManager->currentAssociation;
     unsigned short opCode;
 
-    if (assoc->id == -1){
+    if (!CalAssociationHasOpCodes(assoc)){
       opCode = CalBddTempOpCode(bddManager, 1);
     }
     else {
@@ -144,7 +144,7 @@ Cal_BddRelProd(Cal_BddManager bddManager, Cal_Bdd fUserBdd, Cal_Bdd gUserBdd)
     CalAssociation_t *assoc = bddManager->currentAssociation;
     unsigned short opCode;
 
-    if (bddManager->currentAssociation->id == -1){
+    if (!CalAssociationHasOpCodes(assoc)){
       opCode = CalBddTempOpCode(bddManager, 2);
     }
     else {
@@ -182,7 +182,7 @@ Cal_BddForAll(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     unsigned short opCode;
 
     CalBddNot(f, f);
-    if (assoc->id == -1){
+    if (!CalAssociationHasOpCodes(assoc)){
       opCode = CalBddTempOpCode(bddManager, 1);
     }
     else {
@@ -310,7 +310,7 @@ BddRelProdStep(Cal_BddManager_t * bddManager, Cal_Bdd_t  f, Cal_Bdd_t
     if (CalBddIsBddZero(bddManager, f) || CalBddIsBddZero(bddManager, g)){
       return bddManager->bddZero;
     }
-    if (assoc->id != -1){
+    if (CalAssociationHasOpCodes(assoc)){
       opCode = CAL_OP_QUANT+assoc->id;
     }
     else{
diff --git a/src/calUtil.c b/src/calUtil.c
index 146122b..1c87c9f 100644
--- a/src/calUtil.c
+++ b/src/calUtil.c
@@ -211,7 +211,7 @@ CalBddPreProcessing(Cal_BddManager_t *bddManager, int count, ...)
 
 /**Function********************************************************************
   Returns the first of "count" fresh op codes (counting downwards) for a use of
-  the temporary association. The codes above those of CAL_OP_VAR_SUBSTITUTE
+  an association without codes of its own. The codes above those of CAL_OP_VAR_SUBSTITUTE
   serve this purpose; once they are used up, the cache is flushed, since it may
   still hold results filed under them, and they are handed out again.
 ******************************************************************************/
-- 
2.43.0

