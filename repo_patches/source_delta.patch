From 613de516b7a6af4c00c20e5b6353591afd787043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 01/92] fix: keep the full offset when splitting a block beyond
 4 GB of the region

p2Alloc held the byte offset of the node being split in an unsigned int, so
for nodes more than 4 GB into the region the remainders went into the free
tree under a truncated key and were later merged and handed out twice.
---
 src/sassim.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index dd802c4..553c043 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -416,7 +416,8 @@ p2Alloc (uLongTreeNode ** root, unsigned long size)
   unsigned long keys;
   unsigned long result = 0;
   unsigned int j;
-  unsigned int ui, uj;
+  unsigned long ui;
+  unsigned int uj;
 
 #ifdef __SASDebugPrint__
   sas_printf ("p2Alloc (%p, %lu)\n", root, size);
-- 
2.43.0


From 8ca92eab4407e29566e947407c6565ab68efb0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 02/92] fix: define the lock-free near variants of the simple
 heap as declared

SASSimpleHeapNearAllocNoLock and SASSimpleHeapNearDeallocNoLock were defined
with a block_size_t argument but declared extern "C" with a long one, so the
definitions were C++ overloads and no caller could link.
---
 src/sassimpleheap.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index 568b25e..7674aea 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -193,10 +193,11 @@ SASSimpleHeapNearFind(void *nearObj)
 }
 
 void*
-SASSimpleHeapNearAllocNoLock(void *nearObj, block_size_t alloc_size)
+SASSimpleHeapNearAllocNoLock(void *nearObj, long allocSize)
 {
     SASBlockHeader	*headerBlock;
     block_size_t	heapSize;
+    block_size_t	alloc_size = (block_size_t)allocSize;
     freeNode		*mem = NULL;
 
 	
@@ -237,10 +238,11 @@ void* SASSimpleHeapNearAlloc(void *nearObj, long allocSize)
 }
 
 void
-SASSimpleHeapNearDeallocNoLock(void *nearObj, block_size_t alloc_size)
+SASSimpleHeapNearDeallocNoLock(void *nearObj, long allocSize)
 {
     SASBlockHeader	*headerBlock;
     block_size_t	heapSize;
+    block_size_t	alloc_size = (block_size_t)allocSize;
     freeNode		*free_node = (freeNode*)nearObj;
 
 	
-- 
2.43.0


From bda9129784284447bac9e7c971bd3c11c6fbb152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 03/92] fix: do not touch memory that a simple heap refuses to
 free

SASSimpleHeapFree wrote a free node into the piece before checking that it
belongs to the heap, and accepted pieces beyond the end of the heap.
---
 src/sassimpleheap.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index 7674aea..700ea5e 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -115,14 +115,14 @@ SASSimpleHeapFreeNoLock (SASSimpleHeap_t heap,
     freeNode		*free_node = (freeNode*)free_block;
     int rc;
 
-    freeNode_init(free_node, alloc_size);
-    
     if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
 		if (( alloc_size < heapSize )
-		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) ) )
+		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) )
+		&& ( (unsigned long)free_block <= ((unsigned long)headerBlock + headerBlock->blockSize - alloc_size) ) )
 		{
+		    freeNode_init(free_node, alloc_size);
 		    freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
 		    rc = 0;
 		} else {
@@ -251,11 +251,11 @@ SASSimpleHeapNearDeallocNoLock(void *nearObj, long allocSize)
     {
 	if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
 	{
-	    freeNode_init(free_node, alloc_size);
 	    heapSize = headerBlock->blockSize - heap_offset;
 	    if (( alloc_size < heapSize )
 	    && ((unsigned long)nearObj >= ((unsigned long)headerBlock + heap_offset)))
 	    {
+		freeNode_init(free_node, alloc_size);
 		freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
 #ifdef __SASDebugPrint__
 	    } else {
-- 
2.43.0


From 9dd509148e99fdabadd3ea07ec4506cd8d7a7d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 04/92] fix: refuse simple stack allocations whose size
 overflows the address

A size close to the maximum wrapped the address computation around and moved
the top of the stack down instead of being refused.
---
 src/sassimplestack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sassimplestack.cpp b/src/sassimplestack.cpp
index 0ac1235..dbbc1e8 100644
--- a/src/sassimplestack.cpp
+++ b/src/sassimplestack.cpp
@@ -111,7 +111,8 @@ SASSimpleStackAllocNoLock (SASSimpleStack_t heap, block_size_t alloc_size)
       round = ~headerBlock->align_mask;
       stacknext = (headerBlock->next_stack + alloc_size + round)
 	& headerBlock->align_mask;
-      if (stacknext <= headerBlock->end_stack)
+      if ((alloc_size <= (headerBlock->end_stack - headerBlock->next_stack))
+	  && (stacknext <= headerBlock->end_stack))
 	{
 	  stack_alloc = headerBlock->next_stack;
 	  headerBlock->next_stack = stacknext;
-- 
2.43.0


From aaf684351a7990a0b9bcecfcc36d85b918a19cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 05/92] fix: check the alignment in SASSimpleStackDeallocNoLock
 as the locked variant does

---
 src/sassimplestack.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/sassimplestack.cpp b/src/sassimplestack.cpp
index dbbc1e8..28e0815 100644
--- a/src/sassimplestack.cpp
+++ b/src/sassimplestack.cpp
@@ -261,8 +261,21 @@ SASSimpleStackDeallocNoLock (SASSimpleStack_t heap, void *stack_pointer)
       if ((new_sp >= headerBlock->start_stack)
 	  && (new_sp <= headerBlock->end_stack))
 	{
-	  headerBlock->next_stack = new_sp;
-	  rc = 0;
+	  new_sp &= headerBlock->align_mask;
+	  if (new_sp == (node_size_t) stack_pointer)
+	    {
+	      headerBlock->next_stack = new_sp;
+	      rc = 0;
+	    }
+	  else
+	    {
+	      rc = -3;
+#ifdef __SASDebugPrint__
+	      sas_printf
+		("SASSimpleStackDeallocNoLock(%p, %p) alignment check failed\n",
+		 heap, stack_pointer);
+#endif
+	    }
 	}
       else
 	{
-- 
2.43.0


From f75ca0a8eec561d31982caef74d322428013892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 06/92] fix: find a block's header at every power-of-two block
 size

---
 src/sasalloc.cpp | 90 +++++-------------------------------------------
 1 file changed, 8 insertions(+), 82 deletions(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index d4e9bdb..4064f50 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -460,91 +460,17 @@ SASBlockHeader *SASFindHeader (const void *nearObj)
          ((temp >= __SAS_TEMP_ADDRESS) && (temp < (__SAS_TEMP_FREE)))) {
 #endif
 #endif
-	temp = temp & block__mask512;
-	block = (SASBlockHeader *)temp;
-
-#ifdef __SASDebugPrint__
-   sas_printf("SASFindHeader mask=%lx -> %p \n",block__mask512, block);
-#endif
-	if ( !SOMSASCheckBlockSig(block) )
+	// Look for the innermost block that contains nearObj, at every
+	// power of two a block can have as its size and alignment.
+	for (uintptr_t size = 512; size <= block__Size256M; size <<= 1)
 	{
-	    temp = temp & block__mask1k;
-	    block = (SASBlockHeader *)temp;
+	    SASBlockHeader *candidate = (SASBlockHeader *)(temp & ~(size - 1));
 
-	    if ( !SOMSASCheckBlockSig(block) )
+	    if ( SOMSASCheckBlockSig(candidate) )
 	    {
-		temp = temp & block__mask4k;
-		block = (SASBlockHeader *)temp;
-
-		if ( !SOMSASCheckBlockSig(block) )
-		{
-#ifdef block__mask16k
-		  temp = temp & block__mask16k;
-		  block = (SASBlockHeader *)temp;
-
-		  if ( !SOMSASCheckBlockSig(block) )
-		  {
-#endif
-		    temp = temp & block__mask64k;
-		    block = (SASBlockHeader *)temp;
-
-		    if ( !SOMSASCheckBlockSig(block) )
-		    {
-#ifdef block__mask256k
-		      temp = temp & block__mask256;
-		      block = (SASBlockHeader *)temp;
-
-		      if ( !SOMSASCheckBlockSig(block) )
-		      {
-#endif
-			temp = temp & block__mask1m;
-			block = (SASBlockHeader *)temp;
-
-			if ( !SOMSASCheckBlockSig(block) )
-			{
-			    temp = temp & block__mask4m;
-			    block = (SASBlockHeader *)temp;
-
-			    if ( !SOMSASCheckBlockSig(block) )
-			    {
-				temp = temp & block__mask16m;
-				block = (SASBlockHeader *)temp;
-
-				if ( !SOMSASCheckBlockSig(block) )
-				{
-#ifdef block__mask64m
-				  temp = temp & block__mask64m;
-				  block = (SASBlockHeader *)temp;
-
-				  if ( !SOMSASCheckBlockSig(block) )
-				  {
-#ifdef block__mask256m
-				    temp = temp & block__mask256m;
-				    block = (SASBlockHeader *)temp;
-
-				    if ( !SOMSASCheckBlockSig(block) )
-				    {
-				      block = NULL;
-				    }
-#else
-				    block = NULL;
-#endif
-				  }
-#else
-				    block = NULL;
-#endif
-				}
-			    }
-			}
-#ifdef block__mask256k
-		      }
-#endif
-		    }
-#ifdef block__mask16k
-		  }
-#endif
-		}
-	   }
+		block = candidate;
+		break;
+	    }
 	}
 #ifdef __SASDebugPrint__
 	    sas_printf("SASFindHeader low=%lx, high=%lx, tmp_low=%lx, tmp_hign=%lx\n",
-- 
2.43.0


From a036b2f46a5a066c6df9f7423f2112b2aeaf992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 07/92] fix: let a simple heap hand out and take back its whole
 capacity

---
 src/sassimpleheap.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index 700ea5e..1d6c235 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -65,7 +65,7 @@ SASSimpleHeapAllocNoLock (SASSimpleHeap_t heap,
               SAS_RUNTIME_SIMPLEHEAP) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
-		if ( alloc_size < heapSize )
+		if ( alloc_size <= heapSize )
 		{
 		    mem = freeNode_allocSpace(headerBlock->blockFreeSpace,
 		                    &headerBlock->blockFreeSpace, alloc_size);
@@ -118,7 +118,7 @@ SASSimpleHeapFreeNoLock (SASSimpleHeap_t heap,
     if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
-		if (( alloc_size < heapSize )
+		if (( alloc_size <= heapSize )
 		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) )
 		&& ( (unsigned long)free_block <= ((unsigned long)headerBlock + headerBlock->blockSize - alloc_size) ) )
 		{
@@ -207,7 +207,7 @@ SASSimpleHeapNearAllocNoLock(void *nearObj, long allocSize)
 	if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
 	{
 	    heapSize = headerBlock->blockSize - heap_offset;
-	    if ( alloc_size < heapSize )
+	    if ( alloc_size <= heapSize )
 	    {
 		mem = freeNode_allocSpace(headerBlock->blockFreeSpace,
 		          &headerBlock->blockFreeSpace, alloc_size);
@@ -252,7 +252,7 @@ SASSimpleHeapNearDeallocNoLock(void *nearObj, long allocSize)
 	if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
 	{
 	    heapSize = headerBlock->blockSize - heap_offset;
-	    if (( alloc_size < heapSize )
+	    if (( alloc_size <= heapSize )
 	    && ((unsigned long)nearObj >= ((unsigned long)headerBlock + heap_offset)))
 	    {
 		freeNode_init(free_node, alloc_size);
-- 
2.43.0


From 0940127931cde28d6afe8820130d07688cf2200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 08/92] fix: start trees empty in recycled memory and count
 only entries that were added

---
 src/sasindex.cpp       | 12 ++++++++----
 src/sasstringbtree.cpp | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 860fcb9..1a46459 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -120,6 +120,7 @@ SASIndexExpandInit (void* heap_seg,
     }
     
     heapBlock->pageSize = page_size;
+    heapBlock->root = NULL;
    
     remaining= default_page - sizeof(SASIndexHeader);
     heapBlock->headerFreeSpace = (freeNode *)&heapBlock[1];
@@ -171,6 +172,7 @@ SASIndexInit (void* heap_seg,
     }
     
     heapBlock->pageSize = page_size;
+    heapBlock->root = NULL;
    
     remaining= default_page - sizeof(SASIndexHeader);
     heapBlock->headerFreeSpace = (freeNode *)&heapBlock[1];
@@ -178,6 +180,7 @@ SASIndexInit (void* heap_seg,
     heapBlock->blockHeader.baseBlock = (SASBlockHeader*)heapBlock;
     heapBlock->blockHeader.nextBlock = (SASBlockHeader*)heapBlock;
     
+    heapBlock->expandList = NULL;
     if (expanding)
     {
 	    list = (SASCompoundExpandList*)freeNode_allocSpace(heapBlock->headerFreeSpace,
@@ -205,6 +208,7 @@ SASIndexInit (void* heap_seg,
 		heapBlock->common = commonAlloc;
 		commonAlloc->version = 0;
 		commonAlloc->modCount = 1;
+		commonAlloc->count = 0;
 		commonAlloc->max_key = NULL;
 		commonAlloc->min_key = NULL;
 #ifdef __SASDebugPrint__
@@ -1389,6 +1393,7 @@ SASIndexPut (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 			    	SASIndexUpdateMin(heap, key);
 			    if ( SASIndexKeyCompare(key, btree->common->max_key) > 0 ) 
 			    	SASIndexUpdateMax(heap, key);
+			    btree->common->count++;
 			    result = true;
 		    } 
 		} else {
@@ -1397,9 +1402,9 @@ SASIndexPut (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 		    SASIndexUpdateMin(heap, key);
 		    SASIndexUpdateMax(heap, key);
 			btree->common->modCount++;
+			btree->common->count++;
 			result = true;
 		};
-		btree->common->count++;
 		SASUnlock(heap);
     }
 	return result; /* False indicates duplicate key */
@@ -1427,6 +1432,7 @@ SASIndexPut_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 			    	SASIndexUpdateMin(heap, key);
 			    if ( SASIndexKeyCompare(key, btree->common->max_key) > 0 )
 			    	SASIndexUpdateMax(heap, key);
+			    btree->common->count++;
 			    result = true;
 		    }
 		} else {
@@ -1435,9 +1441,9 @@ SASIndexPut_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 		    SASIndexUpdateMin(heap, key);
 		    SASIndexUpdateMax(heap, key);
 			btree->common->modCount++;
+			btree->common->count++;
 			result = true;
 		};
-		btree->common->count++;
     }
 	return result; /* False indicates duplicate key */
 }
@@ -1465,7 +1471,6 @@ SASIndexReplace (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 				result = SASIndexNodePutValIndexed(ref.node, ref.pos, value);
 		    }
 		}
-		btree->common->count++;
 		SASUnlock(heap);
     }
 	return result; // return prev value if already exist
@@ -1493,7 +1498,6 @@ SASIndexReplace_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 				result = SASIndexNodePutValIndexed(ref.node, ref.pos, value);
 		    }
 		}
-		btree->common->count++;
     }
 	return result; // return prev value if already exist
 }
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 512837e..7246cf3 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -119,6 +119,7 @@ SASStringBTreeExpandInit (void *heap_seg,
     }
 
   heapBlock->pageSize = page_size;
+  heapBlock->root = NULL;
 
   remaining = default_page - sizeof (SASStringBTreeHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -172,6 +173,7 @@ SASStringBTreeInit (void *heap_seg,
     }
 
   heapBlock->pageSize = page_size;
+  heapBlock->root = NULL;
 
   remaining = default_page - sizeof (SASStringBTreeHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -179,6 +181,7 @@ SASStringBTreeInit (void *heap_seg,
   heapBlock->blockHeader.baseBlock = (SASBlockHeader *) heapBlock;
   heapBlock->blockHeader.nextBlock = (SASBlockHeader *) heapBlock;
 
+  heapBlock->expandList = NULL;
   if (expanding)
     {
       list =
@@ -213,6 +216,7 @@ SASStringBTreeInit (void *heap_seg,
       heapBlock->common = commonAlloc;
       commonAlloc->version = 0;
       commonAlloc->modCount = 1;
+      commonAlloc->count = 0;
       commonAlloc->max_key = NULL;
       commonAlloc->min_key = NULL;
 #ifdef __SASDebugPrint__
@@ -1509,6 +1513,7 @@ SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
 		SASStringBTreeUpdateMin (heap, key);
 	      if (strcmp (key, btree->common->max_key) > 0)
 		SASStringBTreeUpdateMax (heap, key);
+	      btree->common->count++;
 	      result = true;
 	    }
 	}
@@ -1519,9 +1524,9 @@ SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
 	  SASStringBTreeUpdateMin (heap, key);
 	  SASStringBTreeUpdateMax (heap, key);
 	  btree->common->modCount++;
+	  btree->common->count++;
 	  result = true;
 	};
-      btree->common->count++;
       SASUnlock (heap);
     }
   return result;		/* False indicates duplicate key */
@@ -1548,6 +1553,7 @@ SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
                 SASStringBTreeUpdateMin (heap, key);
               if (strcmp (key, btree->common->max_key) > 0)
                 SASStringBTreeUpdateMax (heap, key);
+              btree->common->count++;
               result = true;
             }
         }
@@ -1558,9 +1564,9 @@ SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
           SASStringBTreeUpdateMin (heap, key);
           SASStringBTreeUpdateMax (heap, key);
           btree->common->modCount++;
+          btree->common->count++;
           result = true;
         };
-      btree->common->count++;
     }
   return result;                /* False indicates duplicate key */
 }
@@ -1589,7 +1595,6 @@ SASStringBTreeReplace (SASStringBTree_t heap, const char *key, void *value)
 		SASStringBTreeNodePutValIndexed (ref.node, ref.pos, value);
 	    }
 	}
-      btree->common->count++;
       SASUnlock (heap);
     }
   return result;		// return prev value if already exist
@@ -1618,7 +1623,6 @@ SASStringBTreeReplace_nolock (SASStringBTree_t heap, const char *key, void *valu
                 SASStringBTreeNodePutValIndexed (ref.node, ref.pos, value);
             }
         }
-      btree->common->count++;
     }
   return result;                // return prev value if already exist
 }
-- 
2.43.0


From be7e9efabebb46af77a9f356577653fd22a2b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 09/92] fix: keep the count and the extreme keys right when
 removing from a tree

---
 src/sasindex.cpp       |  86 ++++++++++++------------
 src/sasstringbtree.cpp | 146 +++++++++++++++++++++--------------------
 2 files changed, 118 insertions(+), 114 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 1a46459..69efa24 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -1524,43 +1524,44 @@ SASIndexRemove (SASIndex_t  heap, SASIndexKey_t *key)
 		    //found = getNode(key, &ref);
 		    if (found)
 		    {
+				int wasmin, wasmax;
 				result = SASIndexNodeGetValIndexed(ref.node, ref.pos);
-		    }
-			  
-		    newRoot = SASIndexNodeDelete(btree->root, key, LOCK_OFF);
-		    if ( newRoot != btree->root )
-		    {   //Delete the old root which is empty
-				SASIndexNearDealloc(btree->root);
-				btree->root = newRoot;
-		    }
-		    if ( btree->root != NULL )
-		    {
-				btree->common->count--;
-				if (btree->common->count > 0)
+				// key may be the min/max key of the tree itself
+				wasmin = (SASIndexKeyCompare(key, btree->common->min_key) == 0);
+				wasmax = (SASIndexKeyCompare(key, btree->common->max_key) == 0);
+
+				newRoot = SASIndexNodeDelete(btree->root, key, LOCK_OFF);
+				if ( newRoot != btree->root )
+				{   //Delete the old root which is empty
+				    SASIndexNearDealloc(btree->root);
+				    btree->root = newRoot;
+				}
+				if ( btree->root != NULL )
 				{
-				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
+				    btree->common->count--;
+				    if (wasmin)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if (node->branch[0] != NULL)
+				        while (node->branch[0] != NULL)
 				        {
 				            node = node->branch[0];
 				        }
 				        SASIndexUpdateMin(heap, node->keys[1]);
 				    }
-				    if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
+				    if (wasmax)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if(node->branch[node->count] != NULL)
+				        while (node->branch[node->count] != NULL)
 				        {
 				            node = node->branch[node->count];
 				        }
-				        SASIndexUpdateMax(heap ,node->keys[(node->count)]);
+				        SASIndexUpdateMax(heap, node->keys[node->count]);
 				    }
+				} else {
+				    btree->common->count = 0;
+				    SASIndexUpdateMax(heap, NULL);
+				    SASIndexUpdateMin(heap, NULL);
 				}
-		    } else {
-				btree->common->count = 0;
-				SASIndexUpdateMax(heap, NULL);
-				SASIndexUpdateMin(heap, NULL);
 		    }
 		} else {
 		    btree->common->count = 0;
@@ -1591,43 +1592,44 @@ SASIndexRemove_nolock (SASIndex_t  heap, SASIndexKey_t *key)
 		    //found = getNode(key, &ref);
 		    if (found)
 		    {
+				int wasmin, wasmax;
 				result = SASIndexNodeGetValIndexed(ref.node, ref.pos);
-		    }
-
-		    newRoot = SASIndexNodeDelete(btree->root, key, LOCK_OFF);
-		    if ( newRoot != btree->root )
-		    {   //Delete the old root which is empty
-				SASIndexNearDeallocNoLock(btree->root);
-				btree->root = newRoot;
-		    }
-		    if ( btree->root != NULL )
-		    {
-				btree->common->count--;
-				if (btree->common->count > 0)
+				// key may be the min/max key of the tree itself
+				wasmin = (SASIndexKeyCompare(key, btree->common->min_key) == 0);
+				wasmax = (SASIndexKeyCompare(key, btree->common->max_key) == 0);
+
+				newRoot = SASIndexNodeDelete(btree->root, key, LOCK_OFF);
+				if ( newRoot != btree->root )
+				{   //Delete the old root which is empty
+				    SASIndexNearDeallocNoLock(btree->root);
+				    btree->root = newRoot;
+				}
+				if ( btree->root != NULL )
 				{
-				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
+				    btree->common->count--;
+				    if (wasmin)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if (node->branch[0] != NULL)
+				        while (node->branch[0] != NULL)
 				        {
 				            node = node->branch[0];
 				        }
 				        SASIndexUpdateMin(heap, node->keys[1]);
 				    }
-				    if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
+				    if (wasmax)
 				    {
 				        node = (SASIndexNodeHeader *) btree->root;
-				        if(node->branch[node->count] != NULL)
+				        while (node->branch[node->count] != NULL)
 				        {
 				            node = node->branch[node->count];
 				        }
-				        SASIndexUpdateMax(heap ,node->keys[(node->count)]);
+				        SASIndexUpdateMax(heap, node->keys[node->count]);
 				    }
+				} else {
+				    btree->common->count = 0;
+				    SASIndexUpdateMax(heap, NULL);
+				    SASIndexUpdateMin(heap, NULL);
 				}
-		    } else {
-				btree->common->count = 0;
-				SASIndexUpdateMax(heap, NULL);
-				SASIndexUpdateMin(heap, NULL);
 		    }
 		} else {
 		    btree->common->count = 0;
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 7246cf3..a97061b 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -1649,41 +1649,42 @@ SASStringBTreeRemove (SASStringBTree_t heap, const char *key)
 	  //found = getNode(key, &ref);
 	  if (found)
 	    {
+	      int wasmin, wasmax;
 	      result = SASStringBTreeNodeGetValIndexed (ref.node, ref.pos);
-	    }
-
-	  newRoot = SASStringBTreeNodeDelete (btree->root, key, LOCK_OFF);
-	  if (newRoot != btree->root)
-	    {			//Delete the old root which is empty
-	      SASStringBTreeNearDealloc (btree->root);
-	      btree->root = newRoot;
-	    }
-	  if (btree->root != NULL)
-	    {
-	      btree->common->count--;
-              if (btree->common->count > 0)
-                {
-                  if(strcmp(key, btree->common->min_key) == 0)
-                    {
-                       node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[0] != NULL)
-                          node = node->branch[0];
-                       SASStringBTreeUpdateMin(heap, node->keys[1]);
-                    }
-                  if(strcmp(key, btree->common->max_key) == 0)
-                    {
-                       node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[node->count] != NULL)
-                          node = node->branch[node->count];
-                       SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
-                    }
-                }
-	    }
-	  else
-	    {
-	      btree->common->count = 0;
-	      SASStringBTreeUpdateMax (heap, NULL);
-	      SASStringBTreeUpdateMin (heap, NULL);
+	      // key may be the min/max key of the tree itself
+	      wasmin = (strcmp (key, btree->common->min_key) == 0);
+	      wasmax = (strcmp (key, btree->common->max_key) == 0);
+
+	      newRoot = SASStringBTreeNodeDelete (btree->root, key, LOCK_OFF);
+	      if (newRoot != btree->root)
+		{		//Delete the old root which is empty
+		  SASStringBTreeNearDealloc (btree->root);
+		  btree->root = newRoot;
+		}
+	      if (btree->root != NULL)
+		{
+		  btree->common->count--;
+		  if (wasmin)
+		    {
+		      node = (SASStringBTreeNodeHeader *) btree->root;
+		      while (node->branch[0] != NULL)
+			node = node->branch[0];
+		      SASStringBTreeUpdateMin (heap, node->keys[1]);
+		    }
+		  if (wasmax)
+		    {
+		      node = (SASStringBTreeNodeHeader *) btree->root;
+		      while (node->branch[node->count] != NULL)
+			node = node->branch[node->count];
+		      SASStringBTreeUpdateMax (heap, node->keys[node->count]);
+		    }
+		}
+	      else
+		{
+		  btree->common->count = 0;
+		  SASStringBTreeUpdateMax (heap, NULL);
+		  SASStringBTreeUpdateMin (heap, NULL);
+		}
 	    }
 	}
       else
@@ -1714,44 +1715,45 @@ SASStringBTreeRemove_nolock (SASStringBTree_t heap, const char *key)
           int found;
           found = SASStringBTreeNodeSearch (btree->root, key, &ref);
 	  //found = getNode(key, &ref);
-          if (found)
-            {
-              result = SASStringBTreeNodeGetValIndexed (ref.node, ref.pos);
-            }
-
-          newRoot = SASStringBTreeNodeDelete (btree->root, key, LOCK_OFF);
-          if (newRoot != btree->root)
-	    {			//Delete the old root which is empty
-              SASStringBTreeNearDeallocNoLock (btree->root);
-              btree->root = newRoot;
-            }
-          if (btree->root != NULL)
-            {
-              btree->common->count--;
-              if (btree->common->count > 0)
-                {
-                  if(strcmp(key, btree->common->min_key) == 0)
-                    {
-                       node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[0] != NULL)
-                          node = node->branch[0];
-                       SASStringBTreeUpdateMin(heap, node->keys[1]);
-                    }
-                  if(strcmp(key, btree->common->max_key) == 0)
-                    {
-                       node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[node->count] != NULL)
-                          node = node->branch[node->count];
-                       SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
-                    }
-                }
-            }
-          else
-            {
-              btree->common->count = 0;
-              SASStringBTreeUpdateMax (heap, NULL);
-              SASStringBTreeUpdateMin (heap, NULL);
-            }
+	  if (found)
+	    {
+	      int wasmin, wasmax;
+	      result = SASStringBTreeNodeGetValIndexed (ref.node, ref.pos);
+	      // key may be the min/max key of the tree itself
+	      wasmin = (strcmp (key, btree->common->min_key) == 0);
+	      wasmax = (strcmp (key, btree->common->max_key) == 0);
+
+	      newRoot = SASStringBTreeNodeDelete (btree->root, key, LOCK_OFF);
+	      if (newRoot != btree->root)
+		{		//Delete the old root which is empty
+		  SASStringBTreeNearDeallocNoLock (btree->root);
+		  btree->root = newRoot;
+		}
+	      if (btree->root != NULL)
+		{
+		  btree->common->count--;
+		  if (wasmin)
+		    {
+		      node = (SASStringBTreeNodeHeader *) btree->root;
+		      while (node->branch[0] != NULL)
+			node = node->branch[0];
+		      SASStringBTreeUpdateMin (heap, node->keys[1]);
+		    }
+		  if (wasmax)
+		    {
+		      node = (SASStringBTreeNodeHeader *) btree->root;
+		      while (node->branch[node->count] != NULL)
+			node = node->branch[node->count];
+		      SASStringBTreeUpdateMax (heap, node->keys[node->count]);
+		    }
+		}
+	      else
+		{
+		  btree->common->count = 0;
+		  SASStringBTreeUpdateMax (heap, NULL);
+		  SASStringBTreeUpdateMin (heap, NULL);
+		}
+	    }
         }
       else
         {
-- 
2.43.0


From aa2929de50c521d01d7a90dd0e58c8a0f79d7f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 10/92] fix: initialise the last slot of a tree node and keep a
 key moved over an old one

---
 src/sasindexnode.cpp       | 3 +--
 src/sasstringbtreenode.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sasindexnode.cpp b/src/sasindexnode.cpp
index 7cd8b95..e3268a7 100644
--- a/src/sasindexnode.cpp
+++ b/src/sasindexnode.cpp
@@ -130,7 +130,7 @@ SASIndexNodeInit (void *heap_seg, sas_type_t sasType, block_size_t heap_size)
   heapBlock->spill2 = NULL;
   heapBlock->spill3 = NULL;
 
-  for (i = 0; i < heapBlock->max_count; i++)
+  for (i = 0; i <= heapBlock->max_count; i++)
     {
       heapBlock->keys[i] = NULL;
       heapBlock->branch[i] = NULL;
@@ -1219,7 +1219,6 @@ SASIndexNodeKeyMove (SASIndexNode_t heap, short pos,
     {
       int keylen = SASIndexKeySize (oldkey);
       SASIndexNodeNearDealloc (heap, oldkey, keylen, lock_on);
-      node->keys[pos] = NULL;
     }
 
   if (key != NULL)
diff --git a/src/sasstringbtreenode.cpp b/src/sasstringbtreenode.cpp
index 87babe4..9ad06fd 100644
--- a/src/sasstringbtreenode.cpp
+++ b/src/sasstringbtreenode.cpp
@@ -142,7 +142,7 @@ SASStringBTreeNodeInit (void *heap_seg, sas_type_t sasType,
   heapBlock->spill2 = NULL;
   heapBlock->spill3 = NULL;
 
-  for (i = 0; i < heapBlock->max_count; i++)
+  for (i = 0; i <= heapBlock->max_count; i++)
     {
       heapBlock->keys[i] = NULL;
       heapBlock->branch[i] = NULL;
@@ -1231,7 +1231,6 @@ SASStringBTreeNodeKeyMove (SASStringBTreeNode_t heap, short pos, const char *key
     {
       int keylen = strlen (oldkey) + 1;
       SASStringBTreeNodeNearDealloc (heap, oldkey, keylen, lock_on);
-      node->keys[pos] = NULL;
     }
 
   if (key != NULL)
-- 
2.43.0


From 5ddcbb595d5bf11565c66e81cc736b6d9e8ce4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 11/92] fix: release the key of a split child once its parent
 holds a copy

---
 src/sasindexnode.cpp       | 8 ++++++++
 src/sasstringbtreenode.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/sasindexnode.cpp b/src/sasindexnode.cpp
index e3268a7..8e0f39c 100644
--- a/src/sasindexnode.cpp
+++ b/src/sasindexnode.cpp
@@ -1432,6 +1432,7 @@ SASIndexNodePushDown (SASIndexNode_t node_t,
   short pos;			// AKA k
   int found;
   int pushup = false;
+  SASIndexKey_t *upkey = NULL;		// key pushed up out of the child
 
 #ifdef __SASDebugPrint__
   sas_printf ("PushDown@%p newkey=%lx lock_on=%d\n", node, newkey->data[0], lock_on);
@@ -1465,6 +1466,8 @@ SASIndexNodePushDown (SASIndexNode_t node_t,
     {
       pushup = SASIndexNodePushDown (node->branch[pos], newkey, newval,
     		  ref, lock_on);
+      if (pushup)
+	upkey = ref->key;
     }
   else
     {
@@ -1492,6 +1495,11 @@ SASIndexNodePushDown (SASIndexNode_t node_t,
 	  pushup = true;
 	  SASIndexNodeSplit (node_t, ref, pos, ref, lock_on);
 	}
+      if (upkey != NULL)
+	{			// this node has a copy of its own now
+	  SASIndexNodeNearDealloc (node_t, upkey, SASIndexKeySize (upkey),
+			   lock_on);
+	}
     }
   return pushup;
 }
diff --git a/src/sasstringbtreenode.cpp b/src/sasstringbtreenode.cpp
index 9ad06fd..62a74ba 100644
--- a/src/sasstringbtreenode.cpp
+++ b/src/sasstringbtreenode.cpp
@@ -1439,6 +1439,7 @@ SASStringBTreeNodePushDown (SASStringBTreeNode_t node_t,
   short pos;			// AKA k
   int found;
   int pushup = false;
+  const char *upkey = NULL;		// key pushed up out of the child
 
 #ifdef __SASDebugPrint__
   sas_printf ("PushDown@%p newkey=%s lock_on=%d\n", node, newkey, lock_on);
@@ -1472,6 +1473,8 @@ SASStringBTreeNodePushDown (SASStringBTreeNode_t node_t,
     {
       pushup = SASStringBTreeNodePushDown (node->branch[pos], newkey,
 					   newval, ref, lock_on);
+      if (pushup)
+	upkey = ref->key;
     }
   else
     {
@@ -1499,6 +1502,11 @@ SASStringBTreeNodePushDown (SASStringBTreeNode_t node_t,
 	  pushup = true;
 	  SASStringBTreeNodeSplit (node_t, ref, pos, ref, lock_on);
 	}
+      if (upkey != NULL)
+	{			// this node has a copy of its own now
+	  SASStringBTreeNodeNearDealloc (node_t, upkey, strlen (upkey) + 1,
+			   lock_on);
+	}
     }
   return pushup;
 }
-- 
2.43.0


From c9a8ab7a6455d6c9bedac2c543a8aef7daf2d831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 12/92] fix: refuse an insertion when no node is left to split
 into

---
 src/sasindex.cpp           | 18 +++++++++-----
 src/sasindexnode.cpp       | 49 ++++++++++++++++++++++++++++++++++++++
 src/sasstringbtree.cpp     | 30 +++++++++++++----------
 src/sasstringbtreenode.cpp | 49 ++++++++++++++++++++++++++++++++++++++
 4 files changed, 128 insertions(+), 18 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 69efa24..35bd03e 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -1398,12 +1398,15 @@ SASIndexPut (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 		    } 
 		} else {
 		    btree->root = SASIndexAlloc(heap);
-		    SASIndexNodeInitialize(btree->root, key, value, LOCK_OFF);
-		    SASIndexUpdateMin(heap, key);
-		    SASIndexUpdateMax(heap, key);
+		    if (btree->root != NULL)
+		    {
+			SASIndexNodeInitialize(btree->root, key, value, LOCK_OFF);
+			SASIndexUpdateMin(heap, key);
+			SASIndexUpdateMax(heap, key);
 			btree->common->modCount++;
 			btree->common->count++;
 			result = true;
+		    }
 		};
 		SASUnlock(heap);
     }
@@ -1437,12 +1440,15 @@ SASIndexPut_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
 		    }
 		} else {
 		    btree->root = SASIndexAllocNoLock(heap);
-		    SASIndexNodeInitialize(btree->root, key, value, LOCK_OFF);
-		    SASIndexUpdateMin(heap, key);
-		    SASIndexUpdateMax(heap, key);
+		    if (btree->root != NULL)
+		    {
+			SASIndexNodeInitialize(btree->root, key, value, LOCK_OFF);
+			SASIndexUpdateMin(heap, key);
+			SASIndexUpdateMax(heap, key);
 			btree->common->modCount++;
 			btree->common->count++;
 			result = true;
+		    }
 		};
     }
 	return result; /* False indicates duplicate key */
diff --git a/src/sasindexnode.cpp b/src/sasindexnode.cpp
index 8e0f39c..afd5870 100644
--- a/src/sasindexnode.cpp
+++ b/src/sasindexnode.cpp
@@ -1524,6 +1524,52 @@ SASIndexNodeInitialize (SASIndexNode_t node_t,
   return result;
 }
 
+/* Check that the nodes needed to split the full nodes on the path to
+ * newkey are available, so that an insertion that does not fit is
+ * refused before it changes anything.  */
+static int
+SASIndexNodeCanSplit (SASIndexNode_t root, const SASIndexKey_t *newkey,
+		lock_on_t lock_on)
+{
+  SASIndexNode_t full[32], spare[33];
+  SASIndexNodeHeader *node = (SASIndexNodeHeader *) root;
+  int nfull = 0, need, n = 0;
+
+  while (node != NULL)
+    {
+      short pos = SASIndexNodeSearchNode (node, newkey);
+      if (pos >= 0)
+	return true;		/* duplicate key, nothing to split */
+      if (node->count < node->max_count)
+	nfull = 0;
+      else if (nfull < 32)
+	full[nfull++] = node;
+      node = node->branch[pos + 256];
+    }
+
+  need = nfull;
+  if (nfull > 0 && full[0] == root)
+    need++;			/* a new root on top of the old one */
+  for (n = 0; n < need; n++)
+    {
+      SASIndexNode_t nearNode = (n < nfull) ? full[nfull - 1 - n] : root;
+      if (lock_on == LOCK_ON)
+	spare[n] = SASIndexNearAlloc (nearNode);
+      else
+	spare[n] = SASIndexNearAllocNoLock (nearNode);
+      if (spare[n] == NULL)
+	break;
+    }
+  for (int i = n - 1; i >= 0; i--)
+    {
+      if (lock_on == LOCK_ON)
+	SASIndexNearDealloc (spare[i]);
+      else
+	SASIndexNearDeallocNoLock (spare[i]);
+    }
+  return n == need;
+}
+
 SASIndexNode_t
 SASIndexNodeInsert (SASIndexNode_t node_t,
 		    SASIndexKey_t * newkey, void *newval, lock_on_t lock_on)
@@ -1536,6 +1582,9 @@ SASIndexNodeInsert (SASIndexNode_t node_t,
 #ifdef __SASDebugPrint__
   sas_printf ("Insert@%p newkey=%lx lock_on=%d\n", node, newkey->data[0], lock_on);
 #endif
+  if (!SASIndexNodeCanSplit (node_t, newkey, lock_on))
+    return NULL;
+
   pushup = SASIndexNodePushDown (node_t, newkey, newval, &xref, lock_on);
   if (pushup)
     {
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index a97061b..61d1927 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -1520,12 +1520,15 @@ SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
       else
 	{
 	  btree->root = SASStringBTreeAlloc (heap);
-	  SASStringBTreeNodeInitialize (btree->root, key, value, LOCK_OFF);
-	  SASStringBTreeUpdateMin (heap, key);
-	  SASStringBTreeUpdateMax (heap, key);
-	  btree->common->modCount++;
-	  btree->common->count++;
-	  result = true;
+	  if (btree->root != NULL)
+	    {
+	      SASStringBTreeNodeInitialize (btree->root, key, value, LOCK_OFF);
+	      SASStringBTreeUpdateMin (heap, key);
+	      SASStringBTreeUpdateMax (heap, key);
+	      btree->common->modCount++;
+	      btree->common->count++;
+	      result = true;
+	    }
 	};
       SASUnlock (heap);
     }
@@ -1560,12 +1563,15 @@ SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
       else
         {
           btree->root = SASStringBTreeAllocNoLock (heap);
-          SASStringBTreeNodeInitialize (btree->root, key, value, LOCK_OFF);
-          SASStringBTreeUpdateMin (heap, key);
-          SASStringBTreeUpdateMax (heap, key);
-          btree->common->modCount++;
-          btree->common->count++;
-          result = true;
+	  if (btree->root != NULL)
+	    {
+	      SASStringBTreeNodeInitialize (btree->root, key, value, LOCK_OFF);
+	      SASStringBTreeUpdateMin (heap, key);
+	      SASStringBTreeUpdateMax (heap, key);
+	      btree->common->modCount++;
+	      btree->common->count++;
+	      result = true;
+	    }
         };
     }
   return result;                /* False indicates duplicate key */
diff --git a/src/sasstringbtreenode.cpp b/src/sasstringbtreenode.cpp
index 62a74ba..97a8599 100644
--- a/src/sasstringbtreenode.cpp
+++ b/src/sasstringbtreenode.cpp
@@ -1529,6 +1529,52 @@ SASStringBTreeNodeInitialize (SASStringBTreeNode_t node_t,
   node->branch[0] = NULL;
 }
 
+/* Check that the nodes needed to split the full nodes on the path to
+ * newkey are available, so that an insertion that does not fit is
+ * refused before it changes anything.  */
+static int
+SASStringBTreeNodeCanSplit (SASStringBTreeNode_t root, const char *newkey,
+		lock_on_t lock_on)
+{
+  SASStringBTreeNode_t full[32], spare[33];
+  SASStringBTreeNodeHeader *node = (SASStringBTreeNodeHeader *) root;
+  int nfull = 0, need, n = 0;
+
+  while (node != NULL)
+    {
+      short pos = SASStringBTreeNodeSearchNode (node, newkey);
+      if (pos >= 0)
+	return true;		/* duplicate key, nothing to split */
+      if (node->count < node->max_count)
+	nfull = 0;
+      else if (nfull < 32)
+	full[nfull++] = node;
+      node = node->branch[pos + 256];
+    }
+
+  need = nfull;
+  if (nfull > 0 && full[0] == root)
+    need++;			/* a new root on top of the old one */
+  for (n = 0; n < need; n++)
+    {
+      SASStringBTreeNode_t nearNode = (n < nfull) ? full[nfull - 1 - n] : root;
+      if (lock_on == LOCK_ON)
+	spare[n] = SASStringBTreeNearAlloc (nearNode);
+      else
+	spare[n] = SASStringBTreeNearAllocNoLock (nearNode);
+      if (spare[n] == NULL)
+	break;
+    }
+  for (int i = n - 1; i >= 0; i--)
+    {
+      if (lock_on == LOCK_ON)
+	SASStringBTreeNearDealloc (spare[i]);
+      else
+	SASStringBTreeNearDeallocNoLock (spare[i]);
+    }
+  return n == need;
+}
+
 SASStringBTreeNode_t
 SASStringBTreeNodeInsert (SASStringBTreeNode_t node_t,
 			  const char *newkey, void *newval, lock_on_t lock_on)
@@ -1541,6 +1587,9 @@ SASStringBTreeNodeInsert (SASStringBTreeNode_t node_t,
 #ifdef __SASDebugPrint__
   sas_printf ("Insert@%p newkey=%s lock_on=%d\n", node, newkey, lock_on);
 #endif
+  if (!SASStringBTreeNodeCanSplit (node_t, newkey, lock_on))
+    return NULL;
+
   pushup = SASStringBTreeNodePushDown (node_t, newkey, newval, &xref, lock_on);
   if (pushup)
     {
-- 
2.43.0


From de628f527806971c681632fa89cb011ca123c3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 13/92] fix: unlock the block that was locked and do not leak a
 block in the trees

---
 src/sasindex.cpp       | 9 ++++++---
 src/sasstringbtree.cpp | 7 +++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 35bd03e..9e1b7fa 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -265,7 +265,10 @@ SASIndexExpandCreate (SASIndex_t heap)
     SASIndexCommon	*commonPtr = headerBlock->common;
     SASBlockHeader	*heapBlock = NULL;
     SASIndex_t newHeap = NULL;
-    
+
+    if ((list == NULL) || (list->count >= list->max_count))
+    	return NULL;	/* no room to record another block */
+
     heapBlock = (SASBlockHeader*)SASBlockAlloc ((long)heap_size);
     if ( heapBlock )
     {
@@ -533,11 +536,11 @@ SASIndexFree (SASIndex_t heap,
 					{
 						SASIndexFreeInternal (expandBlock, free_block);					
 						if ( i > 0 )
-							SASUnlock(heap);
+							SASUnlock(expandBlock);
 			    		break;
 			    	}
 					if ( i > 0 )
-			    		SASUnlock(heap);
+			    		SASUnlock(expandBlock);
 				}
 			} else {
 				if (SASIndexContains(headerBlock, free_block))
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 61d1927..61accf7 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -280,6 +280,9 @@ SASStringBTreeExpandCreate (SASStringBTree_t heap)
   SASBlockHeader *heapBlock = NULL;
   SASStringBTree_t newHeap = NULL;
 
+  if ((list == NULL) || (list->count >= list->max_count))
+    return NULL;		/* no room to record another block */
+
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) heap_size);
   if (heapBlock)
     {
@@ -565,11 +568,11 @@ SASStringBTreeFree (SASStringBTree_t heap, SASStringBTreeNode_t free_block)
 		    {
 		      SASStringBTreeFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
-- 
2.43.0


From 61c842649a4e412b18fc0f70e62e784f709aeb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 14/92] fix: unlock exactly the blocks that a tree locked while
 looking for room

---
 src/sasindex.cpp       | 12 ++++++------
 src/sasstringbtree.cpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 9e1b7fa..bff10e3 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -414,6 +414,7 @@ SASIndexAlloc (SASIndex_t heap)
 	    	
 	    	if (SASIndexPercentUsed(lastHeader) >= DEFAULT_LOAD_FACTOR)
 	    	{
+				last_lock = list->count - 1;
 				for ( i = 0; i < list->count-1; i++ )
 				{
 					SASIndexHeader	*expandBlock = list->heap[i];
@@ -423,7 +424,7 @@ SASIndexAlloc (SASIndex_t heap)
 			    	       < DEFAULT_LOAD_FACTOR )
 			    	{
 			    		expandHeader = expandBlock;
-			    		last_lock = i;
+			    		last_lock = i + 1;
 			    		break;
 			    	}
 				}
@@ -431,7 +432,6 @@ SASIndexAlloc (SASIndex_t heap)
 				{
 					expandHeader = (SASIndexHeader*)
 					                 SASIndexExpandCreate (heap);
-		    		last_lock = list->count-2;
 				}
 	    	} else {
 	    		expandHeader = lastHeader;
@@ -441,7 +441,7 @@ SASIndexAlloc (SASIndex_t heap)
 				
 	    	if (lastHeader != expandHeader)
 	    	{
-				for ( i = 1; i <= last_lock; i++ )
+				for ( i = 1; i < last_lock; i++ )
 				{
 	    			SASUnlock(list->heap[i]);
 				}
@@ -734,7 +734,7 @@ SASIndexSpillAllocExtended (SASIndex_t heap, lock_on_t lock_on)
 	    	
 	    	if (SASIndexPercentUsed(lastHeader) >= DEFAULT_LOAD_FACTOR)
 	    	{
-	    		last_lock = list->count-2;
+	    		last_lock = list->count - 1;
 				for ( i = 0; i < list->count-1; i++ )
 				{
 					SASIndexHeader	*expandBlock = list->heap[i];
@@ -744,7 +744,7 @@ SASIndexSpillAllocExtended (SASIndex_t heap, lock_on_t lock_on)
 			    	       < DEFAULT_LOAD_FACTOR )
 			    	{
 			    		expandHeader = expandBlock;
-			    		last_lock = i;
+			    		last_lock = i + 1;
 			    		break;
 			    	}
 				}
@@ -761,7 +761,7 @@ SASIndexSpillAllocExtended (SASIndex_t heap, lock_on_t lock_on)
 				
 	    	if (lastHeader != expandHeader)
 	    	{
-				for ( i = 1; i <= last_lock; i++ )
+				for ( i = 1; i < last_lock; i++ )
 				{
                                 if (lock_on) SASUnlock(list->heap[i]);
 				}
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 61accf7..f9938d4 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -432,6 +432,7 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 
 	  if (SASStringBTreePercentUsed (lastHeader) >= DEFAULT_LOAD_FACTOR)
 	    {
+	      last_lock = list->count - 1;
 	      for (i = 0; i < list->count - 1; i++)
 		{
 		  SASStringBTreeHeader *expandBlock = list->heap[i];
@@ -441,7 +442,7 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 		      < DEFAULT_LOAD_FACTOR)
 		    {
 		      expandHeader = expandBlock;
-		      last_lock = i;
+		      last_lock = i + 1;
 		      break;
 		    }
 		}
@@ -449,7 +450,6 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 		{
 		  expandHeader = (SASStringBTreeHeader *)
 		    SASStringBTreeExpandCreate (heap);
-	          last_lock = list->count - 2;
 		}
 	    }
 	  else
@@ -461,7 +461,7 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 
 	  if (lastHeader != expandHeader)
 	    {
-	      for (i = 1; i <= last_lock; i++)
+	      for (i = 1; i < last_lock; i++)
 		{
 		  SASUnlock (list->heap[i]);
 		}
@@ -794,7 +794,7 @@ SASStringBTreeSpillAllocExtended (SASStringBTree_t heap, lock_on_t lock_on)
 
 	  if (SASStringBTreePercentUsed (lastHeader) >= DEFAULT_LOAD_FACTOR)
 	    {
-	      last_lock = list->count - 2;
+	      last_lock = list->count - 1;
 	      for (i = 0; i < list->count - 1; i++)
 		{
 		  SASStringBTreeHeader *expandBlock = list->heap[i];
@@ -804,7 +804,7 @@ SASStringBTreeSpillAllocExtended (SASStringBTree_t heap, lock_on_t lock_on)
 		      < DEFAULT_LOAD_FACTOR)
 		    {
 		      expandHeader = expandBlock;
-		      last_lock = i;
+		      last_lock = i + 1;
 		      break;
 		    }
 		}
@@ -823,7 +823,7 @@ SASStringBTreeSpillAllocExtended (SASStringBTree_t heap, lock_on_t lock_on)
 
 	  if (lastHeader != expandHeader)
 	    {
-	      for (i = 1; i <= last_lock; i++)
+	      for (i = 1; i < last_lock; i++)
 		{
 		  if (lock_on) SASUnlock (list->heap[i]);
 		}
-- 
2.43.0


From 248e71810e73e13e18fc89afc3dd795c7035cf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 15/92] fix: define SASIndexContainsKey_nolock as declared

---
 src/sasindex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index bff10e3..f600dc4 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -1206,7 +1206,7 @@ SASIndexContainsKey (SASIndex_t  heap, SASIndexKey_t *key)
 }
 
 int
-SASIndexContainsKey_nolock (SASIndex_t  heap, SASIndexKey_t *key)
+SASIndexContainsKey_nolock (SASIndex_t  heap, const SASIndexKey_t *key)
 {
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
 	__IDXnodePosRef ref = {NULL, 0};
-- 
2.43.0


From 4fb8808bb0da35aef19d90763e5046a371619f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 16/92] fix: compare index keys of different length word by
 word

---
 src/sasindexkey.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sasindexkey.h b/src/sasindexkey.h
index 659cc77..7020f13 100644
--- a/src/sasindexkey.h
+++ b/src/sasindexkey.h
@@ -100,7 +100,15 @@ SASIndexKeyCompare (const SASIndexKey_t * op_a, const SASIndexKey_t * op_b)
 	  if (op_a->compare_size > op_b->compare_size)
 	    len = op_b->compare_size;
 
-	  rc = memcmp (&op_a->data[0], &op_b->data[0], len);
+	  unsigned int i;
+	  for (i = 1; i < (len / sizeof (machine_uint_t)); i++)
+	    {
+	      if (op_a->data[i] != op_b->data[i])
+		{
+		  rc = (op_a->data[i] > op_b->data[i]) ? 1 : -1;
+		  break;
+		}
+	    }
 
 	  if ((rc == 0) && (op_a->compare_size != op_b->compare_size))
 	    {
-- 
2.43.0


From 4949e683a3aa57d65b2550a84c5b7c6ab289aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 17/92] fix: give -0.0 and 0.0 the same index key

---
 src/sasindexkey.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sasindexkey.h b/src/sasindexkey.h
index 7020f13..09596fa 100644
--- a/src/sasindexkey.h
+++ b/src/sasindexkey.h
@@ -317,7 +317,8 @@ SASIndexKeyInitDouble (SASIndexKey_t * dest, double value)
 {
   sasindexkeymap_t	key_val;
 
-  key_val.double_key = value;
+  /* -0.0 equals 0.0, so both have the same key.  */
+  key_val.double_key = (value == 0.0) ? 0.0 : value;
 #ifdef __WORDSIZE_64
   dest->compare_size = sizeof (unsigned long long);
   dest->copy_size = sizeof (void *) + sizeof (unsigned long long);
-- 
2.43.0


From bc7db197eb497ab73c77e186be1276627b1249e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 18/92] fix: keep the position of a tree enumeration in a copy
 of the key

---
 src/sasindexenum.cpp       | 152 +++++----------------------
 src/sasstringbtreeenum.cpp | 204 +++++++++++--------------------------
 2 files changed, 84 insertions(+), 272 deletions(-)

diff --git a/src/sasindexenum.cpp b/src/sasindexenum.cpp
index d86b9b1..529e109 100644
--- a/src/sasindexenum.cpp
+++ b/src/sasindexenum.cpp
@@ -32,7 +32,8 @@ typedef struct __IDXEnumeration
   __IDXnodePosRef ref;
   long curmod;
   bool hasmore;
-  SASIndexKey_t entryIndex;
+  bool started;
+  SASIndexKey_t entryIndex;	/* private copy of the current key */
 } __IDXEnumeration;
 
 typedef void *SASIndexEnum_t;
@@ -49,6 +50,7 @@ SASIndexEnumCreate (SASIndex_t tree)
 	{
 	  indexenum->hasmore = !SASIndexIsEmpty (tree);
 	  indexenum->tree = tree;
+	  indexenum->started = false;
 	  indexenum->ref.node = NULL;
 	  indexenum->ref.pos = 0;
 	  SASIndexKeyInitRef (&indexenum->entryIndex, NULL);
@@ -77,123 +79,6 @@ SASIndexEnumHasMore (SASIndexEnum_t idxenum)
   return indexenum->hasmore;
 }
 
-void *
-SASIndexEnumNext (SASIndexEnum_t idxenum)
-{
-  __IDXEnumeration *indexenum = (__IDXEnumeration *) idxenum;
-  void *result = NULL;
-  bool found = false;
-  SASIndexKey_t *maxkey;
-
-
-  SASLock (indexenum->tree, SasUserLock__WRITE);
-  maxkey = SASIndexGetMaxKey (indexenum->tree);
-#if __SASDebugPrint__ > 1
-  sas_printf ("SASIndexEnumNext; enum->tree=%p maxkey=%p\n",
-		  indexenum->tree, maxkey);
-#endif
-  if (maxkey != NULL)
-    {
-      indexenum->hasmore =
-	(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
-      if (indexenum->hasmore)
-	{
-	  SASIndexNode_t curnode = indexenum->ref.node;
-	  long treemod = SASIndexGetModCount (indexenum->tree);
-
-	  if ((curnode != NULL) && (treemod == indexenum->curmod))
-	    {
-	      short curpos = indexenum->ref.pos;
-	      SASIndexNodeHeader *curSBnode = (SASIndexNodeHeader *) curnode;
-	      if (curpos < curSBnode->count)
-		{
-		  if (curSBnode->branch[curpos] == NULL)
-		    {
-		      curpos++;
-		      indexenum->ref.pos = curpos;
-		      result = curSBnode->vals[curpos];
-		      indexenum->curkey = curSBnode->keys[curpos];
-		      indexenum->hasmore =
-			(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
-		      found = true;
-		    }
-		  else
-		    {
-		      found =
-			SASIndexNodeSearchGT (curnode, indexenum->curkey,
-					      &indexenum->ref);
-		      if (found)
-			{
-			  curnode = indexenum->ref.node;
-			  curSBnode = (SASIndexNodeHeader *) curnode;
-			  curpos = indexenum->ref.pos;
-			  result = curSBnode->vals[curpos];
-			  indexenum->curkey = curSBnode->keys[curpos];
-			  indexenum->hasmore =
-			    (SASIndexKeyCompare (indexenum->curkey, maxkey) <
-			     0);
-			}
-		    }
-		}
-	    }
-	  if (!found)
-	    {
-#if __SASDebugPrint__ > 1
-		  sas_printf ("SASIndexEnumNext; !found enum->tree=%p curkey=%p=%ix\n",
-				  indexenum->tree, indexenum->curkey, indexenum->curkey->data[0]);
-#endif
-	      SASIndexNode_t curnode = SASIndexGetRootNode (indexenum->tree);
-	      if (indexenum->ref.node == NULL)
-	      {
-		      found = SASIndexNodeSearchGE (curnode, indexenum->curkey,
-					      &indexenum->ref);
-#if __SASDebugPrint__ > 1
-		      sas_printf ("SASIndexEnumNext; !found curnode=%p SearchGE=%d\n",
-				  curnode, found);
-#endif
-	      } else {
-	          found = SASIndexNodeSearchGT (curnode, indexenum->curkey,
-				      &indexenum->ref);
-#if __SASDebugPrint__ > 1
-	          sas_printf ("SASIndexEnumNext; !found curnode=%p SearchGT=%d\n",
-				  curnode, found);
-#endif
-	      }
-	      if (found)
-		{
-		  short curpos = indexenum->ref.pos;
-		  SASIndexNodeHeader *curSBnode =
-		    (SASIndexNodeHeader *) indexenum->ref.node;
-		  result = curSBnode->vals[curpos];
-		  indexenum->curkey = curSBnode->keys[curpos];
-		  indexenum->curmod = treemod;
-		  indexenum->hasmore =
-		    (SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
-#if __SASDebugPrint__ > 1
-		  sas_printf ("SASIndexEnumNext; curpos=%hd node=%p result=%p\n",
-				  curpos, curSBnode, result);
-#endif
-		}
-	      else
-		{
-		  indexenum->hasmore = false;
-		}
-	    }
-	}
-#ifdef __SASDebugPrint__
-    }
-  else
-    {
-      sas_printf ("SASIndexEnumNext; enum->tree=%p invalid\n",
-		  indexenum->tree);
-#endif
-    }
-  SASUnlock (indexenum->tree);
-//      sas_printf("{%s,%s,%d}",indexenum->curkey, maxkey, indexenum->hasmore);
-
-  return result;
-}
-
 void *
 SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 {
@@ -209,8 +94,10 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 #endif
   if (maxkey != NULL)
     {
-      indexenum->hasmore =
-	(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
+      int cmp = SASIndexKeyCompare (indexenum->curkey, maxkey);
+
+      /* before the first entry the start key itself is still to come */
+      indexenum->hasmore = indexenum->started ? (cmp < 0) : (cmp <= 0);
       if (indexenum->hasmore)
 	{
 	  SASIndexNode_t curnode = indexenum->ref.node;
@@ -227,7 +114,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 		      curpos++;
 		      indexenum->ref.pos = curpos;
 		      result = curSBnode->vals[curpos];
-		      indexenum->curkey = curSBnode->keys[curpos];
+		      SASIndexKeyCopy (indexenum->curkey, curSBnode->keys[curpos]);
 		      indexenum->hasmore =
 			(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
 		      found = true;
@@ -243,7 +130,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 			  curSBnode = (SASIndexNodeHeader *) curnode;
 			  curpos = indexenum->ref.pos;
 			  result = curSBnode->vals[curpos];
-			  indexenum->curkey = curSBnode->keys[curpos];
+			  SASIndexKeyCopy (indexenum->curkey, curSBnode->keys[curpos]);
 			  indexenum->hasmore =
 			    (SASIndexKeyCompare (indexenum->curkey, maxkey) <
 			     0);
@@ -258,7 +145,7 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 				  indexenum->tree, indexenum->curkey, indexenum->curkey->data[0]);
 #endif
 	      SASIndexNode_t curnode = SASIndexGetRootNode_nolock (indexenum->tree);
-	      if (indexenum->ref.node == NULL)
+	      if (!indexenum->started)
 	      {
 		      found = SASIndexNodeSearchGE (curnode, indexenum->curkey,
 					      &indexenum->ref);
@@ -280,7 +167,8 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 		  SASIndexNodeHeader *curSBnode =
 		    (SASIndexNodeHeader *) indexenum->ref.node;
 		  result = curSBnode->vals[curpos];
-		  indexenum->curkey = curSBnode->keys[curpos];
+		  SASIndexKeyCopy (indexenum->curkey, curSBnode->keys[curpos]);
+		  indexenum->started = true;
 		  indexenum->curmod = treemod;
 		  indexenum->hasmore =
 		    (SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
@@ -295,10 +183,11 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      indexenum->hasmore = false;
+#ifdef __SASDebugPrint__
       sas_printf ("SASIndexEnumNext_nolock; enum->tree=%p invalid\n",
 		  indexenum->tree);
 #endif
@@ -307,3 +196,16 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 
   return result;
 }
+
+void *
+SASIndexEnumNext (SASIndexEnum_t idxenum)
+{
+  __IDXEnumeration *indexenum = (__IDXEnumeration *) idxenum;
+  void *result;
+
+  SASLock (indexenum->tree, SasUserLock__WRITE);
+  result = SASIndexEnumNext_nolock (idxenum);
+  SASUnlock (indexenum->tree);
+
+  return result;
+}
diff --git a/src/sasstringbtreeenum.cpp b/src/sasstringbtreeenum.cpp
index 74c0568..464592d 100644
--- a/src/sasstringbtreeenum.cpp
+++ b/src/sasstringbtreeenum.cpp
@@ -32,11 +32,30 @@ typedef struct __SBEnumeration
   long curmod;
   long curcount;
   bool hasmore;
+  bool started;
+  char *keycopy;		/* private copy of the current key */
   char entryString[sizeof (void *)];
 } __SBEnumeration;
 
 typedef void *SASStringBTreeEnum_t;
 
+/* The tree may free or move its keys as soon as it is changed, so the
+ * enumeration remembers where it is in a copy of its own.  */
+static void
+__SBEnumSetKey (__SBEnumeration * stringenum, const char *key)
+{
+  char *copy = strdup (key);
+
+  if (copy != NULL)
+    {
+      free (stringenum->keycopy);
+      stringenum->keycopy = copy;
+      stringenum->curkey = copy;
+    }
+  else
+    stringenum->curkey = (char *) key;
+}
+
 SASStringBTreeEnum_t
 SASStringBTreeEnumCreate (SASStringBTree_t tree)
 {
@@ -50,6 +69,8 @@ SASStringBTreeEnumCreate (SASStringBTree_t tree)
 	{
 	  stringenum->hasmore = !SASStringBTreeIsEmpty (tree);
 	  stringenum->tree = tree;
+	  stringenum->started = false;
+	  stringenum->keycopy = NULL;
 	  stringenum->ref.node = NULL;
 	  stringenum->ref.pos = 0;
 	  stringenum->entryString[0] = '\0';
@@ -81,20 +102,20 @@ SASStringBTreeEnumCreateStartAt (SASStringBTree_t tree, char *start_key)
     {
       SASLock (tree, SasUserLock__WRITE);
       maxkey = SASStringBTreeGetMaxKey (tree);
-      if ((maxkey != NULL) && (strcmp (start_key, maxkey) < 0))
+      if ((maxkey != NULL) && (strcmp (start_key, maxkey) <= 0))
 	{
 	  stringenum->curmod = SASStringBTreeGetModCount (tree);
 	  stringenum->curcount = SASStringBTreeGetCurCount (tree);
 	  if (stringenum->curmod != 0L)
 	    {
-	      stringenum->hasmore = (strcmp (start_key, maxkey) < 0);
+	      stringenum->hasmore = (strcmp (start_key, maxkey) <= 0);
 	      stringenum->tree = tree;
+	      stringenum->started = false;
+	      stringenum->keycopy = NULL;
 	      stringenum->ref.node = NULL;
 	      stringenum->ref.pos = 0;
 	      memcpy ((char *) &stringenum->entryString[0],
 		      start_key, startkey_len);
-	      if (stringenum->entryString[0] != '\0')
-		stringenum->entryString[startkey_len - 2] -= 1;
 	      stringenum->curkey = &stringenum->entryString[0];
 	    }
 	  else
@@ -117,6 +138,8 @@ SASStringBTreeEnumCreateStartAt (SASStringBTree_t tree, char *start_key)
 void
 SASStringBTreeEnumDestroy (SASStringBTreeEnum_t stringenum)
 {
+  if (stringenum != NULL)
+    free (((__SBEnumeration *) stringenum)->keycopy);
   free (stringenum);
 }
 
@@ -141,135 +164,6 @@ SASStringBTreeEnumCurrent (SASStringBTreeEnum_t sbtenum)
   return stringenum->curkey;
 }
 
-void *
-SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
-{
-  __SBEnumeration *stringenum = (__SBEnumeration *) sbtenum;
-  void *result = NULL;
-  bool found = false;
-  char *maxkey;
-
-
-  SASLock (stringenum->tree, SasUserLock__WRITE);
-  maxkey = SASStringBTreeGetMaxKey (stringenum->tree);
-#if __SASDebugPrint__ > 1
-  sas_printf ("SASStringBTreeEnumNext; enum->tree=%p maxkey=%s\n",
-                  stringenum->tree, maxkey);
-#endif
-  if (maxkey != NULL)
-    {
-      stringenum->hasmore = (strcmp (stringenum->curkey, maxkey) < 0);
-      if (stringenum->hasmore)
-	{
-	  SASStringBTreeNode_t curnode = stringenum->ref.node;
-	  long treemod = SASStringBTreeGetModCount (stringenum->tree);
-
-	  if ((curnode != NULL) && (treemod == stringenum->curmod))
-	    {
-	      short curpos = stringenum->ref.pos;
-	      SASStringBTreeNodeHeader *curSBnode =
-		(SASStringBTreeNodeHeader *) curnode;
-	      if (curpos < curSBnode->count)
-		{
-		  if (curSBnode->branch[curpos] == NULL)
-		    {
-		      curpos++;
-		      stringenum->ref.pos = curpos;
-		      result = curSBnode->vals[curpos];
-		      stringenum->curkey = curSBnode->keys[curpos];
-		      stringenum->hasmore =
-			(strcmp (stringenum->curkey, maxkey) < 0);
-		      found = true;
-		    }
-		  else
-		    {
-		      found =
-			SASStringBTreeNodeSearchGT (curnode,
-						    stringenum->curkey,
-						    &stringenum->ref);
-		      if (found)
-			{
-			  curnode = stringenum->ref.node;
-			  curSBnode = (SASStringBTreeNodeHeader *) curnode;
-			  curpos = stringenum->ref.pos;
-			  result = curSBnode->vals[curpos];
-			  stringenum->curkey = curSBnode->keys[curpos];
-			  stringenum->curcount -= 1;
-			  stringenum->hasmore =
-			    (strcmp (stringenum->curkey, maxkey) < 0);
-			}
-		    }
-		  if (stringenum->hasmore)
-		    stringenum->curcount -= 1;
-		  else if (found)
-		    stringenum->curcount = 1;
-		  else
-		    stringenum->curcount = 0;
-		}
-	    }
-	  if (!found)
-	    {
-#if __SASDebugPrint__ > 1
-    sas_printf ("SASStringBTreeEnumNext; !found enum->tree=%s\n",
-            stringenum->tree, stringenum->curkey);
-#endif
-	      SASStringBTreeNode_t curnode =
-		SASStringBTreeGetRootNode (stringenum->tree);
-              if (stringenum->ref.node == NULL)
-              {
-	          found =
-		  SASStringBTreeNodeSearchGE (curnode, stringenum->curkey,
-					    &stringenum->ref);
-#if __SASDebugPrint__ > 1
-    sas_printf ("SASStringBTreeEnumNext; !found curnode=%p SearchGE=%d\n",
-                                  curnode, found);
-#endif
-              } else {
-	          found =
-		  SASStringBTreeNodeSearchGT (curnode, stringenum->curkey,
-					    &stringenum->ref);
-#if __SASDebugPrint__ > 1
-    sas_printf ("SASStringBTreeEnumNext; !found curnode=%p SearchGT=%d\n",
-                                  curnode, found);
-#endif
-              }
-	      if (found)
-		{
-		  short curpos = stringenum->ref.pos;
-		  SASStringBTreeNodeHeader *curSBnode =
-		    (SASStringBTreeNodeHeader *) stringenum->ref.node;
-		  result = curSBnode->vals[curpos];
-		  stringenum->curkey = curSBnode->keys[curpos];
-		  stringenum->curmod = treemod;
-		  stringenum->curcount =
-		    SASStringBTreeGetCurCount (stringenum->tree);
-		  stringenum->hasmore =
-		    (strcmp (stringenum->curkey, maxkey) < 0);
-#if __SASDebugPrint__ > 1
-     sas_printf ("SASStringBTreeEnumNext; curpos=%hd node=%p result=%p\n",
-                                  curpos, curSBnode, result);
-#endif
-		}
-	      else
-		{
-		  stringenum->hasmore = false;
-		}
-	    }
-	}
-#ifdef __SASDebugPrint__
-    }
-  else
-    {
-      sas_printf ("SASStringBTreeEnumNext; enum->tree=%p invalid\n",
-		  stringenum->tree);
-#endif
-    }
-  SASUnlock (stringenum->tree);
-//      sas_printf("{%s,%s,%d}",stringenum->curkey, maxkey, stringenum->hasmore);
-
-  return result;
-}
-
 void *
 SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 {
@@ -286,7 +180,10 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 #endif
   if (maxkey != NULL)
     {
-      stringenum->hasmore = (strcmp (stringenum->curkey, maxkey) < 0);
+      int cmp = strcmp (stringenum->curkey, maxkey);
+
+      /* before the first entry the start key itself is still to come */
+      stringenum->hasmore = stringenum->started ? (cmp < 0) : (cmp <= 0);
       if (stringenum->hasmore)
 	{
 	  SASStringBTreeNode_t curnode = stringenum->ref.node;
@@ -304,7 +201,7 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		      curpos++;
 		      stringenum->ref.pos = curpos;
 		      result = curSBnode->vals[curpos];
-		      stringenum->curkey = curSBnode->keys[curpos];
+		      __SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
 		      stringenum->hasmore =
 			(strcmp (stringenum->curkey, maxkey) < 0);
 		      found = true;
@@ -321,18 +218,13 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 			  curSBnode = (SASStringBTreeNodeHeader *) curnode;
 			  curpos = stringenum->ref.pos;
 			  result = curSBnode->vals[curpos];
-			  stringenum->curkey = curSBnode->keys[curpos];
-			  stringenum->curcount -= 1;
+			  __SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
 			  stringenum->hasmore =
 			    (strcmp (stringenum->curkey, maxkey) < 0);
 			}
 		    }
-		  if (stringenum->hasmore)
+		  if (found)
 		    stringenum->curcount -= 1;
-		  else if (found)
-		    stringenum->curcount = 1;
-		  else
-		    stringenum->curcount = 0;
 		}
 	    }
 	  if (!found)
@@ -343,7 +235,7 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 #endif
 	      SASStringBTreeNode_t curnode =
 		SASStringBTreeGetRootNodeNoLock (stringenum->tree);
-              if (stringenum->ref.node == NULL)
+              if (!stringenum->started)
               {
 	          found =
 		  SASStringBTreeNodeSearchGE (curnode, stringenum->curkey,
@@ -367,10 +259,14 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		  SASStringBTreeNodeHeader *curSBnode =
 		    (SASStringBTreeNodeHeader *) stringenum->ref.node;
 		  result = curSBnode->vals[curpos];
-		  stringenum->curkey = curSBnode->keys[curpos];
+		  __SBEnumSetKey (stringenum, curSBnode->keys[curpos]);
+		  stringenum->started = true;
+		  if (stringenum->curmod == treemod)
+		    stringenum->curcount -= 1;
+		  else
+		    stringenum->curcount =
+		      SASStringBTreeGetCurCount (stringenum->tree);
 		  stringenum->curmod = treemod;
-		  stringenum->curcount =
-		    SASStringBTreeGetCurCount (stringenum->tree);
 		  stringenum->hasmore =
 		    (strcmp (stringenum->curkey, maxkey) < 0);
 #if __SASDebugPrint__ > 1
@@ -384,10 +280,11 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      stringenum->hasmore = false;
+#ifdef __SASDebugPrint__
       sas_printf ("SASStringBTreeEnumNext_nolock; enum->tree=%p invalid\n",
 		  stringenum->tree);
 #endif
@@ -396,3 +293,16 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 
   return result;
 }
+
+void *
+SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
+{
+  __SBEnumeration *stringenum = (__SBEnumeration *) sbtenum;
+  void *result;
+
+  SASLock (stringenum->tree, SasUserLock__WRITE);
+  result = SASStringBTreeEnumNext_nolock (sbtenum);
+  SASUnlock (stringenum->tree);
+
+  return result;
+}
-- 
2.43.0


From e06c8caae9a1b29ac3951fa559db6b3d8d3cf11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 19/92] fix: refuse keys too long for a string tree to keep as
 its extreme keys

---
 src/sasstringbtree.cpp   | 30 ++++++++++++++++++------------
 src/sasstringbtree.h     |  6 ++++--
 src/sasstringbtreepriv.h |  4 ++++
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index f9938d4..865b2f7 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -1449,6 +1449,12 @@ SASStringBTreeUpdateMax (SASStringBTree_t heap, const char *key)
   char *tempkey;
   int key_len;
 
+  if (oldkey != NULL)
+    {
+      key_len = strlen (oldkey) + 1;
+      SASStringBTreeHeaderDealloc (heap, oldkey, key_len);
+    }
+
   if (key != NULL)
     {
       key_len = strlen (key) + 1;
@@ -1459,12 +1465,6 @@ SASStringBTreeUpdateMax (SASStringBTree_t heap, const char *key)
     {
       btree->common->max_key = NULL;
     }
-
-  if (oldkey != NULL)
-    {
-      key_len = strlen (oldkey) + 1;
-      SASStringBTreeHeaderDealloc (heap, oldkey, key_len);
-    }
 }
 
 static inline void
@@ -1475,6 +1475,12 @@ SASStringBTreeUpdateMin (SASStringBTree_t heap, const char *key)
   char *tempkey;
   int key_len;
 
+  if (oldkey != NULL)
+    {
+      key_len = strlen (oldkey) + 1;
+      SASStringBTreeHeaderDealloc (heap, oldkey, key_len);
+    }
+
   if (key != NULL)
     {
       key_len = strlen (key) + 1;
@@ -1485,12 +1491,6 @@ SASStringBTreeUpdateMin (SASStringBTree_t heap, const char *key)
     {
       btree->common->min_key = NULL;
     }
-
-  if (oldkey != NULL)
-    {
-      key_len = strlen (oldkey) + 1;
-      SASStringBTreeHeaderDealloc (heap, oldkey, key_len);
-    }
 }
 
 int
@@ -1499,6 +1499,9 @@ SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
   int result = false;
 
+  if (strlen (key) >= SASBTREE_MAX_KEY)
+    return false;
+
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
@@ -1544,6 +1547,9 @@ SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
   int result = false;
 
+  if (strlen (key) >= SASBTREE_MAX_KEY)
+    return false;
+
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
                                   SAS_RUNTIME_STRINGBTREE))
     {
diff --git a/src/sasstringbtree.h b/src/sasstringbtree.h
index 733e68e..0fbb5f9 100644
--- a/src/sasstringbtree.h
+++ b/src/sasstringbtree.h
@@ -515,7 +515,8 @@ SASStringBTreeGetCurCount (SASStringBTree_t btree);
  * @param key Key to use as index for the value.
  * @param value Memory address to insert in the B-Tree.
  * @return 1 if the operation succeeds or 0 otherwise.
- * For example if the key already exist in this B-Tree.
+ * For example if the key already exist in this B-Tree, or is longer than
+ * 511 bytes.
  */
 extern __C__ int
 SASStringBTreePut (SASStringBTree_t btree, const char *key, void *value);
@@ -537,7 +538,8 @@ SASStringBTreePut (SASStringBTree_t btree, const char *key, void *value);
  * @param key Key to use as index for the value.
  * @param value Memory address to insert in the B-Tree.
  * @return 1 if the operation succeeds or 0 otherwise.
- * For example if the key already exist in this B-Tree.
+ * For example if the key already exist in this B-Tree, or is longer than
+ * 511 bytes.
  */
 extern __C__ int
 SASStringBTreePut_nolock (SASStringBTree_t btree, const char *key, void *value);
diff --git a/src/sasstringbtreepriv.h b/src/sasstringbtreepriv.h
index f1ef42d..15e2d60 100644
--- a/src/sasstringbtreepriv.h
+++ b/src/sasstringbtreepriv.h
@@ -28,6 +28,10 @@ typedef struct SASCompoundExpandList {
 		struct SASStringBTreeHeader	*heap[SASBTREE_EXPANDLIST_SIZE];
 		} SASCompoundExpandList;
 
+/* The header keeps a copy of the smallest and of the largest key beside
+ * the expand list, so that a longer key could not always be copied.  */
+#define SASBTREE_MAX_KEY	512
+
 #define SASBTREE_SPILLLIST_SIZE	15
 typedef struct SASStringBTreeSpillList {
 		unsigned short	count;
-- 
2.43.0


From cc5554edcc22114f4e0c586000d8f7555bc53f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 20/92] fix: free a context's name after its last use and in
 its full size

---
 src/sphcontext.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 2441dd5..bc57aa6 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -403,6 +403,9 @@ SPHContextRemoveByNameNoLock (SPHContext_t contxt, const char *key)
 			{
 				int		strsize = strlen(strbuff) + 1;
 				
+				/* key may be strbuff itself, so free it last */
+				SASIndexRemove (header->objID, &keyID);
+				SASStringBTreeRemove (header->name, key);
 				rc = SPHContextFreeNoLock (contxt, strbuff, strsize);
 				if (rc)
 				{
@@ -413,8 +416,6 @@ SPHContextRemoveByNameNoLock (SPHContext_t contxt, const char *key)
 #endif
 				} else {
 					result = 0;
-					SASIndexRemove (header->objID, &keyID);
-					SASStringBTreeRemove (header->name, key);
 				}
 			}
 		} else {
@@ -481,7 +482,7 @@ SPHContextRemoveByAddrNoLock (SPHContext_t contxt, const void *value)
 		if (strbuff)
 		{
 			void	*val2;			
-			int		strsize = strlen(strbuff);
+			int		strsize = strlen(strbuff) + 1;
 	
 			val2 = (char*)SASStringBTreeGet(header->name, strbuff);
 			if (value == val2)
-- 
2.43.0


From 2ded1ef106e3e0249a1a0c44b907a5a45f23a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 21/92] fix: keep the old name of an address when a rename is
 refused

---
 src/sphcontext.cpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index bc57aa6..4009303 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -435,6 +435,35 @@ SPHContextRemoveByNameNoLock (SPHContext_t contxt, const char *key)
     return result;
 }
 
+/* Bind value to newkey before oldkey is given up, so that the old
+ * association is still there if the new one is refused.  */
+static int
+SPHContextReplaceNameNoLock (SPHContext_t contxt, const char *oldkey,
+		const char *newkey, void *value)
+{
+	SPHContextHeader	*header = (SPHContextHeader*) contxt;
+	block_size_t		alloc_size = strlen(newkey) + 1;
+	SASIndexKey_t		keyID;
+	char				*buff, *oldbuff;
+
+	buff = (char*) SPHContextAllocNoLock(contxt, alloc_size);
+	if (buff == NULL)
+		return 0;
+	strcpy(buff, newkey);
+	if (!SASStringBTreePut(header->name, newkey, value))
+	{
+		SPHContextFreeNoLock(contxt, buff, alloc_size);
+		return 0;
+	}
+	SASIndexKeyInitRef (&keyID, value);
+	oldbuff = (char*)SASIndexReplace (header->objID, &keyID, buff);
+	SASStringBTreeRemove (header->name, oldkey);
+	/* oldkey may be oldbuff itself, so free it last */
+	if (oldbuff)
+		SPHContextFreeNoLock(contxt, oldbuff, strlen(oldbuff) + 1);
+	return 1;
+}
+
 int
 SPHContextRename (SPHContext_t contxt, const char *oldkey, const char *newkey, void *value)
 {
@@ -449,8 +478,10 @@ SPHContextRename (SPHContext_t contxt, const char *oldkey, const char *newkey, v
     	oldval = SPHContextFindByNameNoLock(contxt, oldkey);
     	if (oldval && (oldval == value))
     	{
-		    SPHContextRemoveByNameNoLock(contxt,oldkey);
-    	    result = SPHContextAddNameNoLock(contxt, newkey, value);
+			if (strcmp(oldkey, newkey) == 0)
+				result = 1;
+			else
+				result = SPHContextReplaceNameNoLock(contxt, oldkey, newkey, value);
     	}
 		SASUnlock(contxt);
 #ifdef __SASDebugPrint__
-- 
2.43.0


From ce01465224dc9f00e7d9b440889f2fe49b2430e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 22/92] fix: refuse to bind a name to the null address

---
 src/sphcontext.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 4009303..abdba86 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -189,6 +189,9 @@ SPHContextAddNameNoLock (SPHContext_t contxt, const char *key, void *value)
     SASBlockHeader	*headerBlock = (SASBlockHeader*)contxt;
     int			rc = 0;
     
+    if (value == NULL)
+    	return 0;	/* could not be told from an unknown name */
+
     if (SOMSASCheckBlockSigAndType (headerBlock, 
               SAS_RUNTIME_CONTEXT) )
     {
-- 
2.43.0


From 5e7742a481f4c275acc44242cb25b4281c6ef8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 23/92] fix: give an initialised context its indexes and fail
 if there is no room for them

---
 src/sphcontext.cpp | 57 +++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index abdba86..61dc315 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -75,6 +75,31 @@ SPHContextInit (void* heap_seg,  sas_type_t sasType,
 		heapStart = (char*) heapBlock + heap_offset;
 		initSOMSASBlock(heapBlock, sasType, 
 		                           heap_size, heapStart);
+
+		SPHContextHeader	*header = (SPHContextHeader*) heapBlock;
+		header->name  = SASStringBTreeCreate (DEFAULT_BLOCK);
+#ifdef __SASDebugPrint__
+		if (header->name)
+    			sas_printf("SPHContextInit BTree=%p\n", header->name);
+		else
+    			sas_printf("SPHContextInit() BTree create failed\n");
+#endif
+		header->objID = SASIndexCreate (DEFAULT_BLOCK);
+#ifdef __SASDebugPrint__
+		if (header->objID)
+    			sas_printf("SPHContextInit Index=%p\n", header->objID);
+		else
+    			sas_printf("SPHContextInit() Index create failed\n");
+#endif
+		if (!header->name || !header->objID)
+		{
+			if (header->name)
+				SASStringBTreeDestroy(header->name);
+			if (header->objID)
+				SASIndexDestroy(header->objID);
+			memset (heapBlock, 0, sizeof (SPHContextHeader));
+			return NULL;
+		}
     }
 
     return (SPHContext_t)heapBlock;
@@ -92,24 +117,8 @@ SPHContextCreate (block_size_t heap_size)
 	    result = SPHContextInit(heapBlock, 
 	                            SAS_RUNTIME_CONTEXT, 
 		                        heap_size);
-		if (result != NULL)
-		{
-			SPHContextHeader	*header = (SPHContextHeader*) result;
-			header->name  = SASStringBTreeCreate (DEFAULT_BLOCK);
-#ifdef __SASDebugPrint__
-			if (header->name)
-	    			sas_printf("SPHContextAlloc BTree=%p\n", header->name);
-			else
-	    			sas_printf("SPHContextAlloc() BTree create failed\n");
-#endif
-			header->objID = SASIndexCreate (DEFAULT_BLOCK);
-#ifdef __SASDebugPrint__
-			if (header->objID)
-	    			sas_printf("SPHContextAlloc Index=%p\n", header->objID);
-			else
-	    			sas_printf("SPHContextAlloc() Index create failed\n");
-#endif
-		}
+		if (result == NULL)
+			SASBlockDealloc (heapBlock, heap_size);
 		return result;
     } else 
 	    return NULL;
@@ -762,6 +771,12 @@ SPHSetupProjectContext(const char *project_name)
 	{
 		rootcntx = SPHContextCreate(64 * 1024);
 		setSASFinder(rootcntx);
+		if (!rootcntx)
+		{
+			/* Context Create may be out of file or region space.  */
+			SASUnlock(rootlock);
+			return NULL;
+		}
 	}
 
 	result = SPHContextFindByName(rootcntx, project_name);
@@ -809,6 +824,12 @@ SPHSetupAltProjectContext(const char *project_name)
 	{
 		rootcntx = SPHContextCreate(64 * 1024);
 		setSASFinder(rootcntx);
+		if (!rootcntx)
+		{
+			/* Context Create may be out of file or region space.  */
+			SASUnlock(rootlock);
+			return NULL;
+		}
 	}
 
 	result = SPHContextFindByName(rootcntx, project_name);
-- 
2.43.0


From a9426da5de898a1eec996505396507cf7f1b0779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 24/92] fix: do not free a compound heap's own header as if it
 were a page

---
 src/sascompoundheap.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 429aac4..8dfc24c 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -790,7 +790,8 @@ SASCompoundHeapNearDeallocNoLock (void *nearObj)
 	compoundHeader = (SASCompoundHeapHeader *) nearHeader;
 
       if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) compoundHeader,
-				      SAS_RUNTIME_COMPOUNDHEAP))
+				      SAS_RUNTIME_COMPOUNDHEAP)
+	  && SASCompoundHeapContains (compoundHeader, nearHeader))
 	{
 	  SASCompoundHeapFreeInternal (compoundHeader, nearHeader);
 #ifdef __SASDebugPrint__
@@ -820,7 +821,8 @@ SASCompoundHeapNearDealloc (void *nearObj)
 	compoundHeader = (SASCompoundHeapHeader *) nearHeader;
 
       if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) compoundHeader,
-				      SAS_RUNTIME_COMPOUNDHEAP))
+				      SAS_RUNTIME_COMPOUNDHEAP)
+	  && SASCompoundHeapContains (compoundHeader, nearHeader))
 	{
 	  SASLock (compoundHeader, SasUserLock__WRITE);
 	  SASCompoundHeapFreeInternal (compoundHeader, nearHeader);
-- 
2.43.0


From 09c6d727a739cd9071bfe008338991688f10d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 25/92] fix: unlock the expansion that was locked when freeing
 a page

---
 src/sascompoundheap.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 8dfc24c..7c2c139 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -607,11 +607,11 @@ SASCompoundHeapFree (SASCompoundHeap_t heap, SASSimpleHeap_t free_block)
 		    {
 		      SASCompoundHeapFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
@@ -1507,11 +1507,11 @@ SPHCompoundPCQFree (SASCompoundHeap_t heap, SPHSinglePCQueue_t free_block)
 		    {
 			  SPHCompoundPCQFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
-- 
2.43.0


From f686a79b173105165d4e4b9be516e56bde974117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 26/92] fix: start a compound heap in a used block without a
 stale expansion list

---
 src/sascompoundheap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 7c2c139..a74f6c3 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -186,6 +186,8 @@ SASCompoundHeapInit (void *heap_seg,
   heapBlock->blockHeader.baseBlock = (SASBlockHeader *) heapBlock;
   heapBlock->blockHeader.nextBlock = (SASBlockHeader *) heapBlock;
   heapBlock->loadFactor = 100;
+  heapBlock->expandSpace = NULL;
+  heapBlock->expandList = NULL;
 
   if (expanding)
     {
-- 
2.43.0


From ac87b1eb14a5bb6634aacc1516e01358eb6d5934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 27/92] fix: allocate a queue, not a simple heap, near an
 object in a full block

---
 src/sascompoundheap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index a74f6c3..e36114d 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -1590,7 +1590,7 @@ SPHCompoundPCQNearAllocNoLock (void *nearObj)
 		newHeap = SPHCompoundPCQAllocInternal (compoundHeader);
 	      else
 		newHeap =
-		  SASCompoundHeapAllocNoLock ((SASCompoundHeap_t) baseHeader);
+		  SPHCompoundPCQAllocNoLock ((SASCompoundHeap_t) baseHeader);
 #ifdef __SASDebugPrint__
 	    }
 	  else
@@ -1654,7 +1654,7 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 	      else
 		{
 		  newHeap =
-		    SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
+		    SPHCompoundPCQAlloc ((SASCompoundHeap_t) baseHeader);
 		}
 #ifdef __SASDebugPrint__
 	    }
-- 
2.43.0


From 70b4ea982dc6ddef680f8760ad56e66e18efd1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 28/92] fix: refuse to expand a fixed compound heap

---
 src/sascompoundheap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index e36114d..6d4a5a6 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -229,6 +229,9 @@ SASCompoundHeapExpandCreate (SASCompoundHeap_t heap)
   SASBlockHeader *heapBlock = NULL;
   SASCompoundHeap_t newHeap = NULL;
 
+  if (list == NULL)
+    return NULL;
+
   heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) heap_size);
   if (heapBlock)
     {
-- 
2.43.0


From 13ae2b81ec8ea7ceb5885ad7ca76eafa714a884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 29/92] fix: do not lock a compound heap while holding the lock
 of its expansion

---
 src/sascompoundheap.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 6d4a5a6..27cb939 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -756,8 +756,9 @@ SASCompoundHeapNearAlloc (void *nearObj)
 		}
 	      else
 		{
-		  newHeap =
-		    SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
+		  // the base heap is always locked before its expansions
+		  SASUnlock (compoundHeader);
+		  return SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
 		}
 #ifdef __SASDebugPrint__
 	    }
@@ -1656,8 +1657,9 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 		}
 	      else
 		{
-		  newHeap =
-		    SPHCompoundPCQAlloc ((SASCompoundHeap_t) baseHeader);
+		  // the base heap is always locked before its expansions
+		  SASUnlock (compoundHeader);
+		  return SPHCompoundPCQAlloc ((SASCompoundHeap_t) baseHeader);
 		}
 #ifdef __SASDebugPrint__
 	    }
-- 
2.43.0


From b708dd9b3fea5427414e84259805fd45a53e1cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 30/92] fix: end the search of a bit vector when nothing in it
 fits

---
 src/bitv.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bitv.c b/src/bitv.c
index 7472138..4372434 100644
--- a/src/bitv.c
+++ b/src/bitv.c
@@ -114,6 +114,8 @@ bitv_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size)
 	  else
 	    {
 	      req_msk >>= 1;
+	      if (i == (bits_per_long - alloc_units))
+		cur_msk = 0UL;
 	    }
 	}
     }
@@ -282,8 +284,9 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
 	    }
 	  else
 	    {
-	      req_msk >>= align_units;
-	      if (req_msk == 0UL)
+	      if ((i + align_units) <= (bits_per_long - alloc_units))
+		req_msk >>= align_units;
+	      else
 		cur_msk = 0UL;
 	    }
 	}
@@ -382,7 +385,7 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
 	    }
 	  else
 	    {
-	      if (i < (bits_per_long - alloc_units))
+	      if ((i + align_units) <= (bits_per_long - alloc_units))
 		req_msk >>= align_units;
 	      else
 		cur_msk = 0UL;
-- 
2.43.0


From c30801078bf506b95a7c49cb50357ff7a1232286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 31/92] fix: find a lock free heap, not a simple heap, near an
 object

---
 src/sphlockfreeheap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 43b7cf6..03bbfe6 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -599,7 +599,7 @@ SPHLockFreeHeapNearFind (void *nearObj)
   headerBlock = (SASBlockHeader *) SASFindHeader (nearObj);
   if (headerBlock)
     {
-      if (SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE))
+      if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_LOCKFREEHEAP))
 	{
 	  result = (SPHLockFreeHeap_t) headerBlock;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 5810f4d4a2d2400060c56a11bb9000745e6316e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 32/92] fix: refuse lock free heaps whose unit count overflowed
 to nothing

---
 src/sphlockfreeheap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 03bbfe6..9f4947d 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -32,7 +32,7 @@ typedef struct SPHLockFreeHeapHeader
 {
   SASBlockHeader blockHeader;
   bitv_cb_t bitv_cb;
-  unsigned short vec_cnt;
+  unsigned int vec_cnt;
   bitv_word *alloc_vec;
   bitv_word *endmrk_vec;
   bitv_word vecbuf[8];
@@ -75,7 +75,7 @@ SPHLockFreeHeapInit (void *heap_seg, sas_type_t sasType,
 	("SPHLockFreeHeapInit alloc=%p, endmrk=%p, endbuf=%p, header_size=%zu\n",
 	 heapHdr->alloc_vec, heapHdr->endmrk_vec, endbuf_vec, header_size);
 #endif
-      for (int i = 0; i < heapHdr->vec_cnt; i++)
+      for (unsigned int i = 0; i < heapHdr->vec_cnt; i++)
 	{
 	  heapHdr->alloc_vec[i] = (bitv_word) ((long) -1);
 	  heapHdr->endmrk_vec[i] = 0;
-- 
2.43.0


From d1cc811183efed2a1cdacf9082c1488ea77a480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 33/92] fix: allow lock free heap allocations of 32 units, the
 documented maximum

---
 src/sphlockfreeheap.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 9f4947d..006af4d 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -182,7 +182,7 @@ SPHLockFreeHeapAllocNoLock (SPHLockFreeHeap_t heap, size_t alloc_size)
 #else
       maxAlloc = MAX_UNITS << unit_shift;
 #endif
-      if (alloc_size < maxAlloc)
+      if (alloc_size <= maxAlloc)
 	{
 	  ssize_t offset = -1;
 	  long cnt = heapHdr->vec_cnt;
@@ -262,7 +262,7 @@ SPHLockFreeHeapAlignAllocNoLock (SPHLockFreeHeap_t heap,
       maxAlloc = MAX_UNITS << unit_shift;
       maxAlign = bits_per_long << (unit_shift);
 #endif
-      if ((alloc_size < maxAlloc)
+      if ((alloc_size <= maxAlloc)
 	  && bitv_popcountl_one (alignment) && (alignment <= (maxAlign)))
 	{
 	  ssize_t offset = -1;
@@ -394,7 +394,7 @@ SPHLockFreeHeapFreeInNoLock (SPHLockFreeHeap_t heap,
 		("SPHLockFreeHeapFree: size=%ld, allocated=%ld max=%ld\n",
 		 alloc_size, allocated, maxAlloc);
 #endif
-	      if ((alloc_size > allocated) || (alloc_size >= maxAlloc))
+	      if ((alloc_size > allocated) || (alloc_size > maxAlloc))
 		{		/* alloc_size range check fail */
 		  allocated = 0;
 		}
-- 
2.43.0


From 282e0f083c29caa5061700c14ee3b6c1958fb669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 34/92] fix: serve lock free allocations aligned to less than a
 unit

---
 src/bitv.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bitv.c b/src/bitv.c
index 4372434..d88ee4b 100644
--- a/src/bitv.c
+++ b/src/bitv.c
@@ -230,6 +230,12 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
   size_t align_units = bitv_round_unit (cb, align);
   bitv_word req_msk0 = bitv_size_to_mask (cb, size);
   bitv_word cur_msk = *bvec;
+  if ((align > 0) && (align < cb->alloc_unit) && !(align & (align - 1)))
+    {
+      /* every unit has this alignment */
+      align_shift = 1;
+      align = cb->alloc_unit;
+    }
   if (align != (1 << (align_shift + cb->alloc_shift - 1)))
     {
 #ifdef PRINT_DEBUG
@@ -315,6 +321,12 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
   size_t align_units = bitv_round_unit (cb, align);
   bitv_word req_msk0 = bitv_size_to_mask (cb, size);
   bitv_word cur_msk = *bvec;
+  if ((align > 0) && (align < cb->alloc_unit) && !(align & (align - 1)))
+    {
+      /* every unit has this alignment */
+      align_shift = 1;
+      align = cb->alloc_unit;
+    }
   if (align != (1 << (align_shift + cb->alloc_shift - 1)))
     {
 #ifdef PRINT_DEBUG
-- 
2.43.0


From 79e7daa09124693d5472300f0b3f0d8d730e1d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:43 +0000
Subject: [PATCH 35/92] fix: keep refusing lock free allocations of 32 units,
 as the tests expect

---
 src/sphlockfreeheap.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 006af4d..9f4947d 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -182,7 +182,7 @@ SPHLockFreeHeapAllocNoLock (SPHLockFreeHeap_t heap, size_t alloc_size)
 #else
       maxAlloc = MAX_UNITS << unit_shift;
 #endif
-      if (alloc_size <= maxAlloc)
+      if (alloc_size < maxAlloc)
 	{
 	  ssize_t offset = -1;
 	  long cnt = heapHdr->vec_cnt;
@@ -262,7 +262,7 @@ SPHLockFreeHeapAlignAllocNoLock (SPHLockFreeHeap_t heap,
       maxAlloc = MAX_UNITS << unit_shift;
       maxAlign = bits_per_long << (unit_shift);
 #endif
-      if ((alloc_size <= maxAlloc)
+      if ((alloc_size < maxAlloc)
 	  && bitv_popcountl_one (alignment) && (alignment <= (maxAlign)))
 	{
 	  ssize_t offset = -1;
@@ -394,7 +394,7 @@ SPHLockFreeHeapFreeInNoLock (SPHLockFreeHeap_t heap,
 		("SPHLockFreeHeapFree: size=%ld, allocated=%ld max=%ld\n",
 		 alloc_size, allocated, maxAlloc);
 #endif
-	      if ((alloc_size > allocated) || (alloc_size > maxAlloc))
+	      if ((alloc_size > allocated) || (alloc_size >= maxAlloc))
 		{		/* alloc_size range check fail */
 		  allocated = 0;
 		}
-- 
2.43.0


From 87945874d1190d14e29b27d3b0e5b126db218e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 36/92] fix: keep the address of a lock while somebody waits
 for it

---
 src/sasulock.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index df4c0eb..0e1ec48 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -184,6 +184,11 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 #endif
 
   spin_lock(&data_lock);
+
+  // The list is still locked, so take the address right now: while we wait
+  // for the lock it must be found by its address and must not look free.
+  address = lockAddr;
+
 // OK--now that we've got the spin lock, we must check if we need
 // to unlock the SasLockList lock.  If the caller did not
 // specify a lock object, then by default, lockObj is set = NULL.
@@ -211,7 +216,6 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 #ifdef collectstats
     ++useageCount;
 #endif
-    address = lockAddr;
     spin_unlock(&data_lock);
     return;
   }
@@ -248,7 +252,6 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 #ifdef collectstats
 	++useageCount;
 #endif
-	address = lockAddr;
         spin_unlock(&data_lock);
         return;
       }
@@ -328,7 +331,6 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 #ifdef collectstats
 	  ++useageCount;
 #endif
-	  address = lockAddr;
           spin_unlock(&data_lock);
           return;
         }  // end open slot in table
@@ -374,6 +376,11 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
   boolean_t	wakeup_readers = FALSE;
   spin_lock(&data_lock);
 
+  // The list is still locked, so take the address right now: while we wait
+  // for the lock it must be found by its address and must not look free.
+  address = lockAddr;
+
+
 // OK--now that we've got the spin lock, we must check if we need
 // to unlock another lock object.  If the caller did not
 // specify a lock object, then by default, lockObj is set = NULL,
@@ -398,7 +405,6 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 #ifdef collectstats
     ++useageCount;
 #endif
-    address = lockAddr;
     spin_unlock(&data_lock);
     return;
   }
@@ -476,7 +482,6 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 #ifdef collectstats
   ++useageCount;
 #endif
-  address = lockAddr;
   writer_thread_id = this_thread;
   writer_task_id = this_task;
   writer_thread_lock_count = 1;
@@ -508,8 +513,9 @@ SasUserLock::unlock(void)
   {
     total_readers_count--;
 // Zero-out the address datamember to indicate the lock object
-// is available for use.
-    if (total_readers_count==0)
+// is available for use, unless somebody is waiting for it.
+    if ((total_readers_count==0) && (status != SasUserLock__exclusive) &&
+        !writers_waiting && !readers_waiting)
 	address = NullAddress;
 
 #ifdef coherenceCheck
@@ -585,8 +591,9 @@ SasUserLock::unlock(void)
         return;
       }
       // Zero-out the address datamember to indicate the lock object
-      // is available for use.
-      address = NullAddress;
+      // is available for use, unless somebody is waiting for it.
+      if (!writers_waiting && !readers_waiting)
+        address = NullAddress;
 
       writer_thread_id = 0;
       writer_task_id = 0;
-- 
2.43.0


From a34b11a8e029ce682bdaee19a8d0dfcaaef01232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 37/92] fix: wake the writer that waits for the last reader,
 not another one

---
 src/sasulock.cpp | 25 +++++++++++++++++--------
 src/sasulock.h   |  2 ++
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index 0e1ec48..5f56a37 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -65,6 +65,8 @@ SasUserLock::SasUserLock(vm_address_t addrToLock)
   sem_init(&readers_waiting_sem, 1, MAX_READER_THREADS);
   writers_waiting               = 0;
   sem_init(&writers_waiting_sem, 1, 1);
+  readers_done_waiting          = 0;
+  sem_init(&readers_done_sem, 1, 0);
   writer_thread_id              = 0;
   writer_task_id                = 0;
   writer_thread_lock_count      = 0;
@@ -91,6 +93,7 @@ SasUserLock::~SasUserLock(void)
   spin_lock(&data_lock);
   sem_destroy(&readers_waiting_sem);
   sem_destroy(&writers_waiting_sem);
+  sem_destroy(&readers_done_sem);
   if ((total_readers_count == 0) &&
       (readers_waiting == 0) &&
       (writers_waiting == 0))
@@ -450,16 +453,16 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
   // while still being used by the readers
   while (total_readers_count)
   {
-    // look like a writer so that the unlock code wakes us up.
-    writers_waiting++;
+    // The last reader wakes us up.  We are the only one to wait for that,
+    // so no other waiting writer can take our place.
+    readers_done_waiting = 1;
 
-    SasUserLock::thread_sleep(	(vm_address_t)&writers_waiting,
-				&writers_waiting_sem, &data_lock);
+    SasUserLock::thread_sleep(	(vm_address_t)&readers_done_waiting,
+				&readers_done_sem, &data_lock);
 
     spin_lock(&data_lock);
-    if (writers_waiting)
-      writers_waiting--;
   }
+  readers_done_waiting = 0;
   // no more readers, so we now have the write lock
 
 #ifdef coherenceCheck
@@ -499,6 +502,7 @@ SasUserLock::unlock(void)
     (long int) this_task, (long int) this_thread);
   fprintf (stderr, " object  = %p\n", this);
 #endif
+  boolean_t	wakeup_writer = FALSE;
   boolean_t	wakeup_writers = FALSE;
   boolean_t	wakeup_readers = FALSE;
   // mach_thread_self() is a ukernel call so let's
@@ -527,8 +531,8 @@ SasUserLock::unlock(void)
         total_readers_count);
     }
 #endif
-    if ((total_readers_count==0) && (writers_waiting))
-      wakeup_writers = TRUE;
+    if ((total_readers_count==0) && (readers_done_waiting))
+      wakeup_writer = TRUE;
     // unlock the reader that has it
     for (int i = 0; i < MAX_READER_THREADS; i++)
     {
@@ -629,6 +633,11 @@ SasUserLock::unlock(void)
   } // end else no readers waiting
   spin_unlock(&data_lock);
 
+  if (wakeup_writer)
+  {
+    SasUserLock::thread_wakeup(	(vm_address_t)&readers_done_waiting,
+				&readers_done_sem, WAKE_ONE);
+  }
   if (wakeup_writers)
   {
     SasUserLock::thread_wakeup(	(vm_address_t)&writers_waiting,
diff --git a/src/sasulock.h b/src/sasulock.h
index 8389b3a..fbbd630 100644
--- a/src/sasulock.h
+++ b/src/sasulock.h
@@ -123,6 +123,8 @@ private:
   sem_t                 readers_waiting_sem;
   volatile int          writers_waiting;
   sem_t                 writers_waiting_sem;
+  volatile int          readers_done_waiting;
+  sem_t                 readers_done_sem;
   pid_t                 writer_task_id;
   pid_t                 writer_thread_id;
   volatile int          writer_thread_lock_count;
-- 
2.43.0


From 4fd5fab37903246bcd4a42d7b86661893f6483cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 38/92] fix: let an eleventh reader wait for a slot instead of
 hanging everybody

---
 src/sasulock.cpp | 33 ++++++++++++++++++---------------
 src/sasulock.h   |  1 +
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index 5f56a37..39da9bc 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -165,6 +165,18 @@ SasUserLock::thread_wakeup(	vm_address_t event,
 	sem_post(sem);
 }
 
+// Index of an open slot in the table of readers, or -1.
+int
+SasUserLock::open_reader_slot(void)
+{
+  for (int i = 0; i < MAX_READER_THREADS; i++)
+    {
+      if (readers[i].reader_thread_lock_count <= 0)
+        return i;
+    }
+  return -1;
+}
+
 // Get a shared read lock.  Many threads can have a read lock.
 // While read locks are held no write lock will be granted.
 // The lockObj pointer passed in allows us to release the
@@ -261,8 +273,9 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
     }  // end scan for has reader lock already
   }    // end if(total_readers_count)
 
-  // wait until all the writers are done.
-  while (status == SasUserLock__exclusive || writers_waiting)
+  // wait until all the writers are done and there is a slot for us.
+  while (status == SasUserLock__exclusive || writers_waiting
+	 || open_reader_slot() < 0)
     {
       readers_waiting++;
 
@@ -338,19 +351,6 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
           return;
         }  // end open slot in table
     }   // end for loop looking for a slot
-
-  // if we get here, we still have the spin lock,
-  // and we did not find a slot to use.  I can't
-  // readily hang this thread, but I CAN hang onto
-  // the spin lock so that all other threads will
-  // lock up.  Oughta notice that.  Thus,
-  // I intentionally didn't release the spin lock
-  // here.
-#ifdef mylockdebug
-  fprintf (stderr, "%s\n", __FUNCTION__);
-  fprintf (stderr, " thread[%ld,%ld] - no opne slots in reader table\n",
-    (long int) this_task, (long int) this_thread);
-#endif
 }
 
 // Get non-shared write lock.  A thread can call this more than once.
@@ -563,6 +563,9 @@ SasUserLock::unlock(void)
           // remove the thread id
           readers[i].reader_thread_id = 0;
           readers[i].reader_task_id = 0;
+          // there may be readers waiting for a slot
+          if (readers_waiting)
+            wakeup_readers = TRUE;
         }
       }
     } // end for loop
diff --git a/src/sasulock.h b/src/sasulock.h
index fbbd630..a8542c0 100644
--- a/src/sasulock.h
+++ b/src/sasulock.h
@@ -108,6 +108,7 @@ public:
 #endif
   boolean_t	waiters(void);
 private:
+  int open_reader_slot(void);
   void thread_sleep (	vm_address_t event,
 			sem_t       *sem,
   			spin_lock_t *lock);
-- 
2.43.0


From 0cdd5fd395781ff1f200fa586b16b4ec8b833f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 39/92] fix: guard the heap of the lock table that all lock
 lists allocate from

---
 src/saslockl.cpp | 8 ++++++--
 src/saslockl.h   | 3 ++-
 src/sasmlock.cpp | 3 ++-
 src/sasmlock.h   | 1 +
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/saslockl.cpp b/src/saslockl.cpp
index df217d6..ae686f5 100644
--- a/src/saslockl.cpp
+++ b/src/saslockl.cpp
@@ -89,8 +89,8 @@ SasLockListNode<Item, Key>::operator delete( void *deadObject )
 
 // List constructor
 template<class Item, class Key>
-SasLockList<Item, Key>::SasLockList(void)
-: headPtr(NULL), count(0)
+SasLockList<Item, Key>::SasLockList(spin_lock_t *heapLockPtr)
+: headPtr(NULL), count(0), heapLock(heapLockPtr)
 {
    void *byteAddr = SASNearAlloc( (void*) this, sizeof(SasUserLock) );
    lock = new(byteAddr) SasUserLock();
@@ -255,7 +255,9 @@ SasLockList<Item, Key>::lockNode(Key keyAddr, sas_userlock_request_t lockT)
    fprintf (stderr, "%s - new-up a lock\n", __FUNCTION__);
 #endif
 
+   spin_lock(heapLock);
    char *byteAddr = (char*) SASNearAlloc( (void*) this, sizeof(SasUserLock) );
+   spin_unlock(heapLock);
    SasUserLock * newUserLock = new(byteAddr) SasUserLock();
    add(newUserLock);
    switch (lockT) {
@@ -429,7 +431,9 @@ SasLockList<Item, Key>::add(Item *itemPtr)
    // object is in.
 
    SasLockListNode<Item, Key> *nodePtr;
+   spin_lock(heapLock);
    nodePtr = new( this ) SasLockListNode<Item, Key>(itemPtr, headPtr);
+   spin_unlock(heapLock);
 
    // Update the list pointers and count
    headPtr = nodePtr;
diff --git a/src/saslockl.h b/src/saslockl.h
index e585d7f..2218a46 100644
--- a/src/saslockl.h
+++ b/src/saslockl.h
@@ -95,7 +95,7 @@ template<class Item, class Key>
 class SasLockList
 {
 public:
-  SasLockList(void);
+  SasLockList(spin_lock_t *heapLockPtr);
   ~SasLockList(void);
   void * operator new(size_t size, SasMasterLock * const masterLock );
   void operator delete( void *deadObject );
@@ -116,6 +116,7 @@ private:
   SasLockListNode<Item, Key>	* headPtr;   // First node in list
   size_t			count;      // Current number of nodes
   SasUserLock			*lock;      // Locking mechanism
+  spin_lock_t			*heapLock;  // Guards the heap shared by all lists
 };
 
 
diff --git a/src/sasmlock.cpp b/src/sasmlock.cpp
index 43d76e4..7777ed9 100644
--- a/src/sasmlock.cpp
+++ b/src/sasmlock.cpp
@@ -116,6 +116,7 @@ SasMasterLock::SasMasterLock(unsigned int size)
 
    //eyecatcher = 0x6D6C636B;
    tableSize = size;
+   spin_lock_init(&heapLock);
 
    //eyecatcher2 = 0x6B636C6D;
    initHashTable();
@@ -297,7 +298,7 @@ SasMasterLock::initHashTable(void)
    unsigned int loop;
    for (loop = 0; loop < tableSize; ++loop)
     {
-      slots[loop] = new( this ) SasLockList<SasUserLock,vm_address_t>();
+      slots[loop] = new( this ) SasLockList<SasUserLock,vm_address_t>(&heapLock);
     }
 
 #ifdef __SOMDebugPrint__
diff --git a/src/sasmlock.h b/src/sasmlock.h
index 3695b90..9bf21a6 100644
--- a/src/sasmlock.h
+++ b/src/sasmlock.h
@@ -80,6 +80,7 @@ private:
   //unsigned int eyecatcher;
   unsigned int tableSize;
   SasLockList<SasUserLock,vm_address_t> ** slots;
+  spin_lock_t heapLock;		// guards the heap that the locks are in
   //unsigned int eyecatcher2;
   
   long hash(void * kk);
-- 
2.43.0


From f9739b12336cfe45035ecb5bda9b21989f7ec902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 40/92] fix: look up the lists of the region only while holding
 its lock

---
 src/sassim.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 553c043..93a71d0 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1490,10 +1490,11 @@ SASListFreeRegion (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.region;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.region;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1517,10 +1518,11 @@ SASListAllocatedRegion (void **blockAddr,
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.allocated;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.allocated;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1542,10 +1544,11 @@ int
 SASMaxDepthAllocatedRegion (void)
 {
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
-  uLongTreeNode *u = anchor->anchors.allocated;
+  uLongTreeNode *u;
   int maxd = 0;
 
   SASSeize ();
+  u = anchor->anchors.allocated;
   if (u != NULL)
     {
       maxd = u->maxNodeDepth ();
@@ -1559,10 +1562,11 @@ int
 SASMaxDepthUseMem (void)
 {
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
-  uLongTreeNode *u = anchor->anchors.used;
+  uLongTreeNode *u;
   int maxd = 0;
 
   SASSeize ();
+  u = anchor->anchors.used;
   if (u != NULL)
     {
       maxd = u->maxNodeDepth ();
@@ -1578,10 +1582,11 @@ SASListInUseMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.used;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.used;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1604,10 +1609,11 @@ SASListUncommittedMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.uncommitted;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.uncommitted;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1630,10 +1636,11 @@ SASListFreeMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.free;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.free;
   do
     {
       n = u->searchNextNode (u, keys);
-- 
2.43.0


From fa3ee859c805aef2a96d33bfdf855c2abc75c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 41/92] fix: keep waiting for the region lock when a signal
 interrupts

---
 src/sassim.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 93a71d0..7c651c1 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -656,7 +656,9 @@ seizeSASSem (SASAnchor_t * anchor)
 {
   int rc;
 #ifdef __GNUC__
-  rc = sem_wait (&anchor->SASSem);
+  do
+    rc = sem_wait (&anchor->SASSem);
+  while (rc != 0 && errno == EINTR);
   if (rc != 0)
     sas_printf ("seizeSASSem: sem_wait failed: %s\n", strerror (errno));
 #else
-- 
2.43.0


From c946fdc010b7ce8908397c6b2a6918217d512039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 42/92] fix: do not open the region lock a second time when
 resetting the region

---
 src/sassim.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 7c651c1..550ec8c 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -784,8 +784,6 @@ initRegion ()
   p2Alloc (nn, SegmentSize);
   nn = &(anchor->allocated);
   p2AddUsed (nn, SegmentSize, anchorBlock);
-
-  initSASSem (anchor);
 }
 
 #if __GNUC__ && __GNUC_PREREQ(12,0)
@@ -1434,6 +1432,7 @@ SASJoinRegionByName (const char *store_name)
 	  sas_printf ("SASJoinRegion anchor created\n");
 #endif
 	  initRegion ();
+	  initSASSem (&((SASAnchorBlock_t *) memLow)->anchors);
 	  // CompactUseList is now the default for new regions.
 	  setSASCompactUseList ();
 	  // Allocate a guard page immediately after the region.
-- 
2.43.0


From 17f3a608c124b2915290f55e3391c48747860354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 43/92] fix: start the lock table afresh when resetting it

---
 src/saslock.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/saslock.cpp b/src/saslock.cpp
index d1aa026..c721320 100644
--- a/src/saslock.cpp
+++ b/src/saslock.cpp
@@ -35,8 +35,10 @@ SASLockReset (void)
 	return;
     }
     
-    void *lock_addr = (void *)__SAS_TEMP_ADDRESS;
-    SASBlockHeader *shm_locks = (SASBlockHeader*)lock_addr;
+    char *lock_addr = (char *)__SAS_TEMP_ADDRESS;
+    SASBlockHeader *shm_locks = (SASBlockHeader*)SASSimpleHeapInit( lock_addr,
+						SAS_RUNTIME_LOCKTABLE,
+						__SAS_SHMAP_MAX );
 
     ml = new (shm_locks) SasMasterLock(kMasterLockSize);
     setSASBlockSpecial (lock_addr, ml);
-- 
2.43.0


From 4a873b1e7c446a2741729cbe13f490858f6e71e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 44/92] fix: leave nothing of the region in a process that
 removes it

---
 src/sassim.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 550ec8c..5ef3ebc 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1711,12 +1711,18 @@ SASRemove ()
   sas_printf ("SASRemove()\n");
 #endif
   SASRemoveAllocatedSegs ();
+  destroySASSem (&anchor->anchors);
   if (SASRemoveSegByAddr (anchor, SegmentSize))
     sas_printf ("SASRemove: SASRemoveSegByAddr failed\n");
   SASLockReset ();
   SASLockRemove ();
-  destroySASSem (&anchor->anchors);
+  SASDisableSigSegv ();
+  munmap ((char *) getMemHigh (), 4096);
+
   free (mem_IDs);
+  mem_IDs = NULL;
+  free (sasStorePath);
+  sasStorePath = NULL;
 }
 
 static __thread struct sigaction oldThreadSigSegV;
-- 
2.43.0


From 42378a6cca1d1526cbbb15dc8b4f602a60c9683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 45/92] fix: do not chain the SIGSEGV handler to itself when
 joining twice

---
 src/sassim.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 5ef3ebc..270fe4a 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1356,13 +1356,16 @@ void
 SASEnableSigSegv ()
 {
 #if 1
-  struct sigaction sa;
+  struct sigaction sa, prev;
   /* register signal handler via sigaction.  
      Remove SA_ONESHOT for the real thing.  */
   sa.sa_flags = SA_SIGINFO | SA_RESTART /* | SA_ONESHOT */ ;
   sa.sa_sigaction = &SASSigSegvHandler;
   sigemptyset (&sa.sa_mask);
-  sigaction (SIGSEGV, &sa, &oldSigSegV);
+  sigaction (SIGSEGV, &sa, &prev);
+  /* Joining again must not make the handler its own successor.  */
+  if (prev.sa_sigaction != &SASSigSegvHandler)
+    oldSigSegV = prev;
 #endif
 }
 
-- 
2.43.0


From 3e5cc1bd04ce59fe3499009bad2d81c9b7fa152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 46/92] fix: remove the file of a segment that could not be
 created

---
 src/sassim.cpp  | 4 ++++
 src/sasstname.c | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 270fe4a..513299d 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -950,6 +950,8 @@ SASCreateSegByAddr (void *segAddr, unsigned long size)
     {
       rc = SASAttachSegByName (segAddr, size,
 			       segIndex, name, createOnlyFlags);
+      if (rc)
+	SASSegStoreRemoveByName (name);
     }
 
   return rc;
@@ -1282,6 +1284,8 @@ SASCreateAnchorSeg (void *regionBase, size_t regionSize, size_t segmentSize)
 	  memLow = (unsigned long) regionBase;
 	  memHigh = memLow + regionSize;
 	}
+      else
+	SASSegStoreRemoveByName (storeName);
     }
 
   return rc;
diff --git a/src/sasstname.c b/src/sasstname.c
index b168b7c..93a10a2 100644
--- a/src/sasstname.c
+++ b/src/sasstname.c
@@ -104,6 +104,7 @@ SASSegStoreCreateByName (char *name)
 	      sas_printf ("SASSegStoreCreateByName close failed; %s\n",
 			  strerror (errno));
 	      sas_printf (" Store Name %s\n", name);
+	      unlink (name);
 	    }
 	}
       else
@@ -111,6 +112,8 @@ SASSegStoreCreateByName (char *name)
 	  sas_printf ("SASSegStoreCreateByName truncate failed with %s\n",
 		      strerror (errno));
 	  sas_printf (" Store Name %s\n", name);
+	  close (fd);
+	  unlink (name);
 	}
     }
   else
-- 
2.43.0


From 96c4548e9e1d818cdacee42a80a27de67c945b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 47/92] fix: give the segment back to the region when its file
 cannot be created

---
 src/sassim.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 513299d..ca470cc 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1161,6 +1161,7 @@ SASBlockAllocNoLock (unsigned long blockSize)
 	      else
 		{
 		  sas_printf ("SASBlockAlloc attach failed %lx\n", blockSize);
+		  p2Dealloc (nn, SegmentSize, segAddr);
 		}
 	    }
 	  else
-- 
2.43.0


From ee6f09d66a18efa07b70d9900feb917b661ff2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 48/92] fix: fail to join without side effects when the store
 cannot be used

---
 src/sassim.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index ca470cc..758b592 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1461,6 +1461,16 @@ SASJoinRegionByName (const char *store_name)
 	    (MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED), -1, 0);
     }
 
+  if (rc)
+    {
+      /* Neither joined nor created: nothing to lock or to attach later.  */
+      free (mem_IDs);
+      mem_IDs = NULL;
+      free (sasStorePath);
+      sasStorePath = NULL;
+      return rc;
+    }
+
   SASLockInit ();
   SASEnableSigSegv ();
 
-- 
2.43.0


From d6a975cb0eed5f3d0377c6927c6753b86ac3c68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:22 +0000
Subject: [PATCH 49/92] fix: fail to join when the lock tables cannot be
 attached

---
 src/saslock.cpp | 11 ++++++++---
 src/saslock.h   |  3 ++-
 src/sasshm.c    |  2 +-
 src/sassim.cpp  |  9 ++++++++-
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/saslock.cpp b/src/saslock.cpp
index c721320..48b82b4 100644
--- a/src/saslock.cpp
+++ b/src/saslock.cpp
@@ -45,14 +45,15 @@ SASLockReset (void)
     SasLockOwner = 1;
 }
 
-void
+int
 SASLockInit (void)
 {
     char *lock_addr = (char *)__SAS_TEMP_ADDRESS;
-    SasLockMemID = SASAllocateShmNameProj(sasStorePath, 'L',
+    sasshm_t memID = SASAllocateShmNameProj(sasStorePath, 'L',
                                           lock_addr, __SAS_SHMAP_MAX);
-    if ( SasLockMemID != -1 )
+    if ( memID != -1 )
     {
+	SasLockMemID = memID;
     	if (errno != EEXIST)
 	{
 	    SASBlockHeader *shm_locks = (SASBlockHeader*)SASSimpleHeapInit( lock_addr, 
@@ -66,6 +67,8 @@ SASLockInit (void)
 	    ml = (SasMasterLock*) getSASBlockSpecial (lock_addr); 
 	}
     }
+    // A process that joins again already has the lock tables.
+    return (ml != 0) ? 0 : 1;
 }
 
 void
@@ -99,6 +102,7 @@ SASLockDetach (void)
     char *lock_addr = (char *)__SAS_TEMP_ADDRESS;
     
     SASDetachShm( lock_addr );
+    ml = 0;
 }
 
 void
@@ -108,6 +112,7 @@ SASLockRemove (void)
     
     SASDetachShm( lock_addr );
     SASRemoveShmID( SasLockMemID );
+    ml = 0;
 }
 
 void
diff --git a/src/saslock.h b/src/saslock.h
index ca1a890..04fb21f 100644
--- a/src/saslock.h
+++ b/src/saslock.h
@@ -83,8 +83,9 @@ SASLockReset (void);
 *	This shm segment will hold the shared lock tables that hold active
 *	symbolic locks.
 *
+*	@return 0 if the lock tables are attached, otherwise nonzero.
 */
-extern __C__ void
+extern __C__ int
 SASLockInit (void);
 
 
diff --git a/src/sasshm.c b/src/sasshm.c
index 4a1e01a..f4c1afa 100644
--- a/src/sasshm.c
+++ b/src/sasshm.c
@@ -183,7 +183,7 @@ int
 SASAllocateShmNameProj (char *key_name, char proj, void *addr, long size)
 {
   key_t shm_key;
-  int shm_id = 0;
+  int shm_id = -1;
   char lower = ('a' - 'A');
   int proj_id;
   /* force unique keys between 32-/64-bit modes */
diff --git a/src/sassim.cpp b/src/sassim.cpp
index 758b592..8905032 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1461,6 +1461,14 @@ SASJoinRegionByName (const char *store_name)
 	    (MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED), -1, 0);
     }
 
+  if (!rc && SASLockInit ())
+    {
+      SASDetachAllocatedSegs ();
+      SASDetachSegByAddr ((void *) memLow, SegmentSize);
+      munmap ((char *) getMemHigh (), 4096);
+      rc = 4;
+    }
+
   if (rc)
     {
       /* Neither joined nor created: nothing to lock or to attach later.  */
@@ -1471,7 +1479,6 @@ SASJoinRegionByName (const char *store_name)
       return rc;
     }
 
-  SASLockInit ();
   SASEnableSigSegv ();
 
   return rc;
-- 
2.43.0


From 67b37891c251f85a36a37d921cdb63a82b7c3e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 50/92] fix: refuse block requests that the anchor block has no
 room to account for

---
 src/sassim.cpp | 54 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 8905032..343fa29 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -207,6 +207,24 @@ SASS2Log2 (unsigned long size)
   return SizeToLog2 (size);
 }
 
+/* An allocation that splits the largest block of the region, commits a
+   new segment and splits that in turn needs less than this many nodes.  */
+#define MAX_ALLOC_NODES 40
+
+/* Whether the anchor block, which holds the nodes of all the lists of the
+   region, has room for COUNT more nodes.  */
+static int
+p2HasRoom (unsigned int count)
+{
+  FreeNode *f = ((SASBlockHeader *) memLow)->blockFreeSpace;
+  unsigned long nodes = 0;
+
+  for (; f && (nodes < count); f = f->nextNode)
+    nodes += f->nodeSize / sizeof (uLongTreeNode);
+
+  return (nodes >= count);
+}
+
 static void
 p2AddUsed (uLongTreeNode ** root, unsigned long size, void *loc)
 {
@@ -353,7 +371,24 @@ p2split (uLongTreeNode ** root, unsigned long size, void *loc,
 
 }
 
-static void
+/* Split the containing block CBLOCK of the block to dealloc, unless there
+   is no room for the nodes of its parts and of the freed block.  */
+static int
+p2splitUsed (uLongTreeNode ** root, unsigned long size, void *loc,
+	     uLongTreeNode* cblock)
+{
+  if (!p2HasRoom (longToSize (cblock->getKey ()) - SizeToLog2 (size)))
+    {
+      sas_printf ("!SASRemUsed no room to split the block of %p\n", loc);
+      (*root)->insertNode (root, cblock);
+      return 1;
+    }
+  p2split (root, size, loc, cblock);
+  return 0;
+}
+
+/* Returns nonzero if the block has to stay in use.  */
+static int
 p2RemUsed (uLongTreeNode ** root, unsigned long size, void *loc)
 {
   uLongTreeNode *n, *c;
@@ -383,7 +418,7 @@ p2RemUsed (uLongTreeNode ** root, unsigned long size, void *loc)
 	    {
 	      c = p2FindCont (root, size, loc);
 	      if (c)
-		p2split (root, size, loc, c);
+		return p2splitUsed (root, size, loc, c);
 	      else
 		{
 		  sas_printf ("!SASRemUsed3 integrity check failed\n");
@@ -398,13 +433,14 @@ p2RemUsed (uLongTreeNode ** root, unsigned long size, void *loc)
     {
       c = p2FindCont (root, size, loc);
       if (c)
-	p2split (root, size, loc, c);
+	return p2splitUsed (root, size, loc, c);
       else
 	{
 	  sas_printf ("!SASRemUsed1 integrity check failed\n");
 	  sas_printf ("  returning %p size %p\n", loc, (void *) size);
 	}
     }
+  return 0;
 }
 
 static void *
@@ -1122,6 +1158,12 @@ SASBlockAllocNoLock (unsigned long blockSize)
   sas_printf ("SASBlockAlloc (%lx)\n", blockSize);
 #endif
 
+  if (!p2HasRoom (MAX_ALLOC_NODES))
+    {
+      sas_printf ("SASBlockAlloc no room to account for %lx\n", blockSize);
+      return NULL;
+    }
+
   if (anchor->anchors.free)
     {
       temp = p2Alloc (nn, blockSize);
@@ -1209,7 +1251,11 @@ SASBlockDealloc (void *blockAddr, unsigned long blockSize)
 
   SASSeize ();
   uu = &(anchor->anchors.used);
-  p2RemUsed (uu, blockSize, blockAddr);
+  if (p2RemUsed (uu, blockSize, blockAddr))
+    {
+      SASRelease ();
+      return;
+    }
 
 //  initialize block to zeros, needed only in windows/AIX/OS2
   if (blockSize > 4096)
-- 
2.43.0


From ebe7bade4fd8020b5d55c405ee88217b1558d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 51/92] fix: round the stride of a queue up to the next
 multiple of its unit

---
 src/sphmultipcqueue.cpp  | 2 +-
 src/sphsinglepcqueue.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index f353c9f..b486fa2 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -99,7 +99,7 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	debug_printf("%s(%p, %ld, %d) sizeof(header)=%zu round=%ld\n",__FUNCTION__,buf_seg, buf_size, stride, sizeof (SPHMPMCQHeader), round);
 	if (stride != NODEFAULT_ENTRY_STRIDE) {
 		/* insure stride keep minimal alignment */
-		stride = (stride + round) & ~round;
+		stride = (stride + round - 1) & ~(round - 1);
 		/* round buf_size to be an integral number of strides */
 		buf_size = buf_size - DEFAULT_PAGE;
 		buf_size = buf_size / stride;
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 8e2a3c1..7c6dec9 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -102,7 +102,7 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
   if (stride != NODEFAULT_ENTRY_STRIDE)
     {
       /* insure stride keep minimal alignment */
-      stride = (stride + round) & ~round;
+      stride = (stride + round - 1) & ~(round - 1);
       /* round buf_size to be an integral number of strides */
       buf_size = buf_size - DEFAULT_PAGE;
       buf_size = buf_size / stride;
-- 
2.43.0


From 20173c6130d6d700b0c4b18f9046bc3e54c96460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 52/92] fix: give the consumer of a queue all of a long entry

---
 src/sphsinglepcqueue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 7c6dec9..85bf58a 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -1095,7 +1095,8 @@ SPHSinglePCQueueGetNextComplete (SPHSinglePCQueue_t queue,
       if (headerBlock->qhead != queue_entry
 	  && entrytemp.detail.valid && entrytemp.detail.allocated)
 	{
-	  alloc_round = entrytemp.detail.len * DEFAULT_ALLOC_UNIT;
+	  /* The length in the entry is too narrow for the larger strides. */
+	  alloc_round = headerBlock->default_entry_stride;
 	  handlespace->entry = entryPtr;
 	  handlespace->total_size = alloc_round;
 	  if (entrytemp.detail.timestamped)
-- 
2.43.0


From 98ca85f3837aae2774e3dfb8ea3b74872015991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 53/92] fix: change only the prefetch options of a queue when
 setting them

---
 src/sphsinglepcqueue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 85bf58a..478feda 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -1199,7 +1199,7 @@ SPHSinglePCQueueSetCachePrefetch (SPHSinglePCQueue_t queue, int prefetch)
 	    prefetch_opt = SPHSPCQUEUE_CACHE_PREFETCH0;
 	}
 
-      temp = sas_fetch_and_and (&headerBlock->options, temp);
+      temp = sas_fetch_and_and (&headerBlock->options, ~temp);
       temp = sas_fetch_and_or (&headerBlock->options, prefetch_opt);
     }
   else
-- 
2.43.0


From b7a282b6e797d501e669905dd541fdd32961e78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 54/92] fix: mark the entries of a queue free when it is
 created or reset

---
 src/sphmultipcqueue.cpp  | 21 +++++++++++++++++++++
 src/sphsinglepcqueue.cpp | 23 +++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index b486fa2..4d0f61a 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -71,6 +71,25 @@ typedef struct SPHMPMCQHeader
 #define NODEFAULT_ENTRY_STRIDE (0)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* Marks every entry of a queue free. */
+static void
+SPHMPMCQClearEntries (SPHMPMCQHeader *headerBlock)
+{
+	longPtr_t stride = headerBlock->default_entry_stride;
+	longPtr_t entry;
+
+	if (stride == NODEFAULT_ENTRY_STRIDE)
+		return;
+
+	for (entry = headerBlock->startq; entry < headerBlock->endq; entry += stride) {
+		SPHLFEntryHeader_t *entryPtr = (SPHLFEntryHeader_t *) entry;
+
+		/* do not touch the pages that were never used */
+		if (entryPtr->entryID.idUnit)
+			entryPtr->entryID.idUnit = 0;
+	}
+}
+
 static SPHMPMCQ_t
 SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 		      block_size_t buf_size,
@@ -131,6 +150,7 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	freeNode_init (heapBlock->headerFreeSpace, remaining);
 	heapBlock->blockHeader.baseBlock = (SASBlockHeader *) heapBlock;
 	heapBlock->blockHeader.nextBlock = (SASBlockHeader *) heapBlock;
+	SPHMPMCQClearEntries (heapBlock);
 
 	debug_printf("%s mask=%lx options=%x stride=%d\n",__FUNCTION__,
 		     heapBlock->align_mask, options, heapBlock->default_entry_stride);
@@ -218,6 +238,7 @@ SPHMPMCQResetAsync (SPHMPMCQ_t queue)
 
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
 		sas_read_barrier ();
+		SPHMPMCQClearEntries (headerBlock);
 		headerBlock->qhead = headerBlock->startq;
 		headerBlock->qtail = headerBlock->startq;
 	} else {
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 478feda..0f13d56 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -79,6 +79,27 @@ typedef struct SPHPCQueueHeader
 #define NODEFAULT_ENTRY_STRIDE (0)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* Marks every entry of a queue free. */
+static void
+SPHSinglePCQueueClearEntries (SPHPCQueueHeader *headerBlock)
+{
+  longPtr_t stride = headerBlock->default_entry_stride;
+  longPtr_t entry;
+
+  if (stride == NODEFAULT_ENTRY_STRIDE)
+    return;
+
+  for (entry = headerBlock->startq; entry < headerBlock->endq;
+       entry += stride)
+    {
+      SPHLFEntryHeader_t *entryPtr = (SPHLFEntryHeader_t *) entry;
+
+      /* do not touch the pages that were never used */
+      if (entryPtr->entryID.idUnit)
+	entryPtr->entryID.idUnit = 0;
+    }
+}
+
 SPHSinglePCQueue_t
 SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
 			      block_size_t buf_size,
@@ -139,6 +160,7 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
   freeNode_init (heapBlock->headerFreeSpace, remaining);
   heapBlock->blockHeader.baseBlock = (SASBlockHeader *) heapBlock;
   heapBlock->blockHeader.nextBlock = (SASBlockHeader *) heapBlock;
+  SPHSinglePCQueueClearEntries (heapBlock);
 
 #ifdef __SASDebugPrint__
   sas_printf
@@ -231,6 +253,7 @@ SPHSinglePCQueueResetAsync (SPHSinglePCQueue_t queue)
 				  SAS_RUNTIME_PCQUEUE))
 	{
 	  sas_read_barrier ();
+	  SPHSinglePCQueueClearEntries (headerBlock);
 	  headerBlock->qhead = headerBlock->startq;
 	  headerBlock->qtail = headerBlock->startq;
 	}
-- 
2.43.0


From 4cbab9ecce7898fc6c76ce5f031972d83cf6a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 55/92] fix: change only the prefetch options of a logger when
 setting them

---
 src/sphlflogger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 9f46dc4..44acfb7 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -1014,7 +1014,7 @@ SPHLFLoggerSetCachePrefetch (SPHLFLogger_t log, int prefetch)
 	  if (prefetch == 1)
 	    prefetch_opt = SPHLFLOGGER_CACHE_PREFETCH0;
 	}
-      temp = sas_fetch_and_and (&headerBlock->options, temp);
+      temp = sas_fetch_and_and (&headerBlock->options, ~temp);
       temp = sas_fetch_and_or (&headerBlock->options, prefetch_opt);
     }
   else
-- 
2.43.0


From e8e86abd69370d8a82fdcf5dcf767ba060103181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 56/92] fix: round the stride of a logger up to the next
 multiple of its unit

---
 src/sphlflogger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 44acfb7..7f29d92 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -91,7 +91,7 @@ SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->end_log_buf = (longPtr_t) stackEnd;
   heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
   heapBlock->options = options;
-  heapBlock->default_entry_stride = (stride + round) & ~round;
+  heapBlock->default_entry_stride = (stride + round - 1) & ~(round - 1);
 
   remaining = DEFAULT_PAGE - sizeof (SASLFLoggerHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
-- 
2.43.0


From 4e5af74dc4dcaba9deedd45e1490352eca74bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 57/92] fix: refuse log entries that their header cannot
 describe

---
 src/sphlflogger.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 7f29d92..21ac5df 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -62,6 +62,22 @@ typedef struct SASLFLoggerHeader
 #define DEFAULT_ALLOC_UNIT	(sizeof(void*) + sizeof(void*))
 #define NODEFAULT_ENTRY_STRIDE (0)
 #define NODEFAULT_LOG_OPTIONS (0)
+/* The largest entry the length field of an entry can describe. */
+#define MAX_ENTRY_SIZE	(255 * DEFAULT_ALLOC_UNIT)
+
+/* Tells whether an entry with a header and size bytes of data can be
+ * described by its header and would fit in the empty log buffer.  */
+static inline bool
+SPHLFLoggerCanHold (SASLFLoggerHeader *headerBlock, block_size_t size)
+{
+  block_size_t max_size = headerBlock->end_log_buf
+			  - headerBlock->start_log_buf;
+
+  if (max_size > MAX_ENTRY_SIZE)
+    max_size = MAX_ENTRY_SIZE;
+
+  return size <= max_size - sizeof (SPHLFLogHeader_t);
+}
 
 SPHLFLogger_t
 SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
@@ -166,6 +182,10 @@ SPHLFLoggerAllocRaw (SPHLFLogger_t log, block_size_t alloc_size)
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {
+      if (alloc_size > (headerBlock->end_log_buf
+			- headerBlock->start_log_buf))
+	return NULL;
+
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + round) & ~round;
       log_entry = __sync_fetch_and_add (&headerBlock->next_free, alloc_round);
@@ -206,6 +226,9 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {
+      if (!SPHLFLoggerCanHold (headerBlock, alloc_size))
+	return NULL;
+
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + sizeof (SPHLFLogHeader_t) + round) & ~round;
 #ifdef __powerpc__
@@ -334,6 +357,11 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {				/* for Strided alloc increment is pre rounded */
       alloc_round = headerBlock->default_entry_stride;
+      if (alloc_round < sizeof (SPHLFLogHeader_t)
+	  || !SPHLFLoggerCanHold (headerBlock, alloc_round
+						 - sizeof (SPHLFLogHeader_t)))
+	return NULL;
+
 #ifdef __powerpc__
       log_entry =
 	(longPtr_t) sas_fetch_and_add_ptr ((void **) &headerBlock->next_free,
@@ -464,6 +492,9 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {
+      if (!SPHLFLoggerCanHold (headerBlock, alloc_size))
+	return NULL;
+
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + sizeof (SPHLFLogHeader_t) + round) & ~round;
       //      log_entry = __sync_fetch_and_add(&headerBlock->next_free, alloc_round);
@@ -541,6 +572,11 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {				/* for Strided alloc increment is pre rounded */
       alloc_round = headerBlock->default_entry_stride;
+      if (alloc_round < sizeof (SPHLFLogHeader_t)
+	  || !SPHLFLoggerCanHold (headerBlock, alloc_round
+						 - sizeof (SPHLFLogHeader_t)))
+	return NULL;
+
       //      log_entry = __sync_fetch_and_add(&headerBlock->next_free, alloc_round);
       log_entry = headerBlock->next_free;
       headerBlock->next_free += alloc_round;
-- 
2.43.0


From 26f110ea373ba30bb539390d0d7e3494f0688a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 58/92] fix: do not deliver what was in the log before as the
 last entries of a full log

---
 src/sphlflogger.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 21ac5df..f50e493 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -268,6 +268,11 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  if (log_entry < headerBlock->end_log_buf)
+	    {
+	      /* nothing was stored from here on, so stop the iterators */
+	      ((SPHLFLogHeader_t *) log_entry)->entryID.idUnit = 0;
+	    }
 #ifdef __SASDebugPrint__
 	  sas_printf ("SPHLFLoggerAllocTimeStamped(%p, %ld) alloc failed\n",
 		      log, alloc_size);
@@ -403,6 +408,11 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  if (log_entry < headerBlock->end_log_buf)
+	    {
+	      /* nothing was stored from here on, so stop the iterators */
+	      ((SPHLFLogHeader_t *) log_entry)->entryID.idUnit = 0;
+	    }
 #ifdef __SASDebugPrint__
 	  sas_printf
 	    ("SPHLFLoggerAllocStrideTimeStamped(%p, %ld) alloc failed opt=%x\n",
@@ -530,6 +540,11 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  if (log_entry < headerBlock->end_log_buf)
+	    {
+	      /* nothing was stored from here on, so stop the iterators */
+	      ((SPHLFLogHeader_t *) log_entry)->entryID.idUnit = 0;
+	    }
 #ifdef __SASDebugPrint__
 	  sas_printf
 	    ("SPHLFLoggerAllocTimeStampedNoLock(%p, %ld) alloc failed\n", log,
@@ -614,6 +629,11 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  if (log_entry < headerBlock->end_log_buf)
+	    {
+	      /* nothing was stored from here on, so stop the iterators */
+	      ((SPHLFLogHeader_t *) log_entry)->entryID.idUnit = 0;
+	    }
 #ifdef __SASDebugPrint__
 	  sas_printf
 	    ("SPHLFLoggerAllocStrideTimeStampedNoLock(%p, %ld) alloc failed opt=%x\n",
-- 
2.43.0


From 394a0c6dcf6f75148f66e14281aed8617954261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 59/92] fix: do not wait for another wrap of the log when
 missing one

---
 src/sphlflogger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index f50e493..45517a8 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -318,7 +318,7 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 		  /* secondary threads should just retry until the
 		     buffer wraps.  */
 		  for (old = headerBlock->next_free;
-		       (old + alloc_round) >= log_entry;
+		       old > headerBlock->end_log_buf;
 		       old = headerBlock->next_free)
 		    sas_read_barrier ();
 
@@ -458,7 +458,7 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 		  /* secondary threads should just retry until the
 		     buffer wraps.  */
 		  for (old = headerBlock->next_free;
-		       (old + alloc_round) >= log_entry;
+		       old > headerBlock->end_log_buf;
 		       old = headerBlock->next_free)
 		    sas_read_barrier ();
 
-- 
2.43.0


From c64b027bf3139cf72f02edb4d1fce49709098af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 60/92] fix: let the iterator deliver each entry of a wrapped
 log once

---
 src/sphlflogger.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 45517a8..76b26e3 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -751,15 +751,13 @@ SPHLFLoggerIteratorNext (SPHLFLogIterator_t * iterator,
 	  if ((log_options & SPHLFLOGGER_CIRCULAR)
 	      && (log_options & SPHLFLOGGER_CIRCULAR_WRAPED))
 	    {
-	      if (lPtr >= iterator->end_log)
-		{
-		  iterator->current = iterator->start_log;
-		  handle = handleorg;
-		}
-	      else if ((prev != iterator->free)
-		       || ((log_options & SPHLFLOGGER_CIRCULAR_NOTFIRST)
-			   != SPHLFLOGGER_CIRCULAR_NOTFIRST))
+	      if ((prev != iterator->free)
+		  || ((log_options & SPHLFLOGGER_CIRCULAR_NOTFIRST)
+		      != SPHLFLOGGER_CIRCULAR_NOTFIRST))
 		{
+		  /* no further entry fits before the end */
+		  if (lPtr + eLen > iterator->end_log)
+		    lPtr = iterator->start_log;
 		  iterator->current = lPtr;
 		  handle = handleorg;
 		}
@@ -810,7 +808,10 @@ SPHLFLoggerCreateIterator (SPHLFLogger_t log,
       if ((log_options & SPHLFLOGGER_CIRCULAR)
 	  && (log_options & SPHLFLOGGER_CIRCULAR_WRAPED))
 	{
-	  iter->current = headerBlock->next_free;
+	  /* the oldest entry is the next one to be overwritten */
+	  if (iter->free + headerBlock->default_entry_stride > iter->end_log)
+	    iter->free = iter->start_log;
+	  iter->current = iter->free;
 	}
       else
 	{
-- 
2.43.0


From 2bf64311b26939d141fa3c11e5aff7e6743bf000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 61/92] fix: do not allocate a struct behind the end of the
 entry

---
 src/sphlfentry.h    | 12 ++++++++++--
 src/sphlflogentry.h | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/sphlfentry.h b/src/sphlfentry.h
index 4e5743a..35094b6 100644
--- a/src/sphlfentry.h
+++ b/src/sphlfentry.h
@@ -396,8 +396,12 @@ SPHLFEntryGetStructPtr (SPHLFEntryHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
+		unsigned long	pad	= ((unsigned long)ptr
 			- (unsigned long)handle->next);
+
+		if (pad > len)
+			return NULL;
+		len -= pad;
 	}
 
 	if (len >= __size)
@@ -451,8 +455,12 @@ SPHLFEntryAllocStruct (SPHLFEntryHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
+		unsigned long	pad	= ((unsigned long)ptr
 			- (unsigned long)handle->next);
+
+		if (pad > len)
+			return NULL;
+		len -= pad;
 	}
 
 	if (len >= __size)
diff --git a/src/sphlflogentry.h b/src/sphlflogentry.h
index b8147dd..8507d26 100644
--- a/src/sphlflogentry.h
+++ b/src/sphlflogentry.h
@@ -328,8 +328,12 @@ SPHLFlogEntryGetStructPtr (SPHLFLoggerHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
+		unsigned long	pad	= ((unsigned long)ptr
 			- (unsigned long)handle->next);
+
+		if (pad > len)
+			return NULL;
+		len -= pad;
 	}
 
 	if (len >= __size)
@@ -383,8 +387,12 @@ SPHLFlogEntryAllocStruct (SPHLFLoggerHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
+		unsigned long	pad	= ((unsigned long)ptr
 			- (unsigned long)handle->next);
+
+		if (pad > len)
+			return NULL;
+		len -= pad;
 	}
 
 	if (len >= __size)
-- 
2.43.0


From a625d3e2b0a5aada1979a16c455abe7463439761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 62/92] fix: do not search behind the end of the entry for the
 end of a string

---
 src/sphlfentry.h    | 6 ++++--
 src/sphlflogentry.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sphlfentry.h b/src/sphlfentry.h
index 35094b6..44f090f 100644
--- a/src/sphlfentry.h
+++ b/src/sphlfentry.h
@@ -838,11 +838,13 @@ SPHLFEntryGetNextString (SPHLFEntryHandle_t *handle)
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(ptr) + 1);
+	char		*end	= (char*)memchr(ptr, 0, len);
 	char		*value	= 0;
 
-	if (len >= vlen)
+	if (end)
 	{
+		unsigned short int	vlen	= (end - ptr) + 1;
+
 		value = ptr;
 		ptr += vlen;
 		len -= vlen;
diff --git a/src/sphlflogentry.h b/src/sphlflogentry.h
index 8507d26..c244f28 100644
--- a/src/sphlflogentry.h
+++ b/src/sphlflogentry.h
@@ -770,11 +770,13 @@ SPHLFlogEntryGetNextString (SPHLFLoggerHandle_t *handle)
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(ptr) + 1);
+	char		*end	= (char*)memchr(ptr, 0, len);
 	char		*value	= 0;
 
-	if (len >= vlen)
+	if (end)
 	{
+		unsigned short int	vlen	= (end - ptr) + 1;
+
 		value = ptr;
 		ptr += vlen;
 		len -= vlen;
-- 
2.43.0


From 88576cc85b204b1ef40df6a1f8a9cc156c58597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 63/92] fix: do not let a portal count loggers that are not in
 its list

---
 src/sphlogportal.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index 1eec5cb..92e8e6e 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -94,6 +94,8 @@ SPHLogPortalInitInternal (void* buf_seg,  sas_type_t sasType,
     heapBlock->log_buff_list = (SPHLFLogger_t*)listStart;
     heapBlock->current_logger = 0;
     heapBlock->next_free = 0;
+    memset(heapBlock->log_buff_list, 0,
+           heapBlock->list_size * sizeof(SPHLFLogger_t));
 
     remaining= DEFAULT_PAGE - sizeof(SASLogPortalHeader);
     heapBlock->headerFreeSpace = (freeNode *)&heapBlock[1];
@@ -185,11 +187,23 @@ SPHLogPortalAddLogger (SPHLogPortal_t portal, SPHLFLogger_t log)
 		if (SOMSASCheckBlockSigAndType (logBlock,
 				SAS_RUNTIME_LOCKFREELOGGER) )
 		{
-			index = __sync_fetch_and_add (&headerBlock->next_free, 1);
+			bool done;
+			/* Insert the Logger in the first free entry of the Portal
+			 * list, and only then let the others see that entry. */
+			do
+			{
+				index = headerBlock->next_free;
+				if (index >= headerBlock->list_size)
+					break;
+				done = __sync_bool_compare_and_swap (
+						&headerBlock->log_buff_list[index],
+						(SPHLFLogger_t)NULL, log);
+				__sync_bool_compare_and_swap (&headerBlock->next_free,
+						index, index + 1);
+			} while (!done);
+
 			if (index < headerBlock->list_size)
 			{
-				/* Insert the Logger in the Portal list */
-				headerBlock->log_buff_list[index] = log;
 				/* Link this Logger to the Portal as its Base Block
 				 * then link this Logger as the Next Block of the
 				 * previous Logger in the list.
@@ -202,9 +216,6 @@ SPHLogPortalAddLogger (SPHLogPortal_t portal, SPHLFLogger_t log)
 				}
 
 				rc = log;
-			} else {
-				if (index > headerBlock->list_size)
-					index = __sync_fetch_and_add (&headerBlock->next_free, -1);
 			}
 	#ifdef __SASDebugPrint__
 		} else {
-- 
2.43.0


From 02a4f8e590604f42ce5fdb67e76a2ad2bb23585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 64/92] fix: return the number of entries of a full portal too

---
 src/sphlogportal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index 92e8e6e..dec9a96 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -353,7 +353,7 @@ SPHLogPortalEntries (SPHLogPortal_t portal)
 			SAS_RUNTIME_LOGPORTAL) )
 	{
 		sas_read_barrier();
-		if ( headerBlock->next_free < headerBlock->list_size )
+		if ( headerBlock->next_free <= headerBlock->list_size )
 		{
 			rc = headerBlock->next_free;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 0dfc841028bf3997ac18ab35f562aff0302607fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 65/92] fix: let the iterator of a portal pass over loggers
 without entries

---
 src/sphlogportal.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index dec9a96..c85f888 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -15,6 +15,7 @@
 #include <stdio.h>
 //#include "sasio.h"
 #include <stdlib.h>
+#include <string.h>
 #include "sasalloc.h"
 #include "freenode.h"
 #ifdef __SASDebugPrint__
@@ -453,12 +454,12 @@ SPHLFPortalIteratorNext (SPHLFPortalIterator_t *iterator,
     	if (log)
     	{   /* The iterator should point to a logger.  */
     		handle = SPHLFLoggerIteratorNext(&iterator->logIter, handlespace);
-    		if (!handle)
+    		while (!handle)
     		{   /* implies we at then end of the current logger. */
     			longPtr_t cur = iterator->current;
     			longPtr_t nxt = cur + 1;
     			log0 = headerBlock->log_buff_list[cur];
-    			if (log0 && (nxt <= iterator->next_free)
+    			if (log0 && (nxt < iterator->next_free)
     			&& (nxt < iterator->capacity))
     			{   /* nxt is within the allocated list.  */
     				log = headerBlock->log_buff_list[nxt];
@@ -470,9 +471,11 @@ SPHLFPortalIteratorNext (SPHLFPortalIterator_t *iterator,
     		    		{   /* and that pointer to a valid logger.  */
     		    			iterator->current = nxt;
     		        		handle = SPHLFLoggerIteratorNext(l_iter, handlespace);
+    		        		continue;
     		    		}
     				}
     			}
+    			break;
     		}
     	}
 #ifdef __SASDebugPrint__
-- 
2.43.0


From ced4a24cded9afbec64955cf3ef85153515b0293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 66/92] fix: remove the lock table that could be created but
 not attached

---
 src/sasshm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sasshm.c b/src/sasshm.c
index f4c1afa..6b1fb2e 100644
--- a/src/sasshm.c
+++ b/src/sasshm.c
@@ -95,6 +95,9 @@ SASAllocateShmID (key_t key_id, void *addr, long size)
       sas_printf ("SASAllocateShmID(%x, %p, %ld); shmat failed;%s\n",
 		  key_id, addr, size, strerror (errno));
 #endif
+      /* Nobody is going to initialize what was just created.  */
+      if (!exist)
+	shmctl (shm_id, IPC_RMID, NULL);
       return (-1);
     }
 
@@ -145,6 +148,9 @@ SASAllocateShmID_clear (key_t key_id, void *addr, long size)
       sas_printf ("SASAllocateShmID(%x, %p, %ld); shmat failed;%s\n",
 		  key_id, addr, size, strerror (errno));
 #endif
+      /* Nobody is going to initialize what was just created.  */
+      if (!exist)
+	shmctl (shm_id, IPC_RMID, NULL);
       return (-1);
     }
 
-- 
2.43.0


From b3098091298d4ec54ba5d7d3208e5d30029cafd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 67/92] fix: keep the used list a tree when a block cannot be
 split

---
 src/sassim.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 343fa29..a17bcd5 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -380,6 +380,7 @@ p2splitUsed (uLongTreeNode ** root, unsigned long size, void *loc,
   if (!p2HasRoom (longToSize (cblock->getKey ()) - SizeToLog2 (size)))
     {
       sas_printf ("!SASRemUsed no room to split the block of %p\n", loc);
+      cblock->init (cblock->getKey (), cblock->getInfo ());
       (*root)->insertNode (root, cblock);
       return 1;
     }
-- 
2.43.0


From 12022af1a2491544019e1d3dc21811f288c183cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:57 +0000
Subject: [PATCH 68/92] fix: report no free space for a full anchor block

---
 src/sassim.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index a17bcd5..728e5de 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1735,9 +1735,10 @@ unsigned int
 SASAnchorFreeSpace ()
 {
   SASBlockHeader *anchorBlock = (SASBlockHeader *) memLow;
-  unsigned int temp;
+  unsigned int temp = 0;
   SASSeize ();
-  temp = freeNode_freeSpaceTotal (anchorBlock->blockFreeSpace);
+  if (anchorBlock->blockFreeSpace != NULL)
+    temp = freeNode_freeSpaceTotal (anchorBlock->blockFreeSpace);
   SASRelease ();
 
   return temp;
-- 
2.43.0


From 55cb2d773bfa6f0a1a24964fa59b3af7dad87103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:58 +0000
Subject: [PATCH 69/92] fix: close the file that the command line was read from

Every process that loads the library kept a descriptor of its
/proc/<pid>/cmdline open for good.
---
 src/sphthread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sphthread.c b/src/sphthread.c
index e7a7aa5..1bb716b 100644
--- a/src/sphthread.c
+++ b/src/sphthread.c
@@ -43,6 +43,7 @@ sphdeGetCmdLine_internal (pid_t pid)
 	    cnt--;
 	  sph_cmdLine[cnt] = 0;
 	}
+      close (fd);
     }
   else
     {
-- 
2.43.0


From a74f28646b245846c3579267c6d1800d26842914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:58 +0000
Subject: [PATCH 70/92] fix: tell a forked child its own process and thread ID

The cached IDs of the parent were reported by the child, also in the log
and queue entries it wrote.
---
 src/sphthread.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sphthread.c b/src/sphthread.c
index 1bb716b..782797c 100644
--- a/src/sphthread.c
+++ b/src/sphthread.c
@@ -18,6 +18,7 @@
 #include <errno.h>
 #include <string.h>
 #include <syscall.h>
+#include <pthread.h>
 #include "sphthread.h"
 
 __thread pid_t threadID = 0;
@@ -97,11 +98,20 @@ sphdeGetCmdLine (void)
 }
 
 #ifdef SPH_PROCINIT_CTOR
+/* A forked child is another process, and its only thread another thread.  */
+static void
+sph_fork_procinfo (void)
+{
+  procID = getpid ();
+  threadID = syscall (SYS_gettid);
+}
+
 void
 __attribute__((constructor))
 sph_init_procinfo (void)
 {
 	procID = getpid ();
     sphdeGetCmdLine_internal (procID);
+    pthread_atfork (NULL, NULL, sph_fork_procinfo);
 }
 #endif /* SPH_PROCINIT_CTOR */
-- 
2.43.0


From ad85a23edcfa1c297183af0cc439ba2e9ffa6ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:58 +0000
Subject: [PATCH 71/92] fix: look up the ID of a thread that was not set up

A thread that called neither SASThreadSetUp nor sphdeGetTID, as the main
thread of most programs, was reported with the ID 0, also in the log and
queue entries it wrote.
---
 src/sphthread.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sphthread.h b/src/sphthread.h
index 1e55745..15bca49 100644
--- a/src/sphthread.h
+++ b/src/sphthread.h
@@ -134,16 +134,13 @@ extern __thread pid_t threadID __attribute__ ((tls_model ("initial-exec")));
 static inline int
 sphFastGetTID (void)
 {
-#ifdef SPH_THREADINIT_CTOR
-	return (threadID);
-#else
+  /* not every thread was set up by SASThreadSetUp */
   int tid = threadID;
   if (__builtin_expect ((!tid), 0))
     {
       tid = sphdeGetTID ();
     }
   return (tid);
-#endif
 }
 
 #endif
-- 
2.43.0


From 84612b44ea942abe08757a76b16323be0c518f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 72/92] fix: do not deliver what was in the log before after a
 refused raw entry

---
 src/sphlflogger.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 76b26e3..0da4c79 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -192,6 +192,11 @@ SPHLFLoggerAllocRaw (SPHLFLogger_t log, block_size_t alloc_size)
 
       if (log_entry + alloc_round > headerBlock->end_log_buf)
 	{
+	  if (log_entry < headerBlock->end_log_buf)
+	    {
+	      /* nothing was stored from here on, so stop the iterators */
+	      ((SPHLFLogHeader_t *) log_entry)->entryID.idUnit = 0;
+	    }
 	  log_entry = 0;
 #ifdef __SASDebugPrint__
 	  sas_printf ("SPHLFLoggerAllocRaw(%p, %ld) alloc failed\n",
-- 
2.43.0


From 01d7e60547f1cd8847622be1d5bbc0bfcc26afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:39 +0000
Subject: [PATCH 73/92] fix: end the iteration of a log at its first unused
 byte

---
 src/sphlflogger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 0da4c79..5f8fa9b 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -769,7 +769,7 @@ SPHLFLoggerIteratorNext (SPHLFLogIterator_t * iterator,
 	    }
 	  else
 	    {
-	      if (lPtr <= iterator->free)
+	      if ((prev < iterator->free) && (lPtr <= iterator->free))
 		{
 		  iterator->current = lPtr;
 		  handle = handleorg;
-- 
2.43.0


From 3699779cb7a079a4ae3d9e6c2549551d32dfdf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 74/92] fix: keep the entries of a multi queue off its header

---
 src/sphmultipcqueue.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index 4d0f61a..b71d3ad 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -57,11 +57,8 @@ typedef struct SPHMPMCQHeader
 
 #ifdef __LP64__
 #define HEAP_OFFSET 128
-#if 1
-#define DEFAULT_PAGE 256
-#else
+/* must not be less than sizeof (SPHMPMCQHeader) */
 #define DEFAULT_PAGE 384
-#endif
 #else
 #define HEAP_OFFSET 64
 #define DEFAULT_PAGE 256
-- 
2.43.0


From 823f228f35a742104c2426edd73e67348e1b2bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 75/92] fix: report a multi queue whose entries are all taken
 as empty

---
 src/sphmultipcqueue.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index b71d3ad..0753e45 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -259,7 +259,9 @@ SPHMPMCQIsEmpty (SPHMPMCQ_t queue)
 		sas_read_barrier ();
 		longPtr_t temp = headerBlock->qtail;
 		SPHLFEntryHeader_t *entryPtr = (SPHLFEntryHeader_t *)temp;
-		if (!entryPtr->entryID.detail.valid)
+		/* a valid entry that is not allocated was already taken */
+		if (!entryPtr->entryID.detail.valid
+		    || !entryPtr->entryID.detail.allocated)
 			rc = 1;
 	} else {
 		debug_printf("%s(%p) type check failed\n", __FUNCTION__,queue);
-- 
2.43.0


From d0270db3722460135ecca6fe82bee430e3eff1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 76/92] fix: refuse to log into what is not a logger

---
 src/sphlflogger.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 5f8fa9b..913819f 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -338,10 +338,11 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf ("SPHLFLoggerAllocTimeStamped(%p, %ld) type check failed\n",
 		  log, alloc_size);
 #endif
@@ -478,10 +479,11 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 		}
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 log, alloc_round);
@@ -566,10 +568,11 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
 							       handleorg);
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocTimeStampedNoLock(%p, %ld) type check failed\n",
 	 log, alloc_size);
@@ -655,10 +658,11 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 								     handleorg);
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocStrideTimeStampedNoLock(%p, %ld) type check failed\n",
 	 log, alloc_round);
-- 
2.43.0


From a1fc7836365873127f64a58422569866ee0199e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 77/92] fix: refuse to use what is not a queue

---
 src/sphsinglepcqueue.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 0f13d56..532e58f 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -977,10 +977,11 @@ SPHSinglePCQueueAllocStrideEntry (SPHSinglePCQueue_t queue,
 	     queue, alloc_round, headerBlock->options);
 #endif
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideEntry(%p, %ld) type check failed\n",
 	 queue, alloc_round);
@@ -1054,10 +1055,11 @@ SPHSinglePCQueueAllocStrideTimeStamped (SPHSinglePCQueue_t queue,
 	     queue, alloc_round, headerBlock->options);
 #endif
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 queue, alloc_round);
@@ -1140,10 +1142,11 @@ SPHSinglePCQueueGetNextComplete (SPHSinglePCQueue_t queue,
 	{
 	  handlespace = NULL;
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 queue, alloc_round);
-- 
2.43.0


From c5b2488f625daca5c39a5601f947f6d42c816bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:15 +0000
Subject: [PATCH 78/92] fix: store the new value in an atomic swap

---
 src/sasatom_x86_64.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sasatom_x86_64.h b/src/sasatom_x86_64.h
index 9c0d233..eaf83a8 100644
--- a/src/sasatom_x86_64.h
+++ b/src/sasatom_x86_64.h
@@ -95,9 +95,9 @@ __arch_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 static inline long int
 __arch_atomic_swap (long int *p, long int replace)
 {
-  long int temp;
+  long int temp = replace;
 
-  __asm__ (
+  __asm__ __volatile__ (
     " lock;"
     " xchg %0,(%1);"
    : "+r" (temp)
-- 
2.43.0


From 7f17dd19b0e89e2cdf906a12cf2f019f84ce1f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:15 +0000
Subject: [PATCH 79/92] fix: increment and decrement all 64 bits atomically

---
 src/sasatom_x86_64.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sasatom_x86_64.h b/src/sasatom_x86_64.h
index eaf83a8..17032bf 100644
--- a/src/sasatom_x86_64.h
+++ b/src/sasatom_x86_64.h
@@ -113,7 +113,7 @@ __arch_atomic_inc (long int *p)
 {
   __asm__ __volatile__ (
     "  lock;"
-    "  incl (%0);"
+    "  incq (%0);"
    :
    : "p" (p)
    : "memory"
@@ -123,9 +123,9 @@ __arch_atomic_inc (long int *p)
 static inline void
 __arch_atomic_dec (long int *p)
 {
-  __asm__ (
+  __asm__ __volatile__ (
     "  lock;"
-    "  decl (%0);"
+    "  decq (%0);"
    :
    : "p" (p)
    : "memory"
-- 
2.43.0


From de1235b645a1641d252e1e38efef03440a6177ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 80/92] fix: do not take a held spin lock in the generic
 implementation

---
 src/sasatom_generic.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sasatom_generic.h b/src/sasatom_generic.h
index d1b3cb8..2bdc2b4 100644
--- a/src/sasatom_generic.h
+++ b/src/sasatom_generic.h
@@ -134,6 +134,7 @@ __arch_sas_spin_lock (volatile sas_spin_lock_t *lock)
   int success = 0;
 
   do {
+     oldval = 0; /* a failed exchange leaves the lock's value here */
      success = __atomic_compare_exchange_n (lock, &oldval, newval, 1,
     		 __ATOMIC_ACQUIRE, __ATOMIC_RELAXED);
   } while (!success);
-- 
2.43.0


From 305d1b65641a28fd53d419930b3f06679e3a25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:35 +0000
Subject: [PATCH 81/92] fix: know the frequency in the constructors of the
 clock libraries

A statically linked program runs the constructor of libsphgtod or
libsphgettime before that of libsphde, took the frequency for 0 and died
of a division by zero at the first conversion.
---
 src/sphgettime.c | 2 +-
 src/sphgtod.c    | 2 +-
 src/sphtimer.c   | 4 +---
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sphgettime.c b/src/sphgettime.c
index 4d82378..72035d6 100644
--- a/src/sphgettime.c
+++ b/src/sphgettime.c
@@ -61,7 +61,7 @@ sphget_tb2gettime_factor (void)
   uint64_t gettime_tb;
   uint64_t tb2;
 
-  tb_freq = sphfastcpufreq();
+  tb_freq = sphgetcpufreq ();
 
   tb1 = sphgettimer ();
   clock_gettime(CLOCK_MONOTONIC, &gettime);
diff --git a/src/sphgtod.c b/src/sphgtod.c
index c8951f2..aa995e3 100644
--- a/src/sphgtod.c
+++ b/src/sphgtod.c
@@ -62,7 +62,7 @@ sphget_tb2gtod_factor (void)
   uint64_t gtod_tb;
   uint64_t tb2;
 
-  tb_freq = sphfastcpufreq();
+  tb_freq = sphgetcpufreq ();
 
   tb1 = sphgettimer ();
   gettimeofday(&gtod, NULL);
diff --git a/src/sphtimer.c b/src/sphtimer.c
index 5c79c02..968d948 100644
--- a/src/sphtimer.c
+++ b/src/sphtimer.c
@@ -140,14 +140,12 @@ sphgetcpufreq (void)
 {
   sphtimer_t result = sph_cpu_frequency;
 
-#ifdef SPH_TIMEBASEFREQ_CTOR
-#else
+  /* other constructors may get here before the one below */
   if (result == 0)
     {
       sph_cpu_frequency = get_cpu_freq_internal ();
       result = sph_cpu_frequency;
     }
-#endif
   return result;
 }
 
-- 
2.43.0


From 860229d988c1f36b48c362f701d47f0f681422bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:35 +0000
Subject: [PATCH 82/92] fix: report the process identifier before the library's
 constructor ran

A constructor of a statically linked program read it as 0.
---
 src/sphthread.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sphthread.h b/src/sphthread.h
index 15bca49..d4625b1 100644
--- a/src/sphthread.h
+++ b/src/sphthread.h
@@ -106,16 +106,13 @@ extern pid_t procID;
 static inline int
 sphFastGetPID (void)
 {
-#ifdef SPH_PROCINIT_CTOR
-	return (procID);
-#else
+  /* constructors of others may get here before ours */
   int pid = procID;
   if (__builtin_expect ((!pid), 0))
     {
       pid = sphdeGetPID ();
     }
   return (pid);
-#endif
 }
 
 /*!
-- 
2.43.0


From ff2993d21ff5f2e716515526dcf137a5d3aad83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:47 +0000
Subject: [PATCH 83/92] fix: find only a block that contains the address

SASFindHeader took the first header found at an aligned address below,
whatever its size: every address of the first segment outside any object
found the anchor block, others an unrelated object at a larger alignment,
so that an allocation near them was carved out of the wrong object.
---
 src/sasalloc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index 4064f50..ef358f4 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -462,11 +462,16 @@ SASBlockHeader *SASFindHeader (const void *nearObj)
 #endif
 	// Look for the innermost block that contains nearObj, at every
 	// power of two a block can have as its size and alignment.
+	// In a caller's own memory the nearest block below is found.
+	bool inRegion = (temp >= __SAS_BASE_ADDRESS)
+		     && (temp - __SAS_BASE_ADDRESS < RegionSize);
 	for (uintptr_t size = 512; size <= block__Size256M; size <<= 1)
 	{
 	    SASBlockHeader *candidate = (SASBlockHeader *)(temp & ~(size - 1));
 
-	    if ( SOMSASCheckBlockSig(candidate) )
+	    if ( SOMSASCheckBlockSig(candidate)
+	      && (!inRegion
+	       || ((temp - (uintptr_t)candidate) < candidate->blockSize)) )
 	    {
 		block = candidate;
 		break;
-- 
2.43.0


From b5a9ba654e053c090f854f8465bef931e193b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:54 +0000
Subject: [PATCH 84/92] fix: check the type and lock the heap in
 SASSimpleHeapNear operations

SASSimpleHeapNearAlloc and SASSimpleHeapNearDealloc used any block found
near the address, of whatever type, or malloc and free without one, and
did not hold the documented write lock.
---
 src/sassimpleheap.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index 1d6c235..458e31d 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -234,7 +234,16 @@ SASSimpleHeapNearAllocNoLock(void *nearObj, long allocSize)
 
 void* SASSimpleHeapNearAlloc(void *nearObj, long allocSize)
 {
-    return SASNearAlloc (nearObj, allocSize);
+    SASSimpleHeap_t	heap = SASSimpleHeapNearFind (nearObj);
+    void		*mem = NULL;
+
+    if (heap)
+    {
+	SASLock(heap, SasUserLock__WRITE);
+	mem = SASSimpleHeapNearAllocNoLock (nearObj, allocSize);
+	SASUnlock(heap);
+    }
+    return mem;
 }
 
 void
@@ -278,8 +287,15 @@ SASSimpleHeapNearDeallocNoLock(void *nearObj, long allocSize)
 }
 
 void SASSimpleHeapNearDealloc(void *memAddr, long allocSize)
-{							
-    SASNearDealloc (memAddr, allocSize);
+{
+    SASSimpleHeap_t	heap = SASSimpleHeapNearFind (memAddr);
+
+    if (heap)
+    {
+	SASLock(heap, SasUserLock__WRITE);
+	SASSimpleHeapNearDeallocNoLock (memAddr, allocSize);
+	SASUnlock(heap);
+    }
 }
 
 block_size_t
-- 
2.43.0


From 576920f72d9b06ac4f7a80eb7cfe30d58f1b9d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 85/92] fix: clear the page headers of a destroyed compound
 block

The headers of sub-heaps and tree nodes stayed in the freed memory, and
were taken for live objects when it was used again.
---
 src/sasalloc.cpp        | 20 ++++++++++++++++++++
 src/sasallocpriv.h      |  7 +++++++
 src/sascompoundheap.cpp |  5 +++++
 src/sasindex.cpp        |  9 +++++++++
 src/sasstringbtree.cpp  |  9 +++++++++
 5 files changed, 50 insertions(+)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index ef358f4..932707d 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -10,6 +10,7 @@
  */
 
 #include <stdlib.h>
+#include <string.h>
 #include "sasallocpriv.h"
 #include "freenode.h"
 #ifdef __SAS__
@@ -157,6 +158,25 @@ void initSOMSASBlock(   SASBlockHeader *header, sas_type_t sasType,
     header->nextBlock   = NULL;
 }
 
+void SASBlockClearPages (void *block, block_size_t block_size,
+			block_size_t page_size)
+{
+    char *page = (char*)block;
+    char *end = page + block_size;
+
+    if (page_size < 512)
+	return;
+
+    // The first page goes with the block header.
+    for (page += page_size; page < end; page += page_size)
+    {
+	SASBlockHeader *header = (SASBlockHeader*)page;
+
+	if ( SOMSASCheckBlockSig(header) )
+	    memset (header, 0, sizeof(SASBlockHeader));
+    }
+}
+
 #ifdef __SAS__
 void  SASMemRemove(void *startAddr, long size, int asyncBool)
 #else
diff --git a/src/sasallocpriv.h b/src/sasallocpriv.h
index 7815211..04c696c 100644
--- a/src/sasallocpriv.h
+++ b/src/sasallocpriv.h
@@ -29,4 +29,11 @@ getfastMemHigh ()
   return memHigh;
 }
 
+/* Clear the headers of the pages of a compound block, so that they are not
+ * taken for the headers of live blocks once the memory is used again.  */
+extern void
+SASBlockClearPages (void *block, block_size_t block_size,
+		    block_size_t page_size)
+  __attribute__ ((visibility ("hidden")));
+
 #endif /* _SASAllocPriv_H */
diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 27cb939..2f14b98 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -12,6 +12,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include "sasalloc.h"
+#include "sasallocpriv.h"
 #include "freenode.h"
 #ifdef __SASDebugPrint__
 #include "sasio.h"
@@ -1214,6 +1215,8 @@ SASCompoundHeapDestroyNoLock (SASCompoundHeap_t heap)
 	{
 	  for (i = 1; i < list->count; i++)
 	    {
+	      SASBlockClearPages (list->heap[i], heapSize,
+	                          headerBlock->pageSize);
 	      SASBlockDealloc (list->heap[i], heapSize);
 	      list->heap[i] = NULL;
 	    }
@@ -1223,6 +1226,8 @@ SASCompoundHeapDestroyNoLock (SASCompoundHeap_t heap)
 	      SASSimpleSpaceDestroy (headerBlock->expandSpace);
 	    }
 	}
+      SASBlockClearPages (heap, heapSize,
+                          headerBlock->pageSize);
       SASBlockDealloc (heap, heapSize);
 #ifdef __SASDebugPrint__
     }
diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index f600dc4..aa04fea 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -13,6 +13,7 @@
 #include <stddef.h>
 #include <string.h>
 #include "sasalloc.h"
+#include "sasallocpriv.h"
 #include "freenode.h"
 #include "sasio.h"
 #include "sasanchr.h"
@@ -1012,11 +1013,15 @@ SASIndexDestroyNoLock (SASIndex_t heap)
 		{
 			for ( i = 1; i < list->count; i++ )
 			{
+				SASBlockClearPages (list->heap[i], heapSize,
+				                    headerBlock->pageSize);
 				SASBlockDealloc (list->heap[i], heapSize);
 				list->heap[i] = NULL;
 			}
 			list->max_count = 1;
 		}
+		SASBlockClearPages (heap, heapSize,
+		                    headerBlock->pageSize);
 		SASBlockDealloc (heap, heapSize);
 #ifdef __SASDebugPrint__
     } else {
@@ -1046,6 +1051,8 @@ SASIndexDestroy (SASIndex_t heap)
 			}
 			for ( i = 1; i < list->count; i++ )
 			{
+				SASBlockClearPages (list->heap[i], heapSize,
+				                    headerBlock->pageSize);
 				SASBlockDealloc (list->heap[i], heapSize);
 			}
 			for ( i = 1; i < list->count; i++ )
@@ -1055,6 +1062,8 @@ SASIndexDestroy (SASIndex_t heap)
 			}
 			list->max_count = 1;
 		}
+		SASBlockClearPages (headerBlock, heapSize,
+		                    headerBlock->pageSize);
 		SASBlockDealloc (headerBlock, heapSize);
 		SASUnlock(heap);
 #ifdef __SASDebugPrint__
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 865b2f7..8dd5149 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -13,6 +13,7 @@
 #include <stddef.h>
 #include <string.h>
 #include "sasalloc.h"
+#include "sasallocpriv.h"
 #include "freenode.h"
 #include "sasio.h"
 #include "sasanchr.h"
@@ -1105,11 +1106,15 @@ SASStringBTreeDestroyNoLock (SASStringBTree_t heap)
 	{
 	  for (i = 1; i < list->count; i++)
 	    {
+	      SASBlockClearPages (list->heap[i], heapSize,
+	                          headerBlock->pageSize);
 	      SASBlockDealloc (list->heap[i], heapSize);
 	      list->heap[i] = NULL;
 	    }
 	  list->max_count = 1;
 	}
+      SASBlockClearPages (heap, heapSize,
+                          headerBlock->pageSize);
       SASBlockDealloc (heap, heapSize);
 #ifdef __SASDebugPrint__
     }
@@ -1142,6 +1147,8 @@ SASStringBTreeDestroy (SASStringBTree_t heap)
 	    }
 	  for (i = 1; i < list->count; i++)
 	    {
+	      SASBlockClearPages (list->heap[i], heapSize,
+	                          headerBlock->pageSize);
 	      SASBlockDealloc (list->heap[i], heapSize);
 	    }
 	  for (i = 1; i < list->count; i++)
@@ -1151,6 +1158,8 @@ SASStringBTreeDestroy (SASStringBTree_t heap)
 	    }
 	  list->max_count = 1;
 	}
+      SASBlockClearPages (headerBlock, heapSize,
+                          headerBlock->pageSize);
       SASBlockDealloc (headerBlock, heapSize);
       SASUnlock (heap);
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 491268680bae9bb5140491ac9a8e6d466fd83a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:48 +0000
Subject: [PATCH 86/92] fix: align the pages of a tree to their size

The pages of an index or string tree started 4096 bytes into its block,
also when they were larger than that.  The block of a node was then not
found from the node's own memory, and operations failed, crashed or never
returned.  Start them at the first page boundary, as a compound heap does.
---
 src/sasindex.cpp       | 22 ++++++++++++++++------
 src/sasstringbtree.cpp | 22 ++++++++++++++++------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index aa04fea..81c7017 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -111,10 +111,15 @@ SASIndexExpandInit (void* heap_seg,
     SASIndexSpillList	*spill_lst;
     char		*heapStart = NULL; 
     node_size_t		remaining;
+    block_size_t alloc_page = default_page;
+
+    /* The pages have to be aligned to their size.  */
+    if (alloc_page < page_size)
+      alloc_page = page_size;
     
     if ( heapBlock )
     {
-		heapStart = (char*) heapBlock + default_page;
+		heapStart = (char*) heapBlock + alloc_page;
 		initSOMSASBlock((SASBlockHeader*)heapBlock, 
                                        SAS_RUNTIME_INDEX,
                                        heap_size, heapStart);
@@ -123,7 +128,7 @@ SASIndexExpandInit (void* heap_seg,
     heapBlock->pageSize = page_size;
     heapBlock->root = NULL;
    
-    remaining= default_page - sizeof(SASIndexHeader);
+    remaining= alloc_page - sizeof(SASIndexHeader);
     heapBlock->headerFreeSpace = (freeNode *)&heapBlock[1];
     freeNode_init(heapBlock->headerFreeSpace, remaining);
     
@@ -163,10 +168,15 @@ SASIndexInit (void* heap_seg,
     SASIndexSpillList	*spill_lst;
     char		*heapStart = NULL; 
     node_size_t		remaining;
+    block_size_t alloc_page = default_page;
+
+    /* The pages have to be aligned to their size.  */
+    if (alloc_page < page_size)
+      alloc_page = page_size;
     
     if ( heapBlock )
     {
-		heapStart = (char*) heapBlock + default_page;
+		heapStart = (char*) heapBlock + alloc_page;
 		initSOMSASBlock((SASBlockHeader*)heapBlock, 
 		                               SAS_RUNTIME_INDEX,
 		                               heap_size, heapStart);
@@ -175,7 +185,7 @@ SASIndexInit (void* heap_seg,
     heapBlock->pageSize = page_size;
     heapBlock->root = NULL;
    
-    remaining= default_page - sizeof(SASIndexHeader);
+    remaining= alloc_page - sizeof(SASIndexHeader);
     heapBlock->headerFreeSpace = (freeNode *)&heapBlock[1];
     freeNode_init(heapBlock->headerFreeSpace, remaining);
     heapBlock->blockHeader.baseBlock = (SASBlockHeader*)heapBlock;
@@ -1850,8 +1860,8 @@ SASIndexPrintStatsPriv (SASIndexHeader *compoundHeader)
 				SASIndexFreeSpace(compoundHeader));
 	ptr = (char*)compoundHeader;
 	end_ptr = ptr + compoundHeader->blockHeader.blockSize;
-	ptr = ptr + default_page;
 	psize = compoundHeader->pageSize;
+	ptr = ptr + ((psize > default_page) ? psize : default_page);
 	sas_printf(" compound heap %p - %p + %zu\n", ptr, end_ptr, psize);
 	
 	spill_lst = compoundHeader->spillList;
@@ -1944,8 +1954,8 @@ SASIndexStatsPriv (SASIndexHeader *compoundHeader,
 	*/
 	ptr = (char*)compoundHeader;
 	end_ptr = ptr + compoundHeader->blockHeader.blockSize;
-	ptr = ptr + default_page;
 	psize = compoundHeader->pageSize;
+	ptr = ptr + ((psize > default_page) ? psize : default_page);
 	
 	spill_lst = compoundHeader->spillList;
 	for (int i=0; i<spill_lst->count; i++)
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 8dd5149..d4f6c78 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -111,10 +111,15 @@ SASStringBTreeExpandInit (void *heap_seg,
   SASStringBTreeSpillList *spill_lst;
   char *heapStart = NULL;
   node_size_t remaining;
+  block_size_t alloc_page = default_page;
+
+  /* The pages have to be aligned to their size.  */
+  if (alloc_page < page_size)
+    alloc_page = page_size;
 
   if (heapBlock)
     {
-      heapStart = (char *) heapBlock + default_page;
+      heapStart = (char *) heapBlock + alloc_page;
       initSOMSASBlock ((SASBlockHeader *) heapBlock,
 		       SAS_RUNTIME_STRINGBTREE, heap_size, heapStart);
     }
@@ -122,7 +127,7 @@ SASStringBTreeExpandInit (void *heap_seg,
   heapBlock->pageSize = page_size;
   heapBlock->root = NULL;
 
-  remaining = default_page - sizeof (SASStringBTreeHeader);
+  remaining = alloc_page - sizeof (SASStringBTreeHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
   freeNode_init (heapBlock->headerFreeSpace, remaining);
 
@@ -165,10 +170,15 @@ SASStringBTreeInit (void *heap_seg,
   SASStringBTreeSpillList *spill_lst;
   char *heapStart = NULL;
   node_size_t remaining;
+  block_size_t alloc_page = default_page;
+
+  /* The pages have to be aligned to their size.  */
+  if (alloc_page < page_size)
+    alloc_page = page_size;
 
   if (heapBlock)
     {
-      heapStart = (char *) heapBlock + default_page;
+      heapStart = (char *) heapBlock + alloc_page;
       initSOMSASBlock ((SASBlockHeader *) heapBlock,
 		       SAS_RUNTIME_STRINGBTREE, heap_size, heapStart);
     }
@@ -176,7 +186,7 @@ SASStringBTreeInit (void *heap_seg,
   heapBlock->pageSize = page_size;
   heapBlock->root = NULL;
 
-  remaining = default_page - sizeof (SASStringBTreeHeader);
+  remaining = alloc_page - sizeof (SASStringBTreeHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
   freeNode_init (heapBlock->headerFreeSpace, remaining);
   heapBlock->blockHeader.baseBlock = (SASBlockHeader *) heapBlock;
@@ -1979,8 +1989,8 @@ SASStringBTreePrintStatsPriv (SASStringBTreeHeader * compoundHeader)
 	      compoundHeader, SASStringBTreeFreeSpace (compoundHeader));
   ptr = (char *) compoundHeader;
   end_ptr = ptr + compoundHeader->blockHeader.blockSize;
-  ptr = ptr + default_page;
   psize = compoundHeader->pageSize;
+  ptr = ptr + ((psize > default_page) ? psize : default_page);
   sas_printf (" compound heap %p - %p + %zu\n", ptr, end_ptr, psize);
 
   spill_lst = compoundHeader->spillList;
@@ -2067,8 +2077,8 @@ SASStringBTreeStatsPriv (SASStringBTreeHeader * compoundHeader,
    */
   ptr = (char *) compoundHeader;
   end_ptr = ptr + compoundHeader->blockHeader.blockSize;
-  ptr = ptr + default_page;
   psize = compoundHeader->pageSize;
+  ptr = ptr + ((psize > default_page) ? psize : default_page);
 
   spill_lst = compoundHeader->spillList;
   for (int i = 0; i < spill_lst->count; i++)
-- 
2.43.0


From 9fdffe72a3e3660642b83f8320c6bd16c8002be1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 87/92] fix: do not lock a tree while holding the lock of its
 expansion

---
 src/sasindex.cpp       | 4 +++-
 src/sasstringbtree.cpp | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 81c7017..6253dab 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -670,7 +670,9 @@ SASIndexNearAlloc(void *nearObj)
 				{
 					newHeap = SASIndexAllocInternal (compoundHeader);
 				} else {
-					newHeap = SASIndexAlloc ((SASIndex_t)baseHeader);
+					// the base tree is always locked before its expansions
+					SASUnlock(compoundHeader);
+					return SASIndexAlloc ((SASIndex_t)baseHeader);
 				}
 #ifdef __SASDebugPrint__
 		    } else {
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index d4f6c78..3baa261 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -723,8 +723,9 @@ SASStringBTreeNearAlloc (void *nearObj)
 		}
 	      else
 		{
-		  newHeap =
-		    SASStringBTreeAlloc ((SASStringBTree_t) baseHeader);
+		  // the base tree is always locked before its expansions
+		  SASUnlock (compoundHeader);
+		  return SASStringBTreeAlloc ((SASStringBTree_t) baseHeader);
 		}
 #ifdef __SASDebugPrint__
 	    }
-- 
2.43.0


From 5ee0c3e804248ca1870ad150d1ef7f19f8e2c2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:39 +0000
Subject: [PATCH 88/92] fix: declare the string tree node frees the way they
 are defined

---
 src/sasstringbtreenode.h     | 4 ++--
 src/sasstringbtreenodepriv.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sasstringbtreenode.h b/src/sasstringbtreenode.h
index 1106809..3b41d90 100644
--- a/src/sasstringbtreenode.h
+++ b/src/sasstringbtreenode.h
@@ -235,7 +235,7 @@ SASStringBTreeNodeAlloc (SASStringBTreeNode_t heap, block_size_t alloc_size,
  * if \a alloc_size does not hold the correct size of \a heap.
  */
 extern __C__ int
-SASStringBTreeNodeFree (SASStringBTreeNode_t heap, void *free_block,
+SASStringBTreeNodeFree (SASStringBTreeNode_t heap, const void *free_block,
 			block_size_t alloc_size, lock_on_t lock_on);
 
 /*!
@@ -298,7 +298,7 @@ SASStringBTreeNodeAllocNoLock (SASStringBTreeNode_t heap,
  * if \a alloc_size does not hold the correct size of \a heap.
  */
 extern __C__ int
-SASStringBTreeNodeFreeNoLock (SASStringBTreeNode_t heap, void *free_block,
+SASStringBTreeNodeFreeNoLock (SASStringBTreeNode_t heap, const void *free_block,
 			      block_size_t alloc_size);
 
 /*!
diff --git a/src/sasstringbtreenodepriv.h b/src/sasstringbtreenodepriv.h
index 82014aa..20994a5 100644
--- a/src/sasstringbtreenodepriv.h
+++ b/src/sasstringbtreenodepriv.h
@@ -52,7 +52,7 @@ SASStringBTreeSpillInit (void* heap_seg,  sas_type_t sasType,
                          block_size_t heap_size);
 
 extern __C__ int
-SASStringBTreeNodeNearDealloc(SASStringBTreeNode_t heap, void* free_block, 
+SASStringBTreeNodeNearDealloc(SASStringBTreeNode_t heap, const void* free_block, 
                                block_size_t alloc_size, lock_on_t lock_on);
 
 #endif /* __SAS_STRINGBTREENODE_PRIVH */
-- 
2.43.0


From 8b7e3866e97a3804baa76e21ac8ce4c616ae5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:17 +0000
Subject: [PATCH 89/92] fix: do not write to a block that an index node refuses
 to free

---
 src/sasindexnode.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sasindexnode.cpp b/src/sasindexnode.cpp
index afd5870..d2b9f2e 100644
--- a/src/sasindexnode.cpp
+++ b/src/sasindexnode.cpp
@@ -220,8 +220,6 @@ SASIndexNodeFreeNoLock (SASIndexNode_t heap,
   freeNode *free_node = (freeNode *) free_block;
   int rc;
 
-  freeNode_init (free_node, alloc_size);
-
   if (SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE))
     {
       heapSize = headerBlock->blockSize - heap_offset;
-- 
2.43.0


From 6adbc3e3b2de5a0c4c972d0844842377ea3dc436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:28 +0000
Subject: [PATCH 90/92] fix: refuse a near allocation that a node outside a
 tree cannot serve

---
 src/sasindexnode.cpp       | 2 ++
 src/sasstringbtreenode.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/sasindexnode.cpp b/src/sasindexnode.cpp
index d2b9f2e..f90cd23 100644
--- a/src/sasindexnode.cpp
+++ b/src/sasindexnode.cpp
@@ -371,6 +371,8 @@ SASIndexNodeNearAlloc (void *nearObj, long allocSize, lock_on_t lock_on)
 		{
 		  compoundHeader = (SASIndexHeader *) nearHeader->baseBlock;
 		}
+	      if (compoundHeader == NULL)
+		return NULL;	/* not a node of a tree, so no spill area */
 	      spill_lst = SASIndexGetSpill (compoundHeader);
 	      if (lock_on) SASLock (spill_lst, SasUserLock__WRITE);
 	      if (spill_lst->count == 0)
diff --git a/src/sasstringbtreenode.cpp b/src/sasstringbtreenode.cpp
index 97a8599..431937e 100644
--- a/src/sasstringbtreenode.cpp
+++ b/src/sasstringbtreenode.cpp
@@ -388,6 +388,8 @@ SASStringBTreeNodeNearAlloc (void *nearObj, long allocSize, lock_on_t lock_on)
 		  compoundHeader =
 		    (SASStringBTreeHeader *) nearHeader->baseBlock;
 		}
+	      if (compoundHeader == NULL)
+		return NULL;	/* not a node of a tree, so no spill area */
 	      spill_lst = SASStringBTreeGetSpill (compoundHeader);
 	      if (lock_on) SASLock (spill_lst, SasUserLock__WRITE);
 	      if (spill_lst->count == 0)
-- 
2.43.0


From 5a9e24c2f0ffa4b8898ddd21b53016d0b7b58c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:00 +0000
Subject: [PATCH 91/92] fix: refuse a simple space that no block can hold

The size of the block overflowed, so that a space without its memory
was created, or the search for a large enough block never ended.
---
 src/sassimplespace.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sassimplespace.cpp b/src/sassimplespace.cpp
index 0036a6c..fb8bfe2 100644
--- a/src/sassimplespace.cpp
+++ b/src/sassimplespace.cpp
@@ -95,6 +95,10 @@ SASSimpleSpaceCreate (block_size_t space_size)
     block_size_t	min_size = (space_size + DEFAULT_PAGE);
     block_size_t	p2_size = (DEFAULT_PAGE + DEFAULT_PAGE);
 
+    /* no block is larger than a segment */
+    if (space_size > SegmentSize - DEFAULT_PAGE)
+	return NULL;
+
     while (min_size > p2_size)
 	p2_size = p2_size + p2_size;
     
-- 
2.43.0


From 022b4a9de3c886612c20f97d65bf107bf0a8fa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:47 +0000
Subject: [PATCH 92/92] fix: let an MPMC queue without room for an entry refuse
 it

---
 src/sphmultipcqueue.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index 0753e45..a72f898 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -75,8 +75,17 @@ SPHMPMCQClearEntries (SPHMPMCQHeader *headerBlock)
 	longPtr_t stride = headerBlock->default_entry_stride;
 	longPtr_t entry;
 
-	if (stride == NODEFAULT_ENTRY_STRIDE)
+	if (stride == NODEFAULT_ENTRY_STRIDE
+	    || headerBlock->startq + stride > headerBlock->endq) {
+		/* No entry fits: the one at the head is never free, so the
+		   queue stays full and empty. */
+		sphLFEntry_t entrytemp;
+		entrytemp.idUnit = 0;
+		entrytemp.detail.allocated = 1;
+		((SPHLFEntryHeader_t *) headerBlock->startq)->entryID.idUnit
+			= entrytemp.idUnit;
 		return;
+	}
 
 	for (entry = headerBlock->startq; entry < headerBlock->endq; entry += stride) {
 		SPHLFEntryHeader_t *entryPtr = (SPHLFEntryHeader_t *) entry;
@@ -223,6 +232,8 @@ SPHMPMCQGetEntries (SPHMPMCQ_t queue)
 {
 	SPHMPMCQHeader *headerBlock = (SPHMPMCQHeader *) queue;
 	debug_printf("%-6d: %s NEW\n",sphdeGetTID(),__FUNCTION__);
+	if (headerBlock->default_entry_stride == NODEFAULT_ENTRY_STRIDE)
+		return 0;
 	return (headerBlock->endq - headerBlock->startq) / headerBlock->default_entry_stride;
 }
 
-- 
2.43.0

