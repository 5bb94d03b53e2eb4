From 01b75b2466350b6a90e372888a4d9aa923ec124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:27 +0000
Subject: [PATCH 01/38] fix: Collection>>includesAllOf: tested the inclusion
 the wrong way round

---
 kernel/Collection.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Collection.st b/kernel/Collection.st
index 948b62f..6264236 100644
--- a/kernel/Collection.st
+++ b/kernel/Collection.st
@@ -237,7 +237,7 @@ of objects.'>
 	"Answer whether we include all of the objects in aCollection"
 
 	<category: 'testing collections'>
-	^self allSatisfy: [:element | aCollection includes: element ]
+	^aCollection allSatisfy: [:element | self includes: element ]
     ]
 
     includesAnyOf: aCollection [
-- 
2.43.0


From e71d0dbf5054058036be659ce7929dcf711e76fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:57 +0000
Subject: [PATCH 02/38] fix: indexed accesses checked their bounds with an
 unsigned subtraction that wrapped for empty objects

---
 libgst/dict.inl | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index 528f870..29e5d8c 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -992,14 +992,12 @@ index_oop_spec (OOP oop,
       maxByte -= (oop->flags & EMPTY_BYTES);				\
 									\
     base = (instanceSpec >> ISP_NUMFIXEDFIELDS) * sizeof (PTR);		\
-    index = base + index * sizeof(type);				\
 									\
     /* Check that we're on bounds.  */					\
-    base += sizeof(type);						\
-    if UNCOMMON (index - base > maxByte - base)				\
+    if UNCOMMON (index > (maxByte - base) / sizeof (type))		\
       return (NULL);							\
 									\
-    index -= sizeof(type);						\
+    index = base + (index - 1) * sizeof(type);				\
 									\
     /* Use a cast if unaligned accesses are supported, else memcpy.  */	\
     src = ((char *) object->data) + index;				\
@@ -1085,10 +1083,9 @@ index_oop_spec (OOP oop,
       case GST_ISP_POINTER:
         maxIndex = NUM_WORDS (object);
         base = instanceSpec >> ISP_NUMFIXEDFIELDS;
-        index += base;
-        base++;
-        if UNCOMMON (index - base > maxIndex - base)
+        if UNCOMMON (index > maxIndex - base)
 	  return (NULL);
+        index += base;
 
         return (object->data[index - 1]);
     }
@@ -1127,15 +1124,13 @@ index_oop_put_spec (OOP oop,
         if (sizeof (type) <= sizeof (PTR))				\
           maxByte -= (oop->flags & EMPTY_BYTES);			\
 									\
-          base = (instanceSpec >> ISP_NUMFIXEDFIELDS) * sizeof (PTR);	\
-          index = base + index * sizeof(type);				\
+        base = (instanceSpec >> ISP_NUMFIXEDFIELDS) * sizeof (PTR);	\
 									\
         /* Check that we're on bounds.  */				\
-        base += sizeof(type);						\
-        if UNCOMMON (index - base > maxByte - base)			\
+        if UNCOMMON (index > (maxByte - base) / sizeof (type))		\
           return (false);						\
 									\
-        index -= sizeof(type);						\
+        index = base + (index - 1) * sizeof(type);			\
 									\
         /* Use a cast if unaligned accesses are ok, else memcpy.  */	\
         if (sizeof (type) <= sizeof (PTR))				\
@@ -1253,10 +1248,9 @@ index_oop_put_spec (OOP oop,
       case GST_ISP_POINTER:
         maxIndex = NUM_WORDS (object);
         base = instanceSpec >> ISP_NUMFIXEDFIELDS;
-        index += base;
-        base++;
-        if UNCOMMON (index - base > maxIndex - base)
+        if UNCOMMON (index > maxIndex - base)
 	  return (false);
+        index += base;
 
         object->data[index - 1] = value;
         return (true);
-- 
2.43.0


From 7c6aac90ce85943724b463aac104884f6bf18ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:23 +0000
Subject: [PATCH 03/38] fix: Interval>>isEmpty answered true for a descending
 interval of one element

---
 kernel/Interval.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Interval.st b/kernel/Interval.st
index 0631bb8..2ba8f23 100644
--- a/kernel/Interval.st
+++ b/kernel/Interval.st
@@ -135,7 +135,7 @@ members that my instance represents.'>
 	"Answer whether the receiver is empty."
 
 	<category: 'basic'>
-	^(step > 0) == (stop < start)
+	^step > 0 ifTrue: [stop < start] ifFalse: [start < stop]
     ]
 
     size [
-- 
2.43.0


From f7f4f5757eed69f32d4d8df3e37ef3b2f8e811c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:23 +0000
Subject: [PATCH 04/38] fix: Interval>>reverse failed on an empty interval

---
 kernel/Interval.st | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kernel/Interval.st b/kernel/Interval.st
index 2ba8f23..cd3b7fe 100644
--- a/kernel/Interval.st
+++ b/kernel/Interval.st
@@ -151,6 +151,7 @@ members that my instance represents.'>
 	"Answer a copy of the receiver with all of its items reversed"
 
 	<category: 'basic'>
+	self isEmpty ifTrue: [^Interval from: stop to: start by: step negated].
 	^Interval 
 	    from: (self at: self size)
 	    to: (self at: 1)
-- 
2.43.0


From 5ec63ab561ee4c57872f28f96a8aef2752e45561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:23 +0000
Subject: [PATCH 05/38] fix: equal Intervals could have different hashes

---
 kernel/Interval.st | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kernel/Interval.st b/kernel/Interval.st
index cd3b7fe..60effc4 100644
--- a/kernel/Interval.st
+++ b/kernel/Interval.st
@@ -192,7 +192,10 @@ members that my instance represents.'>
 	"Answer an hash value for the receiver"
 
 	<category: 'testing'>
-	^(start + stop + stop) * step bitAnd: 1073741823
+	| last |
+	self isEmpty ifTrue: [^0].
+	last := self last.
+	^(start + last + last) * step bitAnd: 1073741823
     ]
 
     copyFrom: startIndex to: stopIndex [
-- 
2.43.0


From 923fadb9da07c5a4af11cceb52229ac7a4a46635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:26 +0000
Subject: [PATCH 06/38] fix: a forked process stayed in the list of the highest
 priority

---
 kernel/Process.st | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernel/Process.st b/kernel/Process.st
index 652b841..f1cbaf6 100644
--- a/kernel/Process.st
+++ b/kernel/Process.st
@@ -390,6 +390,8 @@ can suspend themselves and resume themselves however they wish.'>
 		aBoolean
 		    ifTrue: [self suspend]
 		    ifFalse: [
+			"Leave the list of the unpreempted processes."
+			self resume.
 			aPriority < activePriority ifTrue: [ Processor yield ] ].
 		aBlockClosure value]
 			on: SystemExceptions.ProcessBeingTerminated
-- 
2.43.0


From 94e987886aa968b3115f74c4f0e6cb6f6ce691f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:34 +0000
Subject: [PATCH 07/38] fix: Semaphore>>waitAfterSignalling: could suspend the
 process it woke instead of the sender

---
 libgst/prims.def | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 98b34e1..1c3fbb5 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2908,13 +2908,16 @@ primitive VMpr_Semaphore_wait [succeed,check_interrupt]
 /* Semaphore waitAfterSignalling: aSemaphore */
 primitive VMpr_Semaphore_waitAfterSignalling [succeed,check_interrupt]
 {
-  OOP oop1, oop2;
+  OOP oop1, oop2, processOOP;
   _gst_primitives_executed++;
 
   oop2 = POP_OOP ();
   oop1 = STACKTOP ();
+
+  /* The signal might preempt us; it is still us that must wait.  */
+  processOOP = get_active_process ();
   _gst_sync_signal (oop2, true);
-  _gst_sync_wait (oop1);
+  sync_wait_process (oop1, processOOP);
   PRIM_SUCCEEDED;
 }
 
-- 
2.43.0


From 6ce899f7885e35f63786219b4f94891760ddd601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:04 +0000
Subject: [PATCH 08/38] fix: a copy of a Bag shared its contents with the
 original

---
 kernel/Bag.st | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kernel/Bag.st b/kernel/Bag.st
index 66a28f6..56ca50f 100644
--- a/kernel/Bag.st
+++ b/kernel/Bag.st
@@ -212,6 +212,14 @@ twice, then I will report that that element has been stored twice.'>
 	^LookupTable
     ]
 
+    postCopy [
+	"Do not share the counts with the object the receiver was copied from"
+
+	<category: 'private'>
+	super postCopy.
+	contents := contents copy
+    ]
+
     initContents: size [
 	<category: 'private'>
 	contents := self dictionaryClass new: size
-- 
2.43.0


From 9eeff44d7346d84108bff9562837f78e3bcc9afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 09/38] fix: IdentitySet moved its elements to where only an
 equality set would find them

---
 kernel/IdentitySet.st | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/kernel/IdentitySet.st b/kernel/IdentitySet.st
index 637e0ea..6e039b8 100644
--- a/kernel/IdentitySet.st
+++ b/kernel/IdentitySet.st
@@ -53,6 +53,22 @@ use the == operator to determine duplication of objects.'>
 	^anObject identityHash
     ]
 
+    findElementIndex: anObject [
+        "Tries to see where anObject can be placed as an indexed variable.
+	 As soon as nil is found, the index of that slot is answered.
+	 anObject also comes from an indexed variable."
+
+        <category: 'private methods'>
+        | index size element |
+        "Sorry for the lack of readability, but I want speed... :-)"
+        index := (anObject identityHash scramble bitAnd: (size := self primSize) - 1) + 1.
+   
+        [(element := self primAt: index) isNil
+            ifTrue: [^index].
+        index == size ifTrue: [index := 1] ifFalse: [index := index + 1]]
+                repeat
+    ]
+
     findIndex: anObject [
 	"Tries to see if anObject exists as an indexed variable. As soon as nil
 	 or anObject is found, the index of that slot is answered"
-- 
2.43.0


From 6bd0acb8314c57be96d6d6d3dc0ab0715d13c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:22 +0000
Subject: [PATCH 10/38] fix: weak sets and identity dictionaries looked up
 their elements with another hash than they stored them with

---
 kernel/WeakObjects.st | 69 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 58 insertions(+), 11 deletions(-)

diff --git a/kernel/WeakObjects.st b/kernel/WeakObjects.st
index 8342914..bb9020f 100644
--- a/kernel/WeakObjects.st
+++ b/kernel/WeakObjects.st
@@ -312,7 +312,7 @@ one of them, I swiftly remove all.'>
 	<category: 'private'>
 	| index size element |
 	"Sorry for the lack of readability, but I want speed... :-)"
-	index := (anObject identityHash scramble 
+	index := (anObject hash scramble 
 		    bitAnd: (size := self primSize) - 1) + 1.
 	
 	[((element := self primAt: index) isNil or: [element key = anObject]) 
@@ -495,28 +495,26 @@ for the garbage collected values'>
 	"Rehash the receiver"
 
 	<category: 'rehashing'>
-	| key val |
-	key := Array new: self primSize.
-	val := Array new: values size.
+	| keys vals |
+	keys := Array new: self primSize.
+	vals := Array new: self primSize.
 	self resetTally.
 	1 to: self primSize
 	    do: 
 		[:i | 
 		"Find values that are nil and should not be"
 
-		(key := self primAt: i) notNil 
+		((self primAt: i) notNil and: [values isAlive: i]) 
 		    ifTrue: 
-			[(values isAlive: i) 
-			    ifTrue: 
-				[key at: i put: (self primAt: i).
-				val at: i put: (self valueAt: i)]].
+			[keys at: i put: (self primAt: i).
+			vals at: i put: (self valueAt: i)].
 		self primAt: i put: nil.
 		self valueAt: i put: nil].
 	1 to: self primSize
 	    do: 
 		[:i | 
-		(key at: i) isNil 
-		    ifFalse: [self whileGrowingAt: (key at: i) put: (val at: i)]]
+		(keys at: i) isNil 
+		    ifFalse: [self whileGrowingAt: (keys at: i) put: (vals at: i)]]
     ]
 
     findElementIndex: anObject [
@@ -566,6 +564,22 @@ encounter one of them, I swiftly remove all the garbage collected keys'>
 	^self includes: anObject
     ]
 
+    findElementIndex: anObject [
+        "Tries to see where anObject can be placed as an indexed variable.
+	 As soon as nil is found, the index of that slot is answered.
+	 anObject also comes from an indexed variable."
+
+        <category: 'private methods'>
+        | index size element |
+        "Sorry for the lack of readability, but I want speed... :-)"
+        index := (anObject key identityHash scramble bitAnd: (size := self primSize) - 1) + 1.
+   
+        [(element := self primAt: index) isNil
+            ifTrue: [^index].
+        index == size ifTrue: [index := 1] ifFalse: [index := index + 1]]
+                repeat
+    ]
+
     findIndex: anObject [
 	"Tries to see if anObject exists as an indexed variable. As soon as nil
 	 or anObject is found, the index of that slot is answered"
@@ -609,6 +623,22 @@ for the garbage collected keys'>
 	^anObject identityHash
     ]
 
+    findElementIndex: anObject [
+        "Tries to see where anObject can be placed as an indexed variable.
+	 As soon as nil is found, the index of that slot is answered.
+	 anObject also comes from an indexed variable."
+
+        <category: 'private methods'>
+        | index size element |
+        "Sorry for the lack of readability, but I want speed... :-)"
+        index := (anObject key identityHash scramble bitAnd: (size := self primSize) - 1) + 1.
+   
+        [(element := self primAt: index) isNil
+            ifTrue: [^index].
+        index == size ifTrue: [index := 1] ifFalse: [index := index + 1]]
+                repeat
+    ]
+
     findIndex: anObject [
 	"Tries to see if anObject exists as an indexed variable. As soon as nil
 	 or anObject is found, the index of that slot is answered"
@@ -652,6 +682,23 @@ for the garbage collected values'>
 	^anObject identityHash
     ]
 
+    findElementIndex: anObject [
+        "Tries to see where anObject can be placed as an indexed variable.
+	 As soon as nil is found, the index of that slot is answered.
+	 anObject also comes from an indexed variable."
+
+        <category: 'private methods'>
+        | index size element |
+	self beConsistent.
+        "Sorry for the lack of readability, but I want speed... :-)"
+        index := (anObject identityHash scramble bitAnd: (size := self primSize) - 1) + 1.
+   
+        [(element := self primAt: index) isNil
+            ifTrue: [^index].
+        index == size ifTrue: [index := 1] ifFalse: [index := index + 1]]
+                repeat
+    ]
+
     findIndex: anObject [
 	"Tries to see if anObject exists as an indexed variable. As soon as nil
 	 or anObject is found, the index of that slot is answered"
-- 
2.43.0


From 3664a406bf1161d826502f2101d4883b6697d6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 11/38] fix: dropping an extended push before a pop left its
 extension bytes to the next bytecode

---
 libgst/opt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libgst/opt.c b/libgst/opt.c
index 32f01f6..e68b6bc 100644
--- a/libgst/opt.c
+++ b/libgst/opt.c
@@ -812,6 +812,9 @@ optimize_basic_block (gst_uchar *from,
           if (bp < to - 2
 	      && bp[2] == POP_STACK_TOP)
 	    {
+	      /* The extension bytes of the push go away with it.  */
+	      while (opt > from && opt[-2] == EXT_BYTE)
+		opt -= 2;
 	      bp += 4;
 	      continue;
 	    }
-- 
2.43.0


From f191e35ee6e85eee45408d75bbbc79e0b2f962a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:30 +0000
Subject: [PATCH 12/38] fix: the bytecode verifier rejected methods for the
 stack height of their dead code

---
 libgst/opt.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/libgst/opt.c b/libgst/opt.c
index e68b6bc..c55ee8b 100644
--- a/libgst/opt.c
+++ b/libgst/opt.c
@@ -1628,13 +1628,22 @@ _gst_verify_method (OOP methodOOP, int *num_outer_temps, int depth)
 	}
       while (!*bb_start);
 
-      if (!worklist && susp_head)
+      if (!worklist)
 	{
-	  worklist = susp_head;
-	  susp_head = susp_head->next;
-	  worklist->next = NULL;
-	  if (!susp_head)
-	    susp_tail = &susp_head;
+	  /* Blocks that are still suspended have not been reached (yet):
+	     their stack height is unknown, and meaningless for dead code.  */
+	  basic_block_item **p_bb = &susp_head;
+	  while (*p_bb && (*p_bb)->suspended)
+	    p_bb = &(*p_bb)->next;
+
+	  if (*p_bb)
+	    {
+	      worklist = *p_bb;
+	      *p_bb = worklist->next;
+	      if (!*p_bb)
+	        susp_tail = p_bb;
+	      worklist->next = NULL;
+	    }
 	}
 
 #ifdef DEBUG_VERIFIER
-- 
2.43.0


From 897075abba8d8579ae4ea97ffcadcfba21095d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:37 +0000
Subject: [PATCH 13/38] fix: a return that crossed unwind contexts into a
 method being unwound skipped the next ensure block

---
 libgst/interp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/interp.c b/libgst/interp.c
index ab67daf..cf7fef2 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -1255,9 +1255,9 @@ disable_non_unwind_contexts (OOP returnContextOOP)
          that for block contexts too, we skip a test and are also
          able to garbage collect more context objects.  */
       oldContext->parentContext = _gst_nil_oop;
+      *chain = newContextOOP;
     }
 
-  *chain = newContext->parentContext;
   return (true);
 }
 
-- 
2.43.0


From 683f936ba372fbdbcdb07e79c8310f4a46fdc0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:58 +0000
Subject: [PATCH 14/38] fix: Exception>>outer and #pass came back when the
 outer handler did not resume

---
 kernel/ExcHandling.st | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/kernel/ExcHandling.st b/kernel/ExcHandling.st
index 5cc65dc..c888607 100644
--- a/kernel/ExcHandling.st
+++ b/kernel/ExcHandling.st
@@ -368,7 +368,7 @@ handler with a lower priority.'>
 	signal := self copy.
 	signal isNested: true.
         signal instantiateNextHandlerFrom: self context.
-        ^signal activateHandler: true
+        ^signal activateOuterHandler
     ]
 
     pass [
@@ -382,7 +382,7 @@ handler with a lower priority.'>
 	signal := self copy.
 	signal isNested: true.
         signal instantiateNextHandlerFrom: self context.
-        ^self return: (signal activateHandler: true)
+        ^self return: signal activateOuterHandler
     ]
 
     resignalAsUnhandled: message [
@@ -520,6 +520,16 @@ handler with a lower priority.'>
 	context parentContext continue: result
     ]
 
+    activateOuterHandler [
+	"Private - Like #activateHandler:.  A handler that falls off the end
+	 leaves its own #on:do:, it does not return to the handler that
+	 passed the exception to it; a default action does return."
+
+	<category: 'private'>
+	<exceptionHandlingInternal: true>
+	^self activateHandler: onDoBlock isNil
+    ]
+
     isNested: aBoolean [
 	"Set the receiver's isNested instance variable."
 
-- 
2.43.0


From 97371d43655e9de973bf7d32b2a1cff65c88af1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:41 +0000
Subject: [PATCH 15/38] fix: returning from an exception handler made the
 handlers that were still running further out visible again

---
 kernel/ExcHandling.st | 2 --
 1 file changed, 2 deletions(-)

diff --git a/kernel/ExcHandling.st b/kernel/ExcHandling.st
index c888607..5878c01 100644
--- a/kernel/ExcHandling.st
+++ b/kernel/ExcHandling.st
@@ -486,7 +486,6 @@ handler with a lower priority.'>
 	<category: 'exception handling'>
 	context isNil 
 	    ifTrue: [self resignalAsUnhandled: 'No exception handler effective - #return failed'].
-	self class resetAllHandlers.
 	context parentContext continue: nil
     ]
 
@@ -496,7 +495,6 @@ handler with a lower priority.'>
 	<category: 'exception handling'>
 	context isNil 
 	    ifTrue: [self resignalAsUnhandled: 'No exception handler effective - #return: failed'].
-	self class resetAllHandlers.
 	context parentContext continue: anObject
     ]
 
-- 
2.43.0


From 19577ec5acf1ffbd50341376091b464937dd5c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:04 +0000
Subject: [PATCH 16/38] fix: ephemerons with small integer keys, or keys
 reachable only through ephemerons

The global collector dereferenced the key of an ephemeron without checking
that it is a pointer, so that a WeakSet or WeakKeyDictionary with a
SmallInteger in it crashed the next collection.  An ephemeron whose key was
also referred to by its own value, or by another dead ephemeron, was never
mourned.
---
 libgst/oop.c | 83 ++++++++++++++++++++++++----------------------------
 1 file changed, 38 insertions(+), 45 deletions(-)

diff --git a/libgst/oop.c b/libgst/oop.c
index 71e837a..432d48a 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -2104,62 +2104,55 @@ mark_oops (void)
 void
 mark_ephemeron_oops (void)
 {
-  OOP *pOOP, *pDeadOOP, *base;
-  int i, size;
+  OOP *list = NULL;
+  int i, j, n = 0;
+  mst_Boolean progress;
 
-  /* Make a local copy of the buffer */
-  size = _gst_buffer_size ();
-  base = alloca (size);
-  _gst_copy_buffer (base);
-  _gst_reset_buffer ();
-  size /= sizeof (PTR);
-
-  /* First pass: distinguish objects whose key was reachable from
-     the outside by clearing their F_EPHEMERON bit.  */
-  for (pOOP = base, i = size; i--; pOOP++)
+  /* First pass: the contents of an ephemeron are reachable if its key is
+     reachable from the outside.  This can make other keys reachable, and
+     find other ephemerons, so go on until nothing changes.  */
+  do
     {
-      OOP oop = *pOOP;
-      gst_object obj = OOP_TO_OBJ(oop);
-      OOP key = obj->data[0];
-
-      if (key->flags & F_REACHABLE)
-        oop->flags &= ~F_EPHEMERON;
+      int found = _gst_buffer_size () / sizeof (OOP);
+      if (found)
+	{
+	  list = (OOP *) xrealloc (list, (n + found) * sizeof (OOP));
+	  _gst_copy_buffer (list + n);
+	  _gst_reset_buffer ();
+	  n += found;
+	}
 
-      key->flags |= F_REACHABLE;
+      progress = false;
+      for (i = j = 0; i < n; i++)
+	{
+	  gst_object obj = OOP_TO_OBJ (list[i]);
+	  OOP key = obj->data[0];
+	  if (IS_INT (key) || IS_OOP_MARKED (key))
+	    {
+	      _gst_mark_oop_range (obj->data + 1, obj->data + NUM_OOPS (obj));
+	      progress = true;
+	    }
+	  else
+	    list[j++] = list[i];
+	}
+      n = j;
     }
+  while (progress || _gst_buffer_size ());
 
-  for (pOOP = pDeadOOP = base, i = size; i--; )
+  /* What is left are the ephemerons to be mourned.  Mark what they refer
+     to, including the key.  */
+  for (i = 0; i < n; i++)
     {
-      OOP oop = *pOOP++;
-      gst_object obj = OOP_TO_OBJ(oop);
-      OOP key = obj->data[0];
-      int num = NUM_OOPS(obj);
-      int j;
-
-      /* Find if the key is reachable from the objects (so that
-         we can mourn the ephemeron if this is not so).  */
-      key->flags &= ~F_REACHABLE;
-
-      for (j = 1; j < num; j++)
-        MAYBE_MARK_OOP (obj->data[j]);
-
-      /* Remember that above we cleared F_EPHEMERON if the key
-         is alive.  */
-      if (!IS_OOP_MARKED (key) && (oop->flags & F_EPHEMERON))
-        *pDeadOOP++ = oop;
-
-      /* Ok, now mark the key.  */
-      MAYBE_MARK_OOP (key);
-
-      /* Restore the flag in case it was cleared.  */
-      oop->flags |= F_EPHEMERON;
+      gst_object obj = OOP_TO_OBJ (list[i]);
+      _gst_mark_oop_range (obj->data, obj->data + NUM_OOPS (obj));
     }
 
-  /* If more ephemerons were reachable from the object, go on...  */
+  /* If more ephemerons were reachable from the objects, go on...  */
   if (_gst_buffer_size ())
     mark_ephemeron_oops ();
 
-  _gst_add_buf_data (base, (char *) pDeadOOP - (char *) base);
+  _gst_add_buf_data (list, n * sizeof (OOP));
+  xfree (list);
 }
 
 #define TAIL_MARK_OOP(newOOP) do { \
-- 
2.43.0


From 129d7e67085c7ca4eaa946443b3cf5fc078164bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:19 +0000
Subject: [PATCH 17/38] fix: returning from a handler must reset the handlers
 being left, and only those

---
 kernel/ExcHandling.st | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/kernel/ExcHandling.st b/kernel/ExcHandling.st
index 5878c01..30a3df5 100644
--- a/kernel/ExcHandling.st
+++ b/kernel/ExcHandling.st
@@ -132,6 +132,17 @@ handler with a lower priority.'>
            do: [:context :attr | (attr arguments at: 2) value: context]
     ]
 
+    Exception class >> resetHandlersUpTo: aContext [
+       "Private, class - Reset the handlers that were installed by aContext
+        and by the contexts that it called; these are being left."
+
+       <category: 'private'>
+       thisContext scanBacktraceForAttribute: #exceptionHandlerSearch:reset:
+           do: [:context :attr | 
+               (attr arguments at: 2) value: context.
+               context == aContext ifTrue: [^self]]
+    ]
+
     Exception class >> new [
         "Create an instance of the receiver, which you will be able to
          signal later."
@@ -486,6 +497,7 @@ handler with a lower priority.'>
 	<category: 'exception handling'>
 	context isNil 
 	    ifTrue: [self resignalAsUnhandled: 'No exception handler effective - #return failed'].
+	self class resetHandlersUpTo: context.
 	context parentContext continue: nil
     ]
 
@@ -495,6 +507,7 @@ handler with a lower priority.'>
 	<category: 'exception handling'>
 	context isNil 
 	    ifTrue: [self resignalAsUnhandled: 'No exception handler effective - #return: failed'].
+	self class resetHandlersUpTo: context.
 	context parentContext continue: anObject
     ]
 
-- 
2.43.0


From c04e1046e786e9e418169c3e2e82ea7357767b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:29 +0000
Subject: [PATCH 18/38] fix: the inline cache of #at:put: wrote into read-only
 objects

---
 libgst/vm.def | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libgst/vm.def b/libgst/vm.def
index 7d48bdf..78524ce 100644
--- a/libgst/vm.def
+++ b/libgst/vm.def
@@ -485,6 +485,7 @@ operation AT_PUT_SPECIAL ( rec idx val -- res ) {
     }
 
   if COMMON (at_put_cache_class == (classOOP = OOP_CLASS (rec))
+             && !IS_OOP_READONLY (rec)
              && !cached_index_oop_put_primitive (rec, idx, val, at_put_cache_spec))
     {
       IMPORT_REGS ();
-- 
2.43.0


From fd6ec35557a8fdbff4009585a035d628da046aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:31 +0000
Subject: [PATCH 19/38] fix: objects are registered for finalization by
 identity

Of two equal objects only one was finalized, and an object whose hash changed,
or that refers to itself, could not be unregistered.
---
 kernel/Collection.st |  2 +-
 kernel/Object.st     | 14 +++-----------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/kernel/Collection.st b/kernel/Collection.st
index 6264236..79bdb2c 100644
--- a/kernel/Collection.st
+++ b/kernel/Collection.st
@@ -645,6 +645,6 @@ of objects.'>
 
 	<category: 'finalization'>
 	self remove: anObject ifAbsent: [].
-	self == Object finalizableObjects ifTrue: [anObject key finalize]
+	self == Object finalizableObjects ifTrue: [anObject finalize]
     ]
 ]
diff --git a/kernel/Object.st b/kernel/Object.st
index b5179ed..173f08d 100644
--- a/kernel/Object.st
+++ b/kernel/Object.st
@@ -79,7 +79,7 @@ All classes in the system are subclasses of me.'>
 	"Answer a set of finalizable objects."
 
 	<category: 'initialization'>
-	FinalizableObjects isNil ifTrue: [FinalizableObjects := Set new].
+	FinalizableObjects isNil ifTrue: [FinalizableObjects := WeakIdentitySet new].
 	^FinalizableObjects
     ]
 
@@ -357,12 +357,7 @@ All classes in the system are subclasses of me.'>
 	 collector finds out there are only weak references to it."
 
 	<category: 'finalization'>
-	self class finalSemaphore critical: [ self class finalizableObjects add: ((HomedAssociation 
-		    key: self
-		    value: nil
-		    environment: FinalizableObjects)
-		    makeEphemeron;
-		    yourself) ]
+	self class finalSemaphore critical: [ self class finalizableObjects add: self ]
     ]
 
     removeToBeFinalized [
@@ -370,10 +365,7 @@ All classes in the system are subclasses of me.'>
 	 when the garbage collector finds out there are only weak references to it."
 
 	<category: 'finalization'>
-	self class finalSemaphore critical: [ self class finalizableObjects remove: (HomedAssociation 
-		    key: self
-		    value: nil
-		    environment: self class finalizableObjects)
+	self class finalSemaphore critical: [ self class finalizableObjects remove: self
 	    ifAbsent: [] ]
     ]
 
-- 
2.43.0


From 3c69ca8a21e89248f95e5b8c95a939da7064a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:00 +0000
Subject: [PATCH 20/38] fix: become: lost the weakness of weak objects

---
 libgst/oop.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libgst/oop.c b/libgst/oop.c
index 432d48a..26873d7 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -664,15 +664,20 @@ _gst_swap_objects (OOP oop1,
 {
   struct oop_s tempOOP;
   inc_ptr incPtr;
+  mst_Boolean weak1, weak2;
 
   incPtr = INC_SAVE_POINTER ();
   INC_ADD_OOP (oop1);
   INC_ADD_OOP (oop2);
 
-  if (oop2->flags & F_WEAK)
+  /* _gst_make_oop_non_weak clears the flag, so remember it.  */
+  weak1 = (oop1->flags & F_WEAK) != 0;
+  weak2 = (oop2->flags & F_WEAK) != 0;
+
+  if (weak2)
     _gst_make_oop_non_weak (oop2);
 
-  if (oop1->flags & F_WEAK)
+  if (weak1)
     _gst_make_oop_non_weak (oop1);
 
   /* Put the two objects in the same generation.  FIXME: this can be
@@ -705,10 +710,10 @@ _gst_swap_objects (OOP oop1,
       oop2->flags ^= F_REACHABLE;
     }
 
-  if (oop2->flags & F_WEAK)
+  if (weak1)
     _gst_make_oop_weak (oop2);
 
-  if (oop1->flags & F_WEAK)
+  if (weak2)
     _gst_make_oop_weak (oop1);
 
   INC_RESTORE_POINTER (incPtr);
-- 
2.43.0


From ca7e1aa7cc0c2e93ce05f6b77994076092c27ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:49 +0000
Subject: [PATCH 21/38] fix: a scavenge mourned ephemerons whose key was
 reachable through another ephemeron

---
 libgst/oop.c | 84 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 29 deletions(-)

diff --git a/libgst/oop.c b/libgst/oop.c
index 26873d7..6b73886 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -1893,49 +1893,75 @@ scan_grey_pages ()
 void
 scan_grey_objects()
 {
-  grey_area_node *node, *next;
+  grey_area_node *node, *waiting, **last;
   OOP oop;
   gst_object obj;
+  mst_Boolean progress;
 
-  for (next = _gst_mem.grey_areas.head; (node = next); )
+  /* The contents of an ephemeron are scanned if its key was copied.  This can
+     copy the keys of other ephemerons and grey more areas, so go on until
+     nothing changes; what is left are the ephemerons to be mourned.  */
+  do
     {
-      oop = node->oop;
-      obj = OOP_TO_OBJ (oop);
+      progress = false;
+      waiting = NULL;
+      last = &waiting;
+      while ((node = _gst_mem.grey_areas.head))
+	{
+	  _gst_mem.grey_areas.head = node->next;
+	  if (!node->next)
+	    _gst_mem.grey_areas.tail = NULL;
 
-      if (oop->flags & F_EPHEMERON)
-	/* Objects might have moved, so update node->base.  */
-	node->base = (OOP *) &obj->data[1];
+	  oop = node->oop;
+	  obj = OOP_TO_OBJ (oop);
+
+	  if (oop->flags & F_EPHEMERON)
+	    {
+	      OOP key = obj->data[0];
+	      if (!IS_OOP_COPIED (key))
+		{
+		  node->next = NULL;
+		  *last = node;
+		  last = &node->next;
+		  continue;
+		}
+
+	      /* Objects might have moved, so update node->base.  */
+	      node->base = (OOP *) &obj->data[1];
+	    }
 
 #if defined(GC_DEBUG_OUTPUT)
-      printf ("Scanning grey range %p...%p (%p)\n", node->base, node->base + node->n, oop);
+	  printf ("Scanning grey range %p...%p (%p)\n", node->base, node->base + node->n, oop);
 #endif
 
-      _gst_copy_oop_range (node->base, node->base + node->n);
-
-      if (oop->flags & F_EPHEMERON)
-        {
-	  OOP key = obj->data[0];
-
-	  /* Copy the key, mourn the object if it was not reachable.  */
-	  if (!IS_OOP_COPIED (key))
-	    {
-	      _gst_copy_an_oop (key);
-              _gst_add_buf_pointer (oop);
-	    }
+	  _gst_copy_oop_range (node->base, node->base + node->n);
+	  xfree (node);
+	  cheney_scan ();
+	  progress = true;
 	}
 
-      _gst_mem.grey_areas.head = next = node->next;
-      xfree (node);
-      if (!next)
-        _gst_mem.grey_areas.tail = NULL;
+      if (progress)
+	{
+	  _gst_mem.grey_areas.head = waiting;
+	  for (node = waiting; node; node = node->next)
+	    _gst_mem.grey_areas.tail = node;
+	  continue;
+	}
 
-      cheney_scan ();
+      /* Mourn what is left, but keep alive what it refers to.  */
+      for (node = waiting; node; node = waiting)
+	{
+	  waiting = node->next;
+	  oop = node->oop;
+	  xfree (node);
 
-      /* The scan might have greyed more areas.  */
-      if (!next)
-        next = _gst_mem.grey_areas.head;
+	  _gst_add_buf_pointer (oop);
+	  obj = OOP_TO_OBJ (oop);
+	  _gst_copy_oop_range (obj->data, obj->data + NUM_OOPS (obj));
+	  cheney_scan ();
+	}
     }
-
+  while (_gst_mem.grey_areas.head);
 }
 
 int
-- 
2.43.0


From bc3ea739ac6d4aeb7b58efa92687c85f9fce4fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:52 +0000
Subject: [PATCH 22/38] fix: equal UnicodeCharacters answer the same hash

---
 kernel/UniChar.st | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kernel/UniChar.st b/kernel/UniChar.st
index 0b48eed..800aded 100644
--- a/kernel/UniChar.st
+++ b/kernel/UniChar.st
@@ -62,6 +62,14 @@ or with Character class>>#codePoint:.'>
 		    and: 1114111]
     ]
 
+    hash [
+	"Answer an hash value for the receiver; equal characters need not
+	 be identical."
+
+	<category: 'comparing'>
+	^self codePoint
+    ]
+
     * aNumber [
 	"Returns a String with aNumber occurrences of the receiver."
 
-- 
2.43.0


From ed0bdd2bbfe2b5742cf39004cf45089430d8ef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:38 +0000
Subject: [PATCH 23/38] fix: truncation and floor of floats just above the
 largest SmallInteger, and of FloatQs

---
 libgst/prims.def | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 1c3fbb5..573188c 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -1535,7 +1535,8 @@ primitive VMpr_FloatD_truncated [succeed,fail]
   if COMMON (RECEIVER_IS_CLASS (oop1, _gst_floatd_class))
     {
       double oopValue = FLOATD_OOP_VALUE (oop1);
-      if COMMON (oopValue >= MIN_ST_INT && oopValue <= MAX_ST_INT)
+      /* MAX_ST_INT need not be representable.  */
+      if COMMON (oopValue >= MIN_ST_INT && oopValue < -(double) MIN_ST_INT)
 	{
 	  PUSH_INT (lrint (trunc (oopValue)));
 	  PRIM_SUCCEEDED;
@@ -1731,7 +1732,7 @@ primitive VMpr_FloatE_truncated [succeed,fail]
   if COMMON (RECEIVER_IS_CLASS (oop1, _gst_floate_class))
     {
       double oopValue = FLOATE_OOP_VALUE (oop1);
-      if COMMON (oopValue >= MIN_ST_INT && oopValue <= MAX_ST_INT)
+      if COMMON (oopValue >= MIN_ST_INT && oopValue < -(double) MIN_ST_INT)
 	{
 	  PUSH_INT (lrintf (truncf (oopValue)));
 	  PRIM_SUCCEEDED;
@@ -4596,16 +4597,16 @@ primitive VMpr_Float_ceil_floor :
      prim_id VMpr_Float_floor [succeed,fail]
 {
   OOP oop1;
-  double farg1;
+  long double farg1;
   _gst_primitives_executed++;
 
   oop1 = STACKTOP ();
   if (IS_CLASS (oop1, _gst_floatd_class))
     farg1 = FLOATD_OOP_VALUE (oop1);
   else if (IS_CLASS (oop1, _gst_floate_class))
-    farg1 = (double) FLOATE_OOP_VALUE (oop1);
+    farg1 = FLOATE_OOP_VALUE (oop1);
   else if (IS_CLASS (oop1, _gst_floatq_class))
-    farg1 = (double) FLOATQ_OOP_VALUE (oop1);
+    farg1 = FLOATQ_OOP_VALUE (oop1);
   else
     PRIM_FAILED;
 
@@ -4614,10 +4615,10 @@ primitive VMpr_Float_ceil_floor :
       switch (id)
         {
         case prim_id (VMpr_Float_ceil):
-          SET_STACKTOP_INT ((intptr_t) ceil (farg1));
+          SET_STACKTOP_INT ((intptr_t) ceill (farg1));
           PRIM_SUCCEEDED;
         case prim_id (VMpr_Float_floor):
-          SET_STACKTOP_INT ((intptr_t) floor (farg1));
+          SET_STACKTOP_INT ((intptr_t) floorl (farg1));
           PRIM_SUCCEEDED;
         }
     }
-- 
2.43.0


From 93eeb506a75c7c240fb3255c6a8dab3b7bd9d61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:38 +0000
Subject: [PATCH 24/38] fix: equal floats of different classes answer the same
 hash

---
 kernel/Float.st | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/Float.st b/kernel/Float.st
index 3714f08..ea329fd 100644
--- a/kernel/Float.st
+++ b/kernel/Float.st
@@ -123,7 +123,8 @@ if the hardware supports it.'>
 	"Answer an hash value for the receiver.  Not-a-number values do not
 	 have a hash code and cannot be put in a hashed collection."
 
-	"Hack so that 2 hash = 2.0 hash"
+	"Hack so that 2 hash = 2.0 hash, and so that equal floats of different
+	 classes have the same hash"
 
 	<category: 'basic'>
 	self = self ifFalse: [
@@ -133,7 +134,7 @@ if the hardware supports it.'>
 
 	^self fractionPart = 0.0 
 	    ifTrue: [self asInteger hash]
-	    ifFalse: [self primHash]
+	    ifFalse: [self asFloatD primHash]
     ]
 
     negated [
-- 
2.43.0


From 46bcefa232f2c7f991c5c4f1f87f688d786fa46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:38 +0000
Subject: [PATCH 25/38] fix: equal DateTimes of different offsets answer the
 same hash

---
 kernel/AnsiDates.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/AnsiDates.st b/kernel/AnsiDates.st
index 9c72cdb..796287f 100644
--- a/kernel/AnsiDates.st
+++ b/kernel/AnsiDates.st
@@ -230,7 +230,7 @@ Date subclass: DateTime [
 	"Answer an hash value for the receievr"
 
 	<category: 'testing'>
-	^super hash * 37 + (self seconds - self offset seconds)
+	^(self days * 86400 + seconds - self offset asSeconds) hash
     ]
 
     + aDuration [
-- 
2.43.0


From a5b69ad4a974b3206ea196382f7c87ceb15b4d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:01 +0000
Subject: [PATCH 26/38] fix: a failed or interrupted save destroyed the image
 it was to replace

---
 libgst/save.c | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/libgst/save.c b/libgst/save.c
index be980a7..99739e8 100644
--- a/libgst/save.c
+++ b/libgst/save.c
@@ -278,15 +278,24 @@ _gst_save_to_file (const char *fileName)
 {
   int imageFd;
   int save_errno;
-  mst_Boolean success;
+  volatile mst_Boolean success, replace;
+  char *tempName;
 
   _gst_invoke_hook (GST_ABOUT_TO_SNAPSHOT);
   _gst_global_gc (0);
   _gst_finish_incremental_gc ();
 
+  /* Write to another file and rename it when it is complete, so that whatever
+     happens while saving does not destroy an image that is already there.
+     If a file cannot be created there, just write over the image.  */
   success = false;
-  unlink (fileName);
-  imageFd = _gst_open_file (fileName, "w");
+  tempName = xmalloc (strlen (fileName) + 32);
+  sprintf (tempName, "%s.%ld.tmp", fileName, (long) getpid ());
+  imageFd = _gst_open_file (tempName, "w");
+  replace = imageFd >= 0;
+  if (!replace && (errno == EACCES || errno == EPERM || errno == ENAMETOOLONG))
+    imageFd = _gst_open_file (fileName, "w");
+
   if (imageFd >= 0)
     {
       if (setjmp(save_jmpbuf) == 0)
@@ -296,9 +305,26 @@ _gst_save_to_file (const char *fileName)
         }
 
       save_errno = errno;
-      close (imageFd);
+      if (close (imageFd) == -1 && success)
+        {
+          save_errno = errno;
+          success = false;
+        }
+
+      if (success && replace)
+        {
+#ifdef WIN32
+          unlink (fileName);
+#endif
+          if (rename (tempName, fileName) == -1)
+            {
+              save_errno = errno;
+              success = false;
+            }
+        }
+
       if (!success)
-        unlink (fileName);
+        unlink (replace ? tempName : fileName);
       if (myOOPTable)
         xfree (myOOPTable);
       myOOPTable = NULL;
@@ -306,6 +332,7 @@ _gst_save_to_file (const char *fileName)
   else
     save_errno = errno;
 
+  xfree (tempName);
   _gst_invoke_hook (GST_FINISHED_SNAPSHOT);
   errno = save_errno;
   return success;
-- 
2.43.0


From 59e0ae71969ba8ebcd9ca470a0a385e6c7fd16d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:32 +0000
Subject: [PATCH 27/38] fix: // and \\\\ of large integers with different signs
 were wrong for exact divisions

---
 libgst/mpz.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libgst/mpz.c b/libgst/mpz.c
index 769525f..8b92d95 100644
--- a/libgst/mpz.c
+++ b/libgst/mpz.c
@@ -640,6 +640,12 @@ _gst_mpz_fdiv_qr (gst_mpz *quot, gst_mpz *rem,
 	}
 
       _gst_mpz_tdiv_qr (quot, rem, dividend, divisor);
+
+      /* The remainder is not normalized, it can be zero even if its
+	 size is not.  */
+      while (rem->size != 0 && rem->d[ABS (rem->size) - 1] == 0)
+	rem->size -= rem->size > 0 ? 1 : -1;
+
       if (rem->size != 0)
 	{
 	  gst_mpz_sub_ui (quot, quot, 1);
-- 
2.43.0


From 7325dfc0c182cb210a9718115fd46deb1a331905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:32 +0000
Subject: [PATCH 28/38] fix: bitShift: to the right truncated negative large
 integers

---
 libgst/mpz.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libgst/mpz.c b/libgst/mpz.c
index 8b92d95..fb695ce 100644
--- a/libgst/mpz.c
+++ b/libgst/mpz.c
@@ -307,6 +307,18 @@ _gst_mpz_div_2exp (gst_mpz *w, const gst_mpz *u, unsigned cnt)
   mp_size_t abs_usize = ABS (usize);
   mp_size_t limb_cnt;
 
+  if (usize < 0)
+    {
+      /* Shifting a negative number rounds towards negative infinity,
+	 that is u >> cnt = ~(~u >> cnt) and ~u is not negative.  */
+      gst_mpz tmp = { 0, 0, NULL };
+      _gst_mpz_com (&tmp, u);
+      _gst_mpz_div_2exp (&tmp, &tmp, cnt);
+      _gst_mpz_com (w, &tmp);
+      _gst_mpz_clear (&tmp);
+      return;
+    }
+
   limb_cnt = cnt / BITS_PER_MP_LIMB;
   wsize = abs_usize - limb_cnt;
   if (wsize <= 0)
-- 
2.43.0


From 47b6142a67a801fd6924c72664ff0b19deb370ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:32 +0000
Subject: [PATCH 29/38] fix: gcd: with zero could answer a negative number

---
 libgst/prims.def | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 573188c..eb61d49 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -1337,8 +1337,12 @@ primitive VMpr_LargeInteger_gcd [uses_gmp]
   if (oop1 == FROM_INT(0) || oop2 == FROM_INT(0)
       || (IS_OOP(oop1) && OOP_CLASS (oop1) == _gst_large_zero_integer_class)
       || (IS_OOP(oop2) && OOP_CLASS (oop2) == _gst_large_zero_integer_class))
-    /* Return the non-zero number between a and b */
-    _gst_mpz_add (&c, &a, &b);
+    {
+      /* Return the absolute value of the non-zero number between a and b */
+      _gst_mpz_add (&c, &a, &b);
+      if (c.size < 0)
+        c.size = -c.size;
+    }
   else
     _gst_mpz_gcd (&c, &a, &b);
 
-- 
2.43.0


From b3668d468cdc5e58bf7bad1b823564fb52af167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:32 +0000
Subject: [PATCH 30/38] fix: dividing the smallest SmallInteger by -1
 overflowed

---
 libgst/prims.def | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index eb61d49..1a1912e 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -198,7 +198,8 @@ primitive VMpr_SmallInteger_divide [succeed,fail]
       iarg2 *= result;
       if COMMON (iarg1 == iarg2)
 	{
-	  PUSH_INT (result);
+	  /* -2^62 / -1 is not a SmallInteger.  */
+	  PUSH_OOP (FROM_C_LONG (result));
 	  PRIM_SUCCEEDED;
 	}
     }
@@ -253,7 +254,7 @@ primitive VMpr_SmallInteger_intDiv [succeed,fail]
       if (iarg1 < 0)		/* differing signs => use black magic */
 	PUSH_INT (-((iarg2 - 1 - iarg1) / iarg2));
       else
-	PUSH_INT (iarg1 / iarg2);
+	PUSH_OOP (FROM_C_LONG (iarg1 / iarg2));
 
       PRIM_SUCCEEDED;
     }
@@ -278,7 +279,7 @@ primitive VMpr_SmallInteger_quo [succeed,fail]
       iarg2 = TO_INT (oop2);
       if COMMON (iarg2 != 0)
 	{
-	  PUSH_INT (iarg1 / iarg2);
+	  PUSH_OOP (FROM_C_LONG (iarg1 / iarg2));
 	  PRIM_SUCCEEDED;
 	}
     }
-- 
2.43.0


From 6d2d6ebf21e49ab5e036a5d578edb74651ca672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:32 +0000
Subject: [PATCH 31/38] fix: large negative literals with a radix lost bits

---
 libgst/lex.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libgst/lex.c b/libgst/lex.c
index c16409b..4fe7552 100644
--- a/libgst/lex.c
+++ b/libgst/lex.c
@@ -962,8 +962,7 @@ scan_digits (int c,
 	  obstack_1grow (_gst_compilation_obstack, digit_to_int (c, base));
 	  if (result >
 	      (negative
-	       /* We want (uintptr_t) -MIN_ST_INT, but it's the same.  */
-	       ? (uintptr_t) MIN_ST_INT - value
+	       ? (uintptr_t) -MIN_ST_INT - value
 	       : (uintptr_t) MAX_ST_INT - value) / base)
 	    *largeInteger = true;
 	}
@@ -1013,8 +1012,7 @@ scan_fraction (int c,
 	  obstack_1grow (_gst_compilation_obstack, digit_to_int (c, base));
 	  if (intNum >
 	      (negative
-	       /* We want (uintptr_t) -MIN_ST_INT, but it's the same.  */
-	       ? (uintptr_t) MIN_ST_INT - value
+	       ? (uintptr_t) -MIN_ST_INT - value
 	       : (uintptr_t) MAX_ST_INT - value) / base)
 	    *largeInteger = true;
 	}
-- 
2.43.0


From a4e61bbe4f3dfafa6c4637e18710b670b2dfa222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:41 +0000
Subject: [PATCH 32/38] fix: quotients of large integers answered fractions
 with denominator 1 or a negative one

---
 kernel/LargeInt.st | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kernel/LargeInt.st b/kernel/LargeInt.st
index f8c5296..c5ef583 100644
--- a/kernel/LargeInt.st
+++ b/kernel/LargeInt.st
@@ -395,8 +395,7 @@ to speed them up a bit.'>
 	aNumber generality = self generality 
 	    ifFalse: [^self retryDivisionCoercing: aNumber].
 	gcd := self gcd: aNumber.
-	gcd = self 
-	    ifTrue: [^Fraction numerator: 1 denominator: (aNumber divExact: gcd)].
+	aNumber negative ifTrue: [gcd := gcd negated].
 	gcd = aNumber ifTrue: [^self divExact: gcd].
 	^Fraction numerator: (self divExact: gcd)
 	    denominator: (aNumber divExact: gcd)
-- 
2.43.0


From 256586fc5fc4b85c199f5485ac54833b8d860f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:41 +0000
Subject: [PATCH 33/38] fix: a large integer raised to 0 was not a SmallInteger

---
 kernel/LargeInt.st | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kernel/LargeInt.st b/kernel/LargeInt.st
index c5ef583..f8d260f 100644
--- a/kernel/LargeInt.st
+++ b/kernel/LargeInt.st
@@ -623,6 +623,7 @@ to speed them up a bit.'>
 
 	<category: 'accessing'>
 	| nbit |
+	n = 0 ifTrue: [^1].
 	nbit := 1.
 	[(self bitAt: nbit) = 0] whileTrue: [nbit := nbit + 1].
 	nbit = 1 ifTrue: [^super raisedToInteger: n].
-- 
2.43.0


From c6de989cc8128f9348866848e52fab3e94c2471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:41 +0000
Subject: [PATCH 34/38] fix: coercing large integers of more than 8 bytes
 truncated them

---
 kernel/LargeInt.st | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kernel/LargeInt.st b/kernel/LargeInt.st
index f8d260f..222398a 100644
--- a/kernel/LargeInt.st
+++ b/kernel/LargeInt.st
@@ -715,6 +715,7 @@ to speed them up a bit.'>
 
 	<category: 'coercion'>
 	aNumber = 0 ifTrue: [^Zero].
+	aNumber generality = self generality ifTrue: [^aNumber].
 	^aNumber isInteger 
 	    ifTrue: [self species fromInteger: aNumber]
 	    ifFalse: [self species fromInteger: aNumber truncated]
-- 
2.43.0


From e16b1e2e1a86a75f231a7135c96c4a8e3b0b333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:41 +0000
Subject: [PATCH 35/38] fix: arithmetic on fractions answered fractions with
 denominator 1

---
 kernel/Fraction.st | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/kernel/Fraction.st b/kernel/Fraction.st
index 7c97bbd..f5b719e 100644
--- a/kernel/Fraction.st
+++ b/kernel/Fraction.st
@@ -87,8 +87,8 @@ fraction.'>
 	| num den gcd |
 	aNumber generality = self generality 
 	    ifFalse: [^self retryMultiplicationCoercing: aNumber].
-	aNumber numerator = 0 ifTrue: [^aNumber].
-	self numerator = 0 ifTrue: [^self].
+	aNumber numerator = 0 ifTrue: [^0].
+	self numerator = 0 ifTrue: [^0].
 	num := numerator * aNumber numerator.
 	den := denominator * aNumber denominator.
 	aNumber == self 
@@ -111,9 +111,11 @@ fraction.'>
 	gcd := denominator gcd: aNumber denominator.
 	gcd == 1 
 	    ifTrue: 
-		[^Fraction numerator: numerator * aNumber denominator 
-			    + (aNumber numerator * denominator)
-		    denominator: denominator * aNumber denominator].
+		[num := numerator * aNumber denominator 
+			    + (aNumber numerator * denominator).
+		den := denominator * aNumber denominator.
+		den = 1 ifTrue: [^num].
+		^Fraction numerator: num denominator: den].
 	num := numerator * (aNumber denominator divExact: gcd) 
 		    + (aNumber numerator * (denominator divExact: gcd)).
 	den := denominator * aNumber denominator divExact: gcd.
@@ -136,9 +138,11 @@ fraction.'>
 	gcd := denominator gcd: aNumber denominator.
 	gcd == 1 
 	    ifTrue: 
-		[^Fraction numerator: numerator * aNumber denominator 
-			    - (aNumber numerator * denominator)
-		    denominator: denominator * aNumber denominator].
+		[num := numerator * aNumber denominator 
+			    - (aNumber numerator * denominator).
+		den := denominator * aNumber denominator.
+		den = 1 ifTrue: [^num].
+		^Fraction numerator: num denominator: den].
 	num := numerator * (aNumber denominator divExact: gcd) 
 		    - (aNumber numerator * (denominator divExact: gcd)).
 	den := denominator * aNumber denominator divExact: gcd.
@@ -159,11 +163,12 @@ fraction.'>
 	aNumber generality = self generality 
 	    ifFalse: [^self retryDivisionCoercing: aNumber].
 	aNumber numerator = 0 ifTrue: [^self zeroDivide].
-	self numerator = 0 ifTrue: [^self].
+	self numerator = 0 ifTrue: [^0].
 	num := numerator * aNumber denominator.
 	den := denominator * aNumber numerator.
 	gcd := (numerator gcd: aNumber numerator) 
 		    * (denominator gcd: aNumber denominator).
+	aNumber numerator negative ifTrue: [gcd := gcd negated].
 	num := num divExact: gcd.
 	den := den divExact: gcd.
 	den = 1 ifTrue: [^num].
@@ -514,10 +519,12 @@ fraction.'>
 	"Return the reciprocal of the receiver"
 
 	<category: 'optimized cases'>
-	denominator < 0 
+	numerator = 1 ifTrue: [^denominator].
+	numerator = -1 ifTrue: [^denominator negated].
+	^numerator < 0 
 	    ifTrue: 
-		[^Fraction numerator: denominator negated denominator: numerator negated]
-	    ifFalse: [^Fraction numerator: denominator denominator: numerator]
+		[Fraction numerator: denominator negated denominator: numerator negated]
+	    ifFalse: [Fraction numerator: denominator denominator: numerator]
     ]
 
     sqrt [
-- 
2.43.0


From e5d657f61b15b67fdaf6c1f923903d8a38d6e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:41 +0000
Subject: [PATCH 36/38] fix: ceilingLog: of an integer was one off

---
 kernel/Integer.st | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kernel/Integer.st b/kernel/Integer.st
index 54b9452..f785d39 100644
--- a/kernel/Integer.st
+++ b/kernel/Integer.st
@@ -345,9 +345,12 @@ efficiency.'>
 		    ifTrue: [^self arithmeticError: 'base of a logarithm cannot be 1'].
 		^(self floorLog: radix reciprocal) negated].
 	radix isInteger ifFalse: [^(radix coerce: self) ceilingLog: radix].
-	me := self.
-	answer := 1.
-	[me > radix] whileTrue: 
+
+	"For integers x > 0, the ceiling of the logarithm of x is one more
+	 than the floor of that of x - 1."
+	me := self - 1.
+	answer := 0.
+	[me > 0] whileTrue: 
 		[me := me // radix.
 		answer := answer + 1].
 	^answer
-- 
2.43.0


From 5edce7670a6f37f8df3a5fd7e1a7e242857bd22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:26 +0000
Subject: [PATCH 37/38] fix: some floats were printed as the text of another
 one

---
 kernel/Float.st | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/kernel/Float.st b/kernel/Float.st
index ea329fd..8fe7593 100644
--- a/kernel/Float.st
+++ b/kernel/Float.st
@@ -559,6 +559,19 @@ if the hardware supports it.'>
 	(adjust > 0 and: [allNines])
             ifTrue: [allNines := false. exponent := exponent + 1].
 
+	"If what was found so far would be read back as another number,
+	 more digits are needed.  Below a power of two the numbers are
+	 closer to each other."
+	num := me asExactFraction.
+	eps := 2 raisedToInteger: me exponent - me class precision + 1.
+	[weight := digits * prevWeight - num.
+	 weight abs * 2 < eps and: [weight > 0 or: [weight abs * 4 < eps
+		or: [num numerator ~= (1 bitShift: num numerator highBit - 1)]]]]
+	    whileFalse:
+		[prevWeight := prevWeight / 10.
+		digits := (num / prevWeight) rounded.
+		exponent := (digits * prevWeight floorLog: 10) + 1].
+
 	digits := digits printString.
 
 	"Print the non-significant zeros."
-- 
2.43.0


From 0ed7211b66f25f0f0887cbb6acaf19d547f9d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:26 +0000
Subject: [PATCH 38/38] fix: float literals were rounded twice

---
 libgst/lex.c  |  9 +++++++++
 libgst/real.c | 35 +++++++++++++++++++++++++++++++++++
 libgst/real.h |  4 ++++
 3 files changed, 48 insertions(+)

diff --git a/libgst/lex.c b/libgst/lex.c
index 4fe7552..8c24ed5 100644
--- a/libgst/lex.c
+++ b/libgst/lex.c
@@ -921,6 +921,15 @@ scan_number (int c,
 	  else
 	    _gst_real_mul (&num, &r);
 	}
+
+      /* Round only once, to the precision of the literal; numbers below
+	 the normal ones have less bits.  */
+      if (float_type == FLOATD_LITERAL)
+	_gst_real_round (&num, MIN (DBL_MANT_DIG,
+				    num.exp - DBL_MIN_EXP + 1 + DBL_MANT_DIG));
+      else if (float_type == FLOATE_LITERAL)
+	_gst_real_round (&num, MIN (FLT_MANT_DIG,
+				    num.exp - FLT_MIN_EXP + 1 + FLT_MANT_DIG));
       lvalp->fval = _gst_real_get_ld (&num);
       if (isNegative)
 	lvalp->fval = -lvalp->fval;
diff --git a/libgst/real.c b/libgst/real.c
index 461c579..8f816b4 100644
--- a/libgst/real.c
+++ b/libgst/real.c
@@ -516,6 +516,41 @@ _gst_real_inv (struct real *out, struct real *s)
 }
 
 
+void
+_gst_real_round (struct real *r, int bits)
+{
+  int drop = NUM_SIG_BITS - bits;
+  int i, half, sticky = 0;
+  unsigned int carry;
+
+  if (!r->sign || bits <= 0 || drop <= 0)
+    return;
+
+  half = (r->sig[(drop - 1) / SIG_ELEM_BITS] >> ((drop - 1) % SIG_ELEM_BITS)) & 1;
+  for (i = 0; i < drop - 1; i++)
+    sticky |= (r->sig[i / SIG_ELEM_BITS] >> (i % SIG_ELEM_BITS)) & 1;
+  for (i = 0; i < drop; i++)
+    r->sig[i / SIG_ELEM_BITS] &= ~(1 << (i % SIG_ELEM_BITS));
+
+  /* Round to nearest, ties to even.  */
+  i = drop / SIG_ELEM_BITS;
+  if (!half || (!sticky && !((r->sig[i] >> (drop % SIG_ELEM_BITS)) & 1)))
+    return;
+
+  for (carry = 1 << (drop % SIG_ELEM_BITS); carry && i < SIGSZ; i++)
+    {
+      carry += r->sig[i];
+      r->sig[i] = carry & SIG_MASK;
+      carry >>= SIG_ELEM_BITS;
+    }
+
+  if (carry)
+    {
+      r->sig[SIGSZ - 1] = SIG_MSB;
+      r->exp++;
+    }
+}
+
 long double
 _gst_real_get_ld (struct real *r)
 {
diff --git a/libgst/real.h b/libgst/real.h
index 588b658..8510ea5 100644
--- a/libgst/real.h
+++ b/libgst/real.h
@@ -98,6 +98,10 @@ extern void _gst_real_div (struct real *out, struct real *r, struct real *s)
 extern void _gst_real_inv (struct real *out, struct real *r)
   ATTRIBUTE_HIDDEN;
 
+/* Round R to BITS bits, to the nearest or the even one.  */
+extern void _gst_real_round (struct real *r, int bits)
+  ATTRIBUTE_HIDDEN;
+
 /* Convert R to a long double and return it.  */
 extern long double _gst_real_get_ld (struct real *r)
   ATTRIBUTE_HIDDEN;
-- 
2.43.0

