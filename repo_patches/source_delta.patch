From 9a46a2d874baf15518539a3cd9dd532d842130ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:34 +0000
Subject: [PATCH 01/53] fix: IntBinaryMap.insertWith(i) ignored the combining
 function

---
 smlnj-lib/Util/int-binary-map.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smlnj-lib/Util/int-binary-map.sml b/smlnj-lib/Util/int-binary-map.sml
index d718218..2525077 100644
--- a/smlnj-lib/Util/int-binary-map.sml
+++ b/smlnj-lib/Util/int-binary-map.sml
@@ -178,7 +178,7 @@ structure IntBinaryMap :> ORD_MAP where type Key.ord_key = Int.int =
 		else let
 		  val v' = comb(x, value, v)
 		  in
-		    T{key=x,value=v,left=left,right=right,cnt=cnt}
+		    T{key=x,value=v',left=left,right=right,cnt=cnt}
 		  end
 	  in
 	    insert m
-- 
2.43.0


From c29eac5d47cb85bb82f18a2971f87d85c67b1782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:34 +0000
Subject: [PATCH 02/53] fix: ListMapFn/IntListMap all and alli never returned
 true

---
 smlnj-lib/Util/int-list-map.sml | 4 ++--
 smlnj-lib/Util/list-map-fn.sml  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/smlnj-lib/Util/int-list-map.sml b/smlnj-lib/Util/int-list-map.sml
index 2ce7928..403e3a2 100644
--- a/smlnj-lib/Util/int-list-map.sml
+++ b/smlnj-lib/Util/int-list-map.sml
@@ -309,13 +309,13 @@ structure IntListMap :> ORD_MAP where type Key.ord_key = Int.int =
    * are checked in key order.
    *)
     fun all pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' ((_, x)::r) = pred x andalso all' r
 	  in
 	    all'
 	  end
     fun alli pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' (arg::r) = pred arg andalso all' r
 	  in
 	    all'
diff --git a/smlnj-lib/Util/list-map-fn.sml b/smlnj-lib/Util/list-map-fn.sml
index 62de987..b2540d2 100644
--- a/smlnj-lib/Util/list-map-fn.sml
+++ b/smlnj-lib/Util/list-map-fn.sml
@@ -316,13 +316,13 @@ functor ListMapFn (K : ORD_KEY) :> ORD_MAP where type Key.ord_key = K.ord_key =
    * are checked in key order.
    *)
     fun all pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' ((_, x)::r) = pred x andalso all' r
 	  in
 	    all'
 	  end
     fun alli pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' (arg::r) = pred arg andalso all' r
 	  in
 	    all'
-- 
2.43.0


From b2281016b7a3f2bfafe6b0d605166d4d49f191ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:34 +0000
Subject: [PATCH 03/53] fix: IntListMap.findAndRemove raised NotFound instead
 of returning NONE

---
 smlnj-lib/Util/int-list-map.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smlnj-lib/Util/int-list-map.sml b/smlnj-lib/Util/int-list-map.sml
index 403e3a2..da71dc5 100644
--- a/smlnj-lib/Util/int-list-map.sml
+++ b/smlnj-lib/Util/int-list-map.sml
@@ -103,7 +103,7 @@ structure IntListMap :> ORD_MAP where type Key.ord_key = Int.int =
 	  end
 
     fun findAndRemove (l, key) = let
-	  fun f (_, []) = raise LibBase.NotFound
+	  fun f (_, []) = NONE
 	    | f (prefix, (elem as (key', x)) :: r) =
                   if (key' < key) then f(elem :: prefix, r)
                   else if (key' = key) then SOME(List.revAppend(prefix, r), x)
-- 
2.43.0


From 42eabe68396d9cbffdf762cd99f1c1dbd64a2de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:52 +0000
Subject: [PATCH 04/53] fix: SplaySetFn exists and all did not check the items
 in key order

---
 smlnj-lib/Util/splay-set-fn.sml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smlnj-lib/Util/splay-set-fn.sml b/smlnj-lib/Util/splay-set-fn.sml
index c85386c..05723d8 100644
--- a/smlnj-lib/Util/splay-set-fn.sml
+++ b/smlnj-lib/Util/splay-set-fn.sml
@@ -409,7 +409,7 @@ functor SplaySetFn (K : ORD_KEY) :> ORD_SET where type Key.ord_key = K.ord_key =
     fun exists p EMPTY = false
       | exists p (SET{root,...}) = let
           fun ex SplayNil = false
-            | ex (SplayObj{value=v, left=l, right=r}) = p v orelse ex l orelse ex r
+            | ex (SplayObj{value=v, left=l, right=r}) = ex l orelse p v orelse ex r
           in
             ex (!root)
           end
@@ -417,7 +417,7 @@ functor SplaySetFn (K : ORD_KEY) :> ORD_SET where type Key.ord_key = K.ord_key =
     fun all p EMPTY = true
       | all p (SET{root,...}) = let
           fun all' SplayNil = true
-            | all' (SplayObj{value=v, left=l, right=r}) = p v andalso all' l andalso all' r
+            | all' (SplayObj{value=v, left=l, right=r}) = all' l andalso p v andalso all' r
           in
             all' (!root)
           end
-- 
2.43.0


From 65c90710112a3493c168d43530bdd907bd3a8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:22 +0000
Subject: [PATCH 05/53] fix: ML_CStringList must reserve space for the string
 headers and the large strings

---
 base/runtime/gc/ml-objects.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/base/runtime/gc/ml-objects.c b/base/runtime/gc/ml-objects.c
index 806c785..43f8ad1 100644
--- a/base/runtime/gc/ml-objects.c
+++ b/base/runtime/gc/ml-objects.c
@@ -79,23 +79,39 @@ ml_val_t ML_CStringList (ml_state_t *msp, char **strs)
 {
     int         i, j;
     ml_val_t    p, s;
-    Word_t      nbytes;
+    Word_t      nbytes, largeSzB;
 
     for (i = 0;  strs[i] != NIL(char *);  i++)
         continue;
 
     /* Make sure we have enough space to allocate the list */
     nbytes = i * (3 * WORD_SZB);
+    largeSzB = 0;
     for (j = 0;  j < i;  j++) {
         size_t len = strlen(strs[j]);
         Word_t nwords = BYTES_TO_WORDS(len + 1);
-        if (len > 0 && nwords <= SMALL_OBJ_SZW) {
-            nbytes += WORD_SZB * (nwords + 1); /* +1 for the descriptor word */
+        if (len > 0) {
+            nbytes += 3 * WORD_SZB; /* the string header */
+            if (nwords <= SMALL_OBJ_SZW)
+                nbytes += WORD_SZB * (nwords + 1); /* +1 for the descriptor word */
+            else
+                largeSzB += WORD_SZB * (nwords + 1);
         }
     }
     if (NeedGC (msp, nbytes)) {
         InvokeGC (msp, 0);
     }
+    if (largeSzB > 0) {
+      /* make room for the large strings now, since a GC below would not see
+       * the partially built list.
+       */
+        arena_t *ap = msp->ml_heap->gen[0]->arena[STRING_INDX];
+        if ((! isACTIVE(ap)) || (AVAIL_SPACE(ap) <= largeSzB+msp->ml_heap->allocSzB)) {
+            ap->reqSizeB += largeSzB;
+            InvokeGC (msp, 1);
+            ap->reqSizeB = 0;
+        }
+    }
 
     p = LIST_nil;
     while (i-- > 0) {
-- 
2.43.0


From 8b9446904d556228418aa900a6aa333af859c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:22 +0000
Subject: [PATCH 06/53] fix: ML_SysConstList must count the bytes, not the
 words, of a constant's name

---
 base/runtime/gc/ml-objects.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/runtime/gc/ml-objects.c b/base/runtime/gc/ml-objects.c
index 43f8ad1..a35da38 100644
--- a/base/runtime/gc/ml-objects.c
+++ b/base/runtime/gc/ml-objects.c
@@ -524,7 +524,8 @@ ml_val_t ML_SysConstList (ml_state_t *msp, sysconst_tbl_t *tbl)
       /* required space for string header+data (4 words + string bytes), pair (3 words),
        * cons (3 words).
        */
-        reqSpace = (4 + 3 + 3) * WORD_SZB + BYTES_TO_WORDS(strlen(tbl->consts[i].name) + 1);
+        reqSpace = WORD_SZB
+            * ((4 + 3 + 3) + BYTES_TO_WORDS(strlen(tbl->consts[i].name) + 1));
         if (reqSpace >= availSpace) {
             InvokeGCWithRoots (msp, 0, (ml_val_t *)&list, NIL(ml_val_t *));
             availSpace = ((size_t)msp->ml_limitPtr - (size_t)msp->ml_allocPtr);
-- 
2.43.0


From 2386a13c10c0e205ec5ecbc296ee013a49e88a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:32 +0000
Subject: [PATCH 07/53] fix: INT_CtoML must not compute in 32 bits when given
 an int

---
 base/runtime/include/ml-values.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/include/ml-values.h b/base/runtime/include/ml-values.h
index e6af1e2..7f9d9cc 100644
--- a/base/runtime/include/ml-values.h
+++ b/base/runtime/include/ml-values.h
@@ -38,7 +38,7 @@
 #endif
 
 #define INT_MLtoC(n)		(((Int_t)(n)) >> 1)
-#define INT_CtoML(n)		((ml_val_t)(Int_t)(2*(n) + 1))
+#define INT_CtoML(n)		((ml_val_t)(2*(Int_t)(n) + 1))
 #define PTR_MLtoC(ty,p)		PTR_CAST(ty *, p)
 #define PTR_CtoML(p)		PTR_CAST(ml_val_t, p)
 #else
-- 
2.43.0


From 4257a00847de1bcb360b296ec8d938285cb65788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:44 +0000
Subject: [PATCH 08/53] fix: terminate the vector that Posix.IO.readVec
 returns, as for every other string

---
 base/runtime/c-libs/posix-io/read.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/posix-io/read.c b/base/runtime/c-libs/posix-io/read.c
index f2c3ceb..cfde647 100644
--- a/base/runtime/c-libs/posix-io/read.c
+++ b/base/runtime/c-libs/posix-io/read.c
@@ -5,6 +5,7 @@
 
 #include "ml-unixdep.h"
 #include <unistd.h>
+#include <string.h>
 #include "ml-base.h"
 #include "ml-values.h"
 #include "ml-objects.h"
@@ -28,7 +29,7 @@ ml_val_t _ml_P_IO_read (ml_state_t *msp, ml_val_t arg)
 	return ML_string0;
 
   /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes+1));
     n = read (fd, PTR_MLtoC(char, vec), nbytes);
     if (n < 0)
 	return RAISE_SYSERR(msp, n);
@@ -37,9 +38,12 @@ ml_val_t _ml_P_IO_read (ml_state_t *msp, ml_val_t arg)
 
     if (n < nbytes) {
       /* we need to shrink the vector */
-	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n+1));
     }
 
+  /* guarantee 0 termination, since the vector may be used as a string */
+    memset (PTR_MLtoC(char, vec) + n, 0, WORD_SZB*BYTES_TO_WORDS(n+1) - n);
+
     SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
 
     return res;
-- 
2.43.0


From 6bf2e8f05f19fb9c5bae4be96c813c9a669c3f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:44 +0000
Subject: [PATCH 09/53] fix: Posix.IO.getfl has to ask for the status flags

---
 base/runtime/c-libs/posix-io/fcntl_gfl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/fcntl_gfl.c b/base/runtime/c-libs/posix-io/fcntl_gfl.c
index 4d75c7c..4f62fea 100644
--- a/base/runtime/c-libs/posix-io/fcntl_gfl.c
+++ b/base/runtime/c-libs/posix-io/fcntl_gfl.c
@@ -20,7 +20,7 @@ ml_val_t _ml_P_IO_fcntl_gfl (ml_state_t *msp, ml_val_t arg)
     int             flag;
     ml_val_t        flags, mode, obj;
 
-    flag = fcntl(fd, F_GETFD);
+    flag = fcntl(fd, F_GETFL);
 
     if (flag < 0)
 	return RAISE_SYSERR(msp, flag);
-- 
2.43.0


From ae7d1e829c3db00f6061c5a502b8a60c0ab17d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:44 +0000
Subject: [PATCH 10/53] fix: descriptor of the record that the lock operations
 return

---
 base/runtime/c-libs/posix-io/fcntl_l.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/fcntl_l.c b/base/runtime/c-libs/posix-io/fcntl_l.c
index 96ff7d6..cfc86ed 100644
--- a/base/runtime/c-libs/posix-io/fcntl_l.c
+++ b/base/runtime/c-libs/posix-io/fcntl_l.c
@@ -45,7 +45,7 @@ ml_val_t _ml_P_IO_fcntl_l (ml_state_t *msp, ml_val_t arg)
     INT64_ALLOC(msp, start, flock.l_start)
     INT64_ALLOC(msp, length, flock.l_len)
 
-    ML_AllocWrite (msp, 0, MAKE_DESC (DTAG_record, 5));
+    ML_AllocWrite (msp, 0, MAKE_DESC(5, DTAG_record));
     ML_AllocWrite (msp, 1, INT_CtoML(flock.l_type));
     ML_AllocWrite (msp, 2, INT_CtoML(flock.l_whence));
     ML_AllocWrite (msp, 3, start);
-- 
2.43.0


From 0592551cf22cb0d25290d9048dc05843e535b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:44 +0000
Subject: [PATCH 11/53] fix: a failing lseek has to raise SysErr

---
 base/runtime/c-libs/posix-io/lseek.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/lseek.c b/base/runtime/c-libs/posix-io/lseek.c
index 0b14853..4fbd313 100644
--- a/base/runtime/c-libs/posix-io/lseek.c
+++ b/base/runtime/c-libs/posix-io/lseek.c
@@ -28,7 +28,7 @@ ml_val_t _ml_P_IO_lseek (ml_state_t *msp, ml_val_t arg)
     pos = lseek(fd, offset, whence);
 
     if (pos < 0) {
-	RAISE_SYSERR (msp, (int)pos);
+	return RAISE_SYSERR (msp, (int)pos);
     }
 
     INT64_ALLOC(msp, box_pos, pos);
-- 
2.43.0


From a30417d37cada2aab4d8c53d392caf1979781886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:06 +0000
Subject: [PATCH 12/53] fix: readlink of a long link has to read into the
 buffer made for it

---
 base/runtime/c-libs/posix-filesys/readlink.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/base/runtime/c-libs/posix-filesys/readlink.c b/base/runtime/c-libs/posix-filesys/readlink.c
index f23ff08..86a487c 100644
--- a/base/runtime/c-libs/posix-filesys/readlink.c
+++ b/base/runtime/c-libs/posix-filesys/readlink.c
@@ -5,6 +5,7 @@
 
 #include "ml-unixdep.h"
 #include <unistd.h>
+#include <errno.h>
 #include <sys/stat.h>
 #include <limits.h>
 #include <sys/param.h>
@@ -65,11 +66,17 @@ ml_val_t _ml_P_FileSys_readlink (ml_state_t *msp, ml_val_t arg)
         /* Try the readlink again. Give up on error or if len is still bigger
          * than the buffer size.
          */
-	len = readlink(path, buf, len);
-	if (len < 0)
+	len = readlink(path, nbuf, nlen);
+	if (len < 0) {
+	    int err = errno;
+	    FREE (nbuf);
+	    errno = err;
 	    return RAISE_SYSERR(msp, len);
-	else if (len >= nlen)
+	}
+	else if (len >= nlen) {
+	    FREE (nbuf);
 	    return RAISE_ERROR(msp, "readlink failure");
+	}
 
 	nbuf[len] = '\0';
 	obj = ML_CString (msp, nbuf);
-- 
2.43.0


From 65104bf07c1692dde3d81dee7846219006d864cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:06 +0000
Subject: [PATCH 13/53] fix: pathconf and fpathconf must not truncate the limit
 to an int

---
 base/runtime/c-libs/posix-filesys/pathconf.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/runtime/c-libs/posix-filesys/pathconf.c b/base/runtime/c-libs/posix-filesys/pathconf.c
index 066bac1..33b24f1 100644
--- a/base/runtime/c-libs/posix-filesys/pathconf.c
+++ b/base/runtime/c-libs/posix-filesys/pathconf.c
@@ -38,11 +38,11 @@ static name_val_t values[] = {
 
 #define NUMELMS ((sizeof values)/(sizeof (name_val_t)))
 
-/* mkValue : int -> SysWord.word option
+/* mkValue : long -> SysWord.word option
  *
  * Convert return value from (f)pathconf to ML value.
  */
-STATIC_INLINE ml_val_t mkValue (ml_state_t *msp, int val)
+STATIC_INLINE ml_val_t mkValue (ml_state_t *msp, long val)
 {
     ml_val_t    p, obj;
 
@@ -68,7 +68,7 @@ STATIC_INLINE ml_val_t mkValue (ml_state_t *msp, int val)
  */
 ml_val_t _ml_P_FileSys_pathconf (ml_state_t *msp, ml_val_t arg)
 {
-    int		val;
+    long	val;
     ml_val_t	mlPathname = REC_SEL(arg, 0);
     ml_val_t	mlAttr = REC_SEL(arg, 1);
     char	*pathname = STR_MLtoC(mlPathname);
@@ -97,7 +97,7 @@ ml_val_t _ml_P_FileSys_pathconf (ml_state_t *msp, ml_val_t arg)
  */
 ml_val_t _ml_P_FileSys_fpathconf (ml_state_t *msp, ml_val_t arg)
 {
-    int		val;
+    long	val;
     int         fd = REC_SELINT(arg, 0);
     ml_val_t	mlAttr = REC_SEL(arg, 1);
     name_val_t  *attr;
-- 
2.43.0


From b6698a3f5c32d9b061a4af523a4df0abe1f71ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:23 +0000
Subject: [PATCH 14/53] fix: a failing uname has to raise SysErr

---
 base/runtime/c-libs/posix-procenv/uname.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-procenv/uname.c b/base/runtime/c-libs/posix-procenv/uname.c
index d7a3370..acb7618 100644
--- a/base/runtime/c-libs/posix-procenv/uname.c
+++ b/base/runtime/c-libs/posix-procenv/uname.c
@@ -25,7 +25,7 @@ ml_val_t _ml_P_ProcEnv_uname (ml_state_t *msp, ml_val_t arg)
     sts = uname (&name);
 
     if (sts == -1)
-	RAISE_SYSERR(msp, sts);
+	return RAISE_SYSERR(msp, sts);
 
 /** NOTE: we should do something about possible GC!!! **/
 
-- 
2.43.0


From 698c0bb296c245462dc71749a4e8a8a350de34cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:23 +0000
Subject: [PATCH 15/53] fix: make room for long lists of groups

---
 base/runtime/c-libs/posix-procenv/getgroups.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/posix-procenv/getgroups.c b/base/runtime/c-libs/posix-procenv/getgroups.c
index 9196b32..9ed9a44 100644
--- a/base/runtime/c-libs/posix-procenv/getgroups.c
+++ b/base/runtime/c-libs/posix-procenv/getgroups.c
@@ -11,6 +11,7 @@
 #include "ml-values.h"
 #include "ml-objects.h"
 #include "ml-c.h"
+#include "gc.h"
 #include "cfun-proto-list.h"
 
 /* some OSs use int[] as the second argument to getgroups(), when gid_t
@@ -31,10 +32,11 @@ PVT ml_val_t mkList (ml_state_t *msp, int ngrps, gid gidset[])
 {
     ml_val_t    p, w;
 
-/** NOTE: we should do something about possible GC!!! **/
-
     p = LIST_nil;
     while (ngrps-- > 0) {
+	if (NeedGC (msp, 8 * WORD_SZB)) {
+	    InvokeGCWithRoots (msp, 0, &p, NIL(ml_val_t *));
+	}
         WORD_ALLOC (msp, w, (Word_t)(gidset[ngrps]));
 	LIST_cons(msp, p, w, p);
     }
-- 
2.43.0


From e9c768c5c050a0c72ced5a6c8568486c98faae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:23 +0000
Subject: [PATCH 16/53] fix: the vectors for exec must not be allocated in the
 heap: too small for exece, and a collection moved the strings

---
 base/runtime/c-libs/posix-process/exec.c  | 14 ++++++++++++--
 base/runtime/c-libs/posix-process/exece.c | 17 +++++++++++++++--
 base/runtime/c-libs/posix-process/execp.c | 14 ++++++++++++--
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/base/runtime/c-libs/posix-process/exec.c b/base/runtime/c-libs/posix-process/exec.c
index fa2bb68..1ea63a1 100644
--- a/base/runtime/c-libs/posix-process/exec.c
+++ b/base/runtime/c-libs/posix-process/exec.c
@@ -9,6 +9,7 @@
 #include "ml-c.h"
 #include "cfun-proto-list.h"
 #include <unistd.h>
+#include <errno.h>
 
 /* _ml_P_Process_exec : string * string list -> 'a
  *
@@ -16,7 +17,7 @@
  */
 ml_val_t _ml_P_Process_exec (ml_state_t *msp, ml_val_t arg)
 {
-    int             sts;
+    int             sts, err;
     ml_val_t        path = REC_SEL(arg, 0);
     ml_val_t        arglst = REC_SEL(arg, 1);
     char            **argv;
@@ -28,7 +29,12 @@ ml_val_t _ml_P_Process_exec (ml_state_t *msp, ml_val_t arg)
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
+    /* the vector is not allocated in the heap, since that might move the strings */
+    cp = (char **)MALLOC((nArgs + 1) * sizeof(char *));
+    if (cp == 0) {
+        errno = ENOMEM;
+        return RAISE_SYSERR(msp, -1);
+    }
     argv = cp;
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
@@ -36,6 +42,10 @@ ml_val_t _ml_P_Process_exec (ml_state_t *msp, ml_val_t arg)
     *cp++ = 0;  /* terminate the argv[] */
 
     sts = execv(STR_MLtoC(path), argv);
+    err = errno;
+    FREE (argv);
+    errno = err;
+
     CHK_RETURN (msp, sts)
 
 } /* end of _ml_P_Process_exec */
diff --git a/base/runtime/c-libs/posix-process/exece.c b/base/runtime/c-libs/posix-process/exece.c
index fb72af0..089e7b4 100644
--- a/base/runtime/c-libs/posix-process/exece.c
+++ b/base/runtime/c-libs/posix-process/exece.c
@@ -9,6 +9,7 @@
 #include "ml-c.h"
 #include "cfun-proto-list.h"
 #include <unistd.h>
+#include <errno.h>
 
 /* _ml_P_Process_exece : string * string list * string list -> 'a
  *
@@ -16,7 +17,7 @@
  */
 ml_val_t _ml_P_Process_exece (ml_state_t *msp, ml_val_t arg)
 {
-    int             sts;
+    int             sts, err;
     ml_val_t        path = REC_SEL(arg, 0);
     ml_val_t        arglst = REC_SEL(arg, 1);
     ml_val_t        envlst = REC_SEL(arg, 2);
@@ -28,8 +29,16 @@ ml_val_t _ml_P_Process_exece (ml_state_t *msp, ml_val_t arg)
     for (nArgs = 0, p = arglst; p != LIST_nil; p = LIST_tl(p)) {
         nArgs++;
     }
+    for (p = envlst; p != LIST_nil; p = LIST_tl(p)) {
+        nArgs++;
+    }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
+    /* the vector is not allocated in the heap, since that might move the strings */
+    cp = (char **)MALLOC((nArgs + 2) * sizeof(char *));
+    if (cp == 0) {
+        errno = ENOMEM;
+        return RAISE_SYSERR(msp, -1);
+    }
     argv = cp;
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
@@ -43,6 +52,10 @@ ml_val_t _ml_P_Process_exece (ml_state_t *msp, ml_val_t arg)
 
     sts = execve(STR_MLtoC(path), argv, envp);
 
+    err = errno;
+    FREE (argv);
+    errno = err;
+
     CHK_RETURN (msp, sts)
 
 } /* end of _ml_P_Process_exece */
diff --git a/base/runtime/c-libs/posix-process/execp.c b/base/runtime/c-libs/posix-process/execp.c
index 355e11c..fdfa9a0 100644
--- a/base/runtime/c-libs/posix-process/execp.c
+++ b/base/runtime/c-libs/posix-process/execp.c
@@ -9,6 +9,7 @@
 #include "ml-c.h"
 #include "cfun-proto-list.h"
 #include <unistd.h>
+#include <errno.h>
 
 /* _ml_P_Process_execp : string * string list -> 'a
  *
@@ -16,7 +17,7 @@
  */
 ml_val_t _ml_P_Process_execp (ml_state_t *msp, ml_val_t arg)
 {
-    int             sts;
+    int             sts, err;
     ml_val_t        file = REC_SEL(arg, 0);
     ml_val_t        arglst = REC_SEL(arg, 1);
     char            **argv;
@@ -28,7 +29,12 @@ ml_val_t _ml_P_Process_execp (ml_state_t *msp, ml_val_t arg)
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
+    /* the vector is not allocated in the heap, since that might move the strings */
+    cp = (char **)MALLOC((nArgs + 1) * sizeof(char *));
+    if (cp == 0) {
+        errno = ENOMEM;
+        return RAISE_SYSERR(msp, -1);
+    }
     argv = cp;
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
@@ -37,6 +43,10 @@ ml_val_t _ml_P_Process_execp (ml_state_t *msp, ml_val_t arg)
 
     sts = execvp(STR_MLtoC(file), argv);
 
+    err = errno;
+    FREE (argv);
+    errno = err;
+
     CHK_RETURN (msp, sts)
 
 } /* end of _ml_P_Process_execp */
-- 
2.43.0


From 7fe2d0b38a36409cd91c8ca8571bba91286131df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:23 +0000
Subject: [PATCH 17/53] fix: waitpid that reports no child must not look at its
 status

---
 base/runtime/c-libs/posix-process/waitpid.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-process/waitpid.c b/base/runtime/c-libs/posix-process/waitpid.c
index de72cad..3187b92 100644
--- a/base/runtime/c-libs/posix-process/waitpid.c
+++ b/base/runtime/c-libs/posix-process/waitpid.c
@@ -29,7 +29,11 @@ ml_val_t _ml_P_Process_waitpid (ml_state_t *msp, ml_val_t arg)
 	return RAISE_SYSERR(msp, pid);
     }
 
-    if (WIFEXITED(status)) {
+    if (pid == 0) {  /* no child has changed its state; there is no status */
+	how = 0;
+	val = 0;
+    }
+    else if (WIFEXITED(status)) {
 	how = 0;
 	val = WEXITSTATUS(status);
     }
-- 
2.43.0


From 6fb0ee9f0e7ab9a101dcc40dca9eaaa04c396eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:25 +0000
Subject: [PATCH 18/53] fix: poll of a descriptor that is ready for several
 operations, or listed twice

---
 base/runtime/c-libs/posix-os/poll.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/base/runtime/c-libs/posix-os/poll.c b/base/runtime/c-libs/posix-os/poll.c
index e207621..9c1647f 100644
--- a/base/runtime/c-libs/posix-os/poll.c
+++ b/base/runtime/c-libs/posix-os/poll.c
@@ -27,6 +27,7 @@
 #include "ml-c.h"
 #include "ml-values.h"
 #include "ml-objects.h"
+#include "gc.h"
 #include "cfun-proto-list.h"
 
 /* bit masks for polling descriptors (see src/sml-nj/boot/Unix/os-io.sml) */
@@ -182,9 +183,16 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
     else if (sts == 0)
 	return LIST_nil;
     else {
-	ml_val_t	*resVec = NEW_VEC(ml_val_t, sts);
-	int		i, resFlag;
-
+	int		*resVec;
+	int		i, n, resFlag;
+
+      /* the results are collected as (fd, flags) pairs; note that sts may be
+       * more than the number of results (a descriptor may be ready for several
+       * operations) or less (a descriptor may be covered by multiple items).
+       */
+	for (n = 0, l = pollList;  l != LIST_nil;  l = LIST_tl(l))
+	    n++;
+	resVec = NEW_VEC(int, 2*n);
 	for (i = 0, l = pollList;  l != LIST_nil;  l = LIST_tl(l)) {
 	    item	= LIST_hd(l);
 	    fd		= REC_SELINT(item, 0);
@@ -197,15 +205,16 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 	    if (((flag & ERR_BIT) != 0) && FD_ISSET(fd, efds))
 		resFlag |= ERR_BIT;
 	    if (resFlag != 0) {
-		REC_ALLOC2 (msp, item, INT_CtoML(fd), INT_CtoML(resFlag));
-		resVec[i++] = item;
+		resVec[i++] = fd;
+		resVec[i++] = resFlag;
 	    }
 	}
 
-	ASSERT(i == sts);
-
-	for (i = sts-1, l = LIST_nil;  i >= 0;  i--) {
-	    item = resVec[i];
+	for (l = LIST_nil;  i > 0;  i -= 2) {
+	    if (NeedGC (msp, 8 * WORD_SZB)) {
+		InvokeGCWithRoots (msp, 0, &l, NIL(ml_val_t *));
+	    }
+	    REC_ALLOC2 (msp, item, INT_CtoML(resVec[i-2]), INT_CtoML(resVec[i-1]));
 	    LIST_cons (msp, l, item, l);
 	}
 
-- 
2.43.0


From b4acc41c55fec1b4bdc4fe3d9085984eeadbf512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 19/53] fix: poll must refuse descriptors that do not fit in an
 fd_set

---
 base/runtime/c-libs/posix-os/poll.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/runtime/c-libs/posix-os/poll.c b/base/runtime/c-libs/posix-os/poll.c
index 9c1647f..24833f0 100644
--- a/base/runtime/c-libs/posix-os/poll.c
+++ b/base/runtime/c-libs/posix-os/poll.c
@@ -23,6 +23,7 @@
 #  error no support for I/O polling
 #endif
 #include INCLUDE_TIME_H
+#include <errno.h>
 #include "ml-base.h"
 #include "ml-c.h"
 #include "ml-values.h"
@@ -152,6 +153,10 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 	item	= LIST_hd(l);
 	fd	= REC_SELINT(item, 0);
 	flag	= REC_SELINT(item, 1);
+	if ((fd < 0) || (fd >= FD_SETSIZE)) {
+	    errno = EINVAL;
+	    return RAISE_SYSERR(msp, -1);
+	}
 	if ((flag & RD_BIT) != 0) {
 	    if (rfds == NIL(fd_set *)) {
 		rfds = &rset;
-- 
2.43.0


From 1a710dc52085de5f3802fc07ca73e28e8a7baea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 20/53] fix: descriptor of the record that tcgetattr returns

---
 base/runtime/c-libs/posix-tty/tcgetattr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-tty/tcgetattr.c b/base/runtime/c-libs/posix-tty/tcgetattr.c
index 371df11..6e47472 100644
--- a/base/runtime/c-libs/posix-tty/tcgetattr.c
+++ b/base/runtime/c-libs/posix-tty/tcgetattr.c
@@ -45,7 +45,7 @@ ml_val_t _ml_P_TTY_tcgetattr (ml_state_t *msp, ml_val_t arg)
     SYSWORD_ALLOC (msp, ispeed, cfgetispeed (&data));
     SYSWORD_ALLOC (msp, ospeed, cfgetospeed (&data));
 
-    ML_AllocWrite (msp, 0, MAKE_DESC(DTAG_record, 7));
+    ML_AllocWrite (msp, 0, MAKE_DESC(7, DTAG_record));
     ML_AllocWrite (msp, 1, iflag);
     ML_AllocWrite (msp, 2, oflag);
     ML_AllocWrite (msp, 3, cflag);
-- 
2.43.0


From 67d1ed642a0c1dd5c57a264442be79e2883d2b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 21/53] fix: a failing tcgetpgrp has to raise SysErr

---
 base/runtime/c-libs/posix-tty/tcgetpgrp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/posix-tty/tcgetpgrp.c b/base/runtime/c-libs/posix-tty/tcgetpgrp.c
index 9da3719..5a851b3 100644
--- a/base/runtime/c-libs/posix-tty/tcgetpgrp.c
+++ b/base/runtime/c-libs/posix-tty/tcgetpgrp.c
@@ -17,8 +17,10 @@
  */
 ml_val_t _ml_P_TTY_tcgetpgrp (ml_state_t *msp, ml_val_t arg)
 {
-    int         fd = INT_MLtoC(arg);
+    int         sts, fd = INT_MLtoC(arg);
 
-    return INT_CtoML(tcgetpgrp(fd));
+    sts = tcgetpgrp(fd);
+
+    CHK_RETURN(msp, sts)
 
 } /* end of _ml_P_TTY_tcgetpgrp */
-- 
2.43.0


From e8c16ac6fcc75bee8f54cc72e81e59fd130c7ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 22/53] fix: getgrgid and getgrnam must not hold objects while
 the member list is made

---
 base/runtime/c-libs/posix-sysdb/getgrgid.c | 3 ++-
 base/runtime/c-libs/posix-sysdb/getgrnam.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/posix-sysdb/getgrgid.c b/base/runtime/c-libs/posix-sysdb/getgrgid.c
index 6eaa30f..c12a72b 100644
--- a/base/runtime/c-libs/posix-sysdb/getgrgid.c
+++ b/base/runtime/c-libs/posix-sysdb/getgrgid.c
@@ -27,9 +27,10 @@ ml_val_t _ml_P_SysDB_getgrgid (ml_state_t *msp, ml_val_t arg)
     if (info == NIL(struct group *))
         return RAISE_SYSERR(msp, -1);
 
+  /* the list comes first, since making it may require a garbage collection */
+    gr_mem = ML_CStringList(msp, info->gr_mem);
     gr_name = ML_CString (msp, info->gr_name);
     SYSWORD_ALLOC (msp, gr_gid, (SysWord_t)(info->gr_gid));
-    gr_mem = ML_CStringList(msp, info->gr_mem);
 
     REC_ALLOC3(msp, r, gr_name, gr_gid, gr_mem);
 
diff --git a/base/runtime/c-libs/posix-sysdb/getgrnam.c b/base/runtime/c-libs/posix-sysdb/getgrnam.c
index 22a35bc..a13468a 100644
--- a/base/runtime/c-libs/posix-sysdb/getgrnam.c
+++ b/base/runtime/c-libs/posix-sysdb/getgrnam.c
@@ -27,9 +27,10 @@ ml_val_t _ml_P_SysDB_getgrnam (ml_state_t *msp, ml_val_t arg)
     if (info == NIL(struct group *))
         return RAISE_SYSERR(msp, -1);
 
+  /* the list comes first, since making it may require a garbage collection */
+    gr_mem = ML_CStringList(msp, info->gr_mem);
     gr_name = ML_CString (msp, info->gr_name);
     SYSWORD_ALLOC (msp, gr_gid, (Word_t)(info->gr_gid));
-    gr_mem = ML_CStringList(msp, info->gr_mem);
 
     REC_ALLOC3(msp, r, gr_name, gr_gid, gr_mem);
 
-- 
2.43.0


From b54a803cb44c520d35bc71dadbb7746c4f301166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:30 +0000
Subject: [PATCH 23/53] fix: the Socket structure passes the peek and
 don't_route flags before the OOB flag

---
 base/runtime/c-libs/smlnj-sockets/recv.c        | 6 +++---
 base/runtime/c-libs/smlnj-sockets/recvbuf.c     | 6 +++---
 base/runtime/c-libs/smlnj-sockets/recvbuffrom.c | 6 +++---
 base/runtime/c-libs/smlnj-sockets/recvfrom.c    | 6 +++---
 base/runtime/c-libs/smlnj-sockets/sendbuf.c     | 6 +++---
 base/runtime/c-libs/smlnj-sockets/sendbufto.c   | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/recv.c b/base/runtime/c-libs/smlnj-sockets/recv.c
index a3f4180..eb4fb6e 100644
--- a/base/runtime/c-libs/smlnj-sockets/recv.c
+++ b/base/runtime/c-libs/smlnj-sockets/recv.c
@@ -13,7 +13,7 @@
 
 /* _ml_Sock_recv : (sock * int * bool * bool) -> int
  *
- * The arguments are: socket, number of bytes, OOB flag and peek flag; the
+ * The arguments are: socket, number of bytes, peek flag and OOB flag; the
  * result is the vector of bytes received.
  */
 ml_val_t _ml_Sock_recv (ml_state_t *msp, ml_val_t arg)
@@ -25,8 +25,8 @@ ml_val_t _ml_Sock_recv (ml_state_t *msp, ml_val_t arg)
     int		m, n;
     char	*s;
 
-    if (REC_SEL(arg, 2) == ML_true) flag |= MSG_OOB;
-    if (REC_SEL(arg, 3) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 2) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 3) == ML_true) flag |= MSG_OOB;
 
   /* allocate the vector; note that this might cause a GC */
     vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
diff --git a/base/runtime/c-libs/smlnj-sockets/recvbuf.c b/base/runtime/c-libs/smlnj-sockets/recvbuf.c
index 2264c80..ea0ac7b 100644
--- a/base/runtime/c-libs/smlnj-sockets/recvbuf.c
+++ b/base/runtime/c-libs/smlnj-sockets/recvbuf.c
@@ -13,7 +13,7 @@
 /* _ml_Sock_recvbuf : (sock * Word8Array.array * int * int * bool * bool) -> int
  *
  * The arguments are: socket, data buffer, start position, number of
- * bytes, OOB flag and peek flag.
+ * bytes, peek flag and OOB flag.
  */
 ml_val_t _ml_Sock_recvbuf (ml_state_t *msp, ml_val_t arg)
 {
@@ -24,8 +24,8 @@ ml_val_t _ml_Sock_recvbuf (ml_state_t *msp, ml_val_t arg)
     int		flag = 0;
     int		n;
 
-    if (REC_SEL(arg, 4) == ML_true) flag |= MSG_OOB;
-    if (REC_SEL(arg, 5) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 4) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 5) == ML_true) flag |= MSG_OOB;
 
     n = recv (sock, start, nbytes, flag);
 
diff --git a/base/runtime/c-libs/smlnj-sockets/recvbuffrom.c b/base/runtime/c-libs/smlnj-sockets/recvbuffrom.c
index feff4cb..833a23e 100644
--- a/base/runtime/c-libs/smlnj-sockets/recvbuffrom.c
+++ b/base/runtime/c-libs/smlnj-sockets/recvbuffrom.c
@@ -15,7 +15,7 @@
  *   : (sock * Word8Array.array * int * int * bool * bool) -> (int * addr)
  *
  * The arguments are: socket, data buffer, start position, number of
- * bytes, OOB flag and peek flag.  The result is number of bytes read and
+ * bytes, peek flag and OOB flag.  The result is number of bytes read and
  * the source address.
  */
 ml_val_t _ml_Sock_recvbuffrom (ml_state_t *msp, ml_val_t arg)
@@ -29,8 +29,8 @@ ml_val_t _ml_Sock_recvbuffrom (ml_state_t *msp, ml_val_t arg)
     int		flag = 0;
     int		n;
 
-    if (REC_SEL(arg, 4) == ML_true) flag |= MSG_OOB;
-    if (REC_SEL(arg, 5) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 4) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 5) == ML_true) flag |= MSG_OOB;
 
     n = recvfrom (sock, start, nbytes, flag, (struct sockaddr *)addrBuf, &addrLen);
 
diff --git a/base/runtime/c-libs/smlnj-sockets/recvfrom.c b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
index 585af1d..f61545b 100644
--- a/base/runtime/c-libs/smlnj-sockets/recvfrom.c
+++ b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
@@ -13,7 +13,7 @@
 
 /* _ml_Sock_recvfrom : (sock * int * bool * bool) -> (Word8Vector.vector * addr)
  *
- * The arguments are: socket, number of bytes, OOB flag and peek flag.  The
+ * The arguments are: socket, number of bytes, peek flag and OOB flag.  The
  * result is the vector of bytes read and the source address.
  */
 ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
@@ -26,8 +26,8 @@ ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
     ml_val_t	vec;
     int		n;
 
-    if (REC_SEL(arg, 2) == ML_true) flag |= MSG_OOB;
-    if (REC_SEL(arg, 3) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 2) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 3) == ML_true) flag |= MSG_OOB;
 
   /* allocate the vector; note that this might cause a GC */
     vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
diff --git a/base/runtime/c-libs/smlnj-sockets/sendbuf.c b/base/runtime/c-libs/smlnj-sockets/sendbuf.c
index 635531f..f156f05 100644
--- a/base/runtime/c-libs/smlnj-sockets/sendbuf.c
+++ b/base/runtime/c-libs/smlnj-sockets/sendbuf.c
@@ -14,7 +14,7 @@
  *
  * Send data from the buffer; bytes is either a Word8Array.array, or
  * a Word8Vector.vector.  The arguemnts are: socket, data buffer, start
- * position, number of bytes, OOB flag, and don't_route flag.
+ * position, number of bytes, don't_route flag, and OOB flag.
  */
 ml_val_t _ml_Sock_sendbuf (ml_state_t *msp, ml_val_t arg)
 {
@@ -26,8 +26,8 @@ ml_val_t _ml_Sock_sendbuf (ml_state_t *msp, ml_val_t arg)
 
   /* initialize the flags */
     flgs = 0;
-    if (REC_SEL(arg, 4) == ML_true) flgs |= MSG_OOB;
-    if (REC_SEL(arg, 5) == ML_true) flgs |= MSG_DONTROUTE;
+    if (REC_SEL(arg, 4) == ML_true) flgs |= MSG_DONTROUTE;
+    if (REC_SEL(arg, 5) == ML_true) flgs |= MSG_OOB;
 
     n = send (sock, data, nbytes, flgs);
 
diff --git a/base/runtime/c-libs/smlnj-sockets/sendbufto.c b/base/runtime/c-libs/smlnj-sockets/sendbufto.c
index f928b65..0a15660 100644
--- a/base/runtime/c-libs/smlnj-sockets/sendbufto.c
+++ b/base/runtime/c-libs/smlnj-sockets/sendbufto.c
@@ -15,7 +15,7 @@
  *
  * Send data from the buffer; bytes is either a Word8Array.array, or
  * a Word8Vector.vector.  The arguments are: socket, data buffer, start
- * position, number of bytes, OOB flag, don't_route flag, and destination address.
+ * position, number of bytes, don't_route flag, OOB flag, and destination address.
  */
 ml_val_t _ml_Sock_sendbufto (ml_state_t *msp, ml_val_t arg)
 {
@@ -28,8 +28,8 @@ ml_val_t _ml_Sock_sendbufto (ml_state_t *msp, ml_val_t arg)
 
   /* initialize the flags. */
     flgs = 0;
-    if (REC_SEL(arg, 4) == ML_true) flgs |= MSG_OOB;
-    if (REC_SEL(arg, 5) == ML_true) flgs |= MSG_DONTROUTE;
+    if (REC_SEL(arg, 4) == ML_true) flgs |= MSG_DONTROUTE;
+    if (REC_SEL(arg, 5) == ML_true) flgs |= MSG_OOB;
 
     n = sendto (
 	sock, data, nbytes, flgs,
-- 
2.43.0


From 35f6bcfd6d6c0c0d8dd497f2b37d0abbfc09aec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:30 +0000
Subject: [PATCH 24/53] fix: getAddrFamily: the family in a socket address is
 in host byte order

---
 base/runtime/c-libs/smlnj-sockets/getaddrfamily.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
index a469480..8d8c4dc 100644
--- a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
+++ b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
@@ -20,6 +20,6 @@ ml_val_t _ml_Sock_getaddrfamily (ml_state_t *msp, ml_val_t arg)
 {
     struct sockaddr *addr = GET_SEQ_DATAPTR(struct sockaddr, arg);
 
-    return ML_SysConst (msp, &_Sock_AddrFamily, ntohs(addr->sa_family));
+    return ML_SysConst (msp, &_Sock_AddrFamily, addr->sa_family);
 
 } /* end of _ml_Sock_getaddrfamily */
-- 
2.43.0


From 5c28967c8a99ac3ef629c16cb69a2aef28f29dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:30 +0000
Subject: [PATCH 25/53] fix: terminate the vectors that recv and recvFrom
 return, and shrink them before the address is allocated

---
 base/runtime/c-libs/smlnj-sockets/recv.c     |  8 ++++----
 base/runtime/c-libs/smlnj-sockets/recvfrom.c | 18 +++++++++++++-----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/recv.c b/base/runtime/c-libs/smlnj-sockets/recv.c
index eb4fb6e..ac2e5ad 100644
--- a/base/runtime/c-libs/smlnj-sockets/recv.c
+++ b/base/runtime/c-libs/smlnj-sockets/recv.c
@@ -29,7 +29,7 @@ ml_val_t _ml_Sock_recv (ml_state_t *msp, ml_val_t arg)
     if (REC_SEL(arg, 3) == ML_true) flag |= MSG_OOB;
 
   /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes+1));
 
     s = PTR_MLtoC(char, vec);
     n = recv (sock, s, nbytes, flag);
@@ -40,15 +40,15 @@ ml_val_t _ml_Sock_recv (ml_state_t *msp, ml_val_t arg)
 	return ML_string0;
 
   /* pad the last word of the vector with zero bytes so that string pattern
-   * matching on the result will work.
+   * matching on the result will work, and to guarantee 0 termination.
    */
-    for (m = n;  (m & (WORD_SZB-1)) != 0;  m++) {
+    for (m = n;  m < WORD_SZB*BYTES_TO_WORDS(n+1);  m++) {
 	s[m] = '\0';
     }
 
     if (n < nbytes) {
       /* we need to shrink the vector */
-	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n+1));
     }
 
     SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
diff --git a/base/runtime/c-libs/smlnj-sockets/recvfrom.c b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
index f61545b..1066734 100644
--- a/base/runtime/c-libs/smlnj-sockets/recvfrom.c
+++ b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
@@ -30,7 +30,7 @@ ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
     if (REC_SEL(arg, 3) == ML_true) flag |= MSG_OOB;
 
   /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes+1));
 
     n = recvfrom (
 	sock, PTR_MLtoC(char, vec), nbytes, flag,
@@ -39,18 +39,26 @@ ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
     if (n < 0)
 	return RAISE_SYSERR(msp, sts);
     else {
-	ml_val_t	data = ML_CData (msp, addrBuf, addrLen);
-	ml_val_t	addr, res;
+	ml_val_t	data, addr, res;
+	int		m;
 
 	if (n == 0)
 	    res = ML_string0;
 	else {
+	  /* pad the last word of the vector with zero bytes so that string pattern
+	   * matching on the result will work, and to guarantee 0 termination.
+	   */
+	    for (m = n;  m < WORD_SZB*BYTES_TO_WORDS(n+1);  m++)
+		PTR_MLtoC(char, vec)[m] = '\0';
 	    if (n < nbytes)
-	      /* we need to shrink the vector */
-		ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+	      /* we need to shrink the vector; this must come before the next
+	       * allocation, since it gives back the end of the vector.
+	       */
+		ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n+1));
 	    SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
 	}
 
+	data = ML_CData (msp, addrBuf, addrLen);
 	SEQHDR_ALLOC (msp, addr, DESC_word8vec, data, addrLen);
 	REC_ALLOC2(msp, res, res, addr);
 
-- 
2.43.0


From 9e31539d11476cd8eb9b8b335efa8aba618ec796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:30 +0000
Subject: [PATCH 26/53] fix: toUnixAddr has to refuse a path that does not fit
 in an address

---
 base/runtime/c-libs/smlnj-sockets/to-unixaddr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c b/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
index 43110c7..a5d63bb 100644
--- a/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
+++ b/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
@@ -26,6 +26,9 @@ ml_val_t _ml_Sock_tounixaddr (ml_state_t *msp, ml_val_t arg)
     int			len;
     ml_val_t		data, res;
 
+    if (strlen(path) >= sizeof(addr.sun_path))
+	return RAISE_ERROR(msp, "path too long for a socket address");
+
     memset(&addr, 0, sizeof(struct sockaddr_un));
 
     addr.sun_family = AF_UNIX;
-- 
2.43.0


From a82e180cd680d43e8ca9cca88d9c5296f2b7e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:30 +0000
Subject: [PATCH 27/53] fix: fromUnixAddr must not look beyond the end of the
 address

---
 base/runtime/c-libs/smlnj-sockets/from-unixaddr.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c b/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c
index fecee4b..8bf9938 100644
--- a/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c
+++ b/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c
@@ -4,6 +4,7 @@
  */
 
 #include "ml-unixdep.h"
+#include <string.h>
 #include "sockets-osdep.h"
 #include INCLUDE_TYPES_H
 #include INCLUDE_SOCKET_H
@@ -21,10 +22,22 @@
 ml_val_t _ml_Sock_fromunixaddr (ml_state_t *msp, ml_val_t arg)
 {
     struct sockaddr_un	*addr = GET_SEQ_DATAPTR(struct sockaddr_un, arg);
+    char		path[sizeof(addr->sun_path)+1];
+    int			len = GET_SEQ_LEN(arg) - (addr->sun_path - (char *)addr);
 
     ASSERT(addr->sun_family == AF_UNIX);
 
-    return ML_CString(msp, addr->sun_path);
+  /* the address of an unnamed socket has no path, and the path of an address
+   * is not necessarily 0 terminated.
+   */
+    if (len < 0)
+	len = 0;
+    else if (len >= sizeof(path))
+	len = sizeof(path)-1;
+    memcpy (path, addr->sun_path, len);
+    path[len] = '\0';
+
+    return ML_CString(msp, path);
 
 } /* end of _ml_Sock_fromunixaddr */
 
-- 
2.43.0


From 0cef433a379ac04b2a44b105fab8a848b873fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:00 +0000
Subject: [PATCH 28/53] fix: getServByPort has to convert the port to network
 byte order

---
 base/runtime/c-libs/smlnj-sockets/getservbyport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getservbyport.c b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
index c3c4af9..84ccee9 100644
--- a/base/runtime/c-libs/smlnj-sockets/getservbyport.c
+++ b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
@@ -25,6 +25,6 @@ ml_val_t _ml_NetDB_getservbyport (ml_state_t *msp, ml_val_t arg)
     else
 	proto = STR_MLtoC(OPTION_get(mlProto));
 
-    return _util_NetDB_mkservent (msp, getservbyport (REC_SELINT(arg, 0), proto));
+    return _util_NetDB_mkservent (msp, getservbyport (htons(REC_SELINT(arg, 0)), proto));
 
 } /* end of _ml_NetDB_getservbyport */
-- 
2.43.0


From 32b4e25cbdeae7ca6f828a3d28d440012f06c5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:00 +0000
Subject: [PATCH 29/53] fix: getNetByAddr is given the address family as a
 constant, not as an integer

---
 base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c b/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c
index 09f94db..8a38e80 100644
--- a/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c
+++ b/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c
@@ -28,7 +28,7 @@ ml_val_t _ml_NetDB_getnetbyaddr (ml_state_t *msp, ml_val_t arg)
   return RAISE_ERROR(msp, "<getnetbyaddr not implemented>");
 #else
     unsigned long   net = REC_SELWORD(arg, 0);
-    int		    type = REC_SELINT(arg, 1);
+    int		    type = REC_SELINT(REC_SEL(arg, 1), 0);
 
     return _util_NetDB_mknetent (msp, getnetbyaddr(net, type));
 #endif
-- 
2.43.0


From 364e2db3c7505f0c0127fd82117611e111acf809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:00 +0000
Subject: [PATCH 30/53] fix: the network databases must not hold objects while
 a list of aliases is made

---
 base/runtime/c-libs/smlnj-sockets/getprotbyname.c  | 3 ++-
 base/runtime/c-libs/smlnj-sockets/getprotbynum.c   | 3 ++-
 base/runtime/c-libs/smlnj-sockets/util-mkhostent.c | 3 ++-
 base/runtime/c-libs/smlnj-sockets/util-mknetent.c  | 3 ++-
 base/runtime/c-libs/smlnj-sockets/util-mkservent.c | 3 ++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getprotbyname.c b/base/runtime/c-libs/smlnj-sockets/getprotbyname.c
index 60696b8..3da069b 100644
--- a/base/runtime/c-libs/smlnj-sockets/getprotbyname.c
+++ b/base/runtime/c-libs/smlnj-sockets/getprotbyname.c
@@ -24,8 +24,9 @@ ml_val_t _ml_NetDB_getprotbyname (ml_state_t *msp, ml_val_t arg)
     if (pentry == NIL(struct protoent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, pentry->p_name);
+      /* the list comes first, since making it may require a garbage collection */
 	aliases = ML_CStringList (msp, pentry->p_aliases);
+	name = ML_CString (msp, pentry->p_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(pentry->p_proto));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/getprotbynum.c b/base/runtime/c-libs/smlnj-sockets/getprotbynum.c
index 98dff50..10ec0d7 100644
--- a/base/runtime/c-libs/smlnj-sockets/getprotbynum.c
+++ b/base/runtime/c-libs/smlnj-sockets/getprotbynum.c
@@ -24,8 +24,9 @@ ml_val_t _ml_NetDB_getprotbynum (ml_state_t *msp, ml_val_t arg)
     if (pentry == NIL(struct protoent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, pentry->p_name);
+      /* the list comes first, since making it may require a garbage collection */
 	aliases = ML_CStringList (msp, pentry->p_aliases);
+	name = ML_CString (msp, pentry->p_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(pentry->p_proto));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c b/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
index 4fab8f0..889d8ca 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
@@ -29,8 +29,9 @@ ml_val_t _util_NetDB_mkhostent (ml_state_t *msp, struct hostent *hentry)
 	ml_val_t	name, aliases, af, addr, addrs, res;
 	int		nAddrs, i;
 
-	name = ML_CString(msp, hentry->h_name);
+      /* the list comes first, since making it may require a garbage collection */
 	aliases = ML_CStringList(msp, hentry->h_aliases);
+	name = ML_CString(msp, hentry->h_name);
 	af = ML_SysConst (msp, &_Sock_AddrFamily, hentry->h_addrtype);
 	for (nAddrs = 0;  hentry->h_addr_list[nAddrs] != NIL(char *);  nAddrs++)
 	    continue;
diff --git a/base/runtime/c-libs/smlnj-sockets/util-mknetent.c b/base/runtime/c-libs/smlnj-sockets/util-mknetent.c
index 18f0d5a..a227522 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mknetent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mknetent.c
@@ -25,8 +25,9 @@ ml_val_t _util_NetDB_mknetent (ml_state_t *msp, struct netent *nentry)
       /* build the return result */
 	ml_val_t	name, aliases, af, net, res;
 
-	name = ML_CString(msp, nentry->n_name);
+      /* the list comes first, since making it may require a garbage collection */
 	aliases = ML_CStringList(msp, nentry->n_aliases);
+	name = ML_CString(msp, nentry->n_name);
 	af = ML_SysConst (msp, &_Sock_AddrFamily, nentry->n_addrtype);
 	WORD_ALLOC(msp, net, (Word_t)(nentry->n_net));
 	REC_ALLOC4 (msp, res, name, aliases, af, net);
diff --git a/base/runtime/c-libs/smlnj-sockets/util-mkservent.c b/base/runtime/c-libs/smlnj-sockets/util-mkservent.c
index 1a659e5..f0ecba6 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mkservent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mkservent.c
@@ -26,8 +26,9 @@ ml_val_t _util_NetDB_mkservent (ml_state_t *msp, struct servent *sentry)
       /* build the return result */
 	ml_val_t	name, aliases, port, proto, res;
 
-	name = ML_CString(msp, sentry->s_name);
+      /* the list comes first, since making it may require a garbage collection */
 	aliases = ML_CStringList(msp, sentry->s_aliases);
+	name = ML_CString(msp, sentry->s_name);
 	port = INT_CtoML(ntohs(sentry->s_port));
 	proto = ML_CString(msp, sentry->s_proto);
 	REC_ALLOC4 (msp, res, name, aliases, port, proto);
-- 
2.43.0


From 9987497d23b6f30d00295b8ebc0cd809bbbb502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:24 +0000
Subject: [PATCH 31/53] fix: descriptor of the record that gmTime and localTime
 return

---
 base/runtime/c-libs/smlnj-date/unix-date.c  | 2 +-
 base/runtime/c-libs/smlnj-date/win32-date.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-date/unix-date.c b/base/runtime/c-libs/smlnj-date/unix-date.c
index e6cafad..1930568 100644
--- a/base/runtime/c-libs/smlnj-date/unix-date.c
+++ b/base/runtime/c-libs/smlnj-date/unix-date.c
@@ -12,7 +12,7 @@
 ml_val_t _ml_alloc_tm (ml_state_t *msp, const struct tm *tm)
 {
 
-    ML_AllocWrite(msp, 0, MAKE_DESC(DTAG_record, 9));
+    ML_AllocWrite(msp, 0, MAKE_DESC(9, DTAG_record));
     ML_AllocWrite(msp, 1, INT_CtoML(tm->tm_sec));
     ML_AllocWrite(msp, 2, INT_CtoML(tm->tm_min));
     ML_AllocWrite(msp, 3, INT_CtoML(tm->tm_hour));
diff --git a/base/runtime/c-libs/smlnj-date/win32-date.c b/base/runtime/c-libs/smlnj-date/win32-date.c
index b6edb30..f545a64 100644
--- a/base/runtime/c-libs/smlnj-date/win32-date.c
+++ b/base/runtime/c-libs/smlnj-date/win32-date.c
@@ -68,7 +68,7 @@ int _ml_year_day (const SYSTEMTIME *st)
 ml_val_t _ml_alloc_tm (ml_state_t *msp, const SYSTEMTIME *st, BOOL isDST)
 {
   /* The SYSTEMTIME struct has everything that we need except the day of the year */
-    ML_AllocWrite(msp, 0, MAKE_DESC(DTAG_record, 9));
+    ML_AllocWrite(msp, 0, MAKE_DESC(9, DTAG_record));
     ML_AllocWrite(msp, 1, INT_CtoML(st->wSecond));
     ML_AllocWrite(msp, 2, INT_CtoML(st->wMinute));
     ML_AllocWrite(msp, 3, INT_CtoML(st->wHour));
-- 
2.43.0


From e3f192428b7e7215eea4adf1a4da11e3cfba9cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:24 +0000
Subject: [PATCH 32/53] fix: a failing localTime has to raise SysErr

---
 base/runtime/c-libs/smlnj-date/localtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-date/localtime.c b/base/runtime/c-libs/smlnj-date/localtime.c
index cbf0e42..0f84991 100644
--- a/base/runtime/c-libs/smlnj-date/localtime.c
+++ b/base/runtime/c-libs/smlnj-date/localtime.c
@@ -25,7 +25,7 @@ ml_val_t _ml_Date_localtime (ml_state_t *msp, ml_val_t arg)
     struct tm	tmbuf;
 
     if (localtime_r (&t, &tmbuf) == NULL) {
-	RAISE_SYSERR(msp,0);
+	return RAISE_SYSERR(msp,0);
     }
     else {
 	return _ml_alloc_tm (msp, &tmbuf);
-- 
2.43.0


From a294b69514f852c30b1e022ac67dce3260f5125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:24 +0000
Subject: [PATCH 33/53] fix: the time of day must not be truncated to 32 bits

---
 base/runtime/include/ml-objects.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/include/ml-objects.h b/base/runtime/include/ml-objects.h
index 8babe6f..231251b 100644
--- a/base/runtime/include/ml-objects.h
+++ b/base/runtime/include/ml-objects.h
@@ -266,7 +266,7 @@ STATIC_INLINE void ML_RecordUpdate (ml_state_t *msp, ml_val_t *addr)
 /* allocate a 64-bit integer number of nanoseconds, given seconds and
  * microseconds.
  */
-STATIC_INLINE ml_val_t ML_AllocNanoseconds (ml_state_t *msp, int sec, int usec)
+STATIC_INLINE ml_val_t ML_AllocNanoseconds (ml_state_t *msp, Int64_t sec, int usec)
 {
     Unsigned64_t t = (NS_PER_SEC * (Unsigned64_t)sec) + (1000 * (Unsigned64_t)usec);
     return ML_AllocWord64(msp, t);
-- 
2.43.0


From ad5d58ca67386b3f20a2e95861ac8ca5897ddeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:24 +0000
Subject: [PATCH 34/53] fix: dates before 1970 can be formatted: a negative
 result of mktime is not an error

---
 base/runtime/c-libs/smlnj-date/strftime.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-date/strftime.c b/base/runtime/c-libs/smlnj-date/strftime.c
index 8e809dc..7071122 100644
--- a/base/runtime/c-libs/smlnj-date/strftime.c
+++ b/base/runtime/c-libs/smlnj-date/strftime.c
@@ -46,8 +46,11 @@ ml_val_t _ml_Date_strftime (ml_state_t *msp, ml_val_t arg)
  * as part of the date normalization process, but we will need a different API
  * in the runtime system.
  */
-        /* normalize the time structure */
-        if (mktime(&tm) < 0) {
+        /* normalize the time structure; -1 is also the time one second before the
+         * Epoch, but only a successful call sets the day of the week.
+         */
+        tm.tm_wday = -1;
+        if ((mktime(&tm) == -1) && (tm.tm_wday < 0)) {
 	    return RAISE_ERROR(msp, "strftime failed: invalid tm struct");
         }
     }
-- 
2.43.0


From 48d3ee4861f29be823e2f2dc283b67d2a636199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:16 +0000
Subject: [PATCH 35/53] fix: a heap image whose last part cannot be written
 must not be reported as exported

---
 base/runtime/c-libs/smlnj-runtime/export-fun.c  | 3 ++-
 base/runtime/c-libs/smlnj-runtime/export-heap.c | 3 ++-
 base/runtime/gc/export-heap.c                   | 5 +++++
 base/runtime/gc/writer.c                        | 3 ++-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-runtime/export-fun.c b/base/runtime/c-libs/smlnj-runtime/export-fun.c
index 7dac946..6499a3a 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-fun.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-fun.c
@@ -33,7 +33,8 @@ ml_val_t _ml_RunT_export_fun (ml_state_t *msp, ml_val_t arg)
 	return RAISE_ERROR(msp, "unable to open file for writing");
 
     sts = ExportFnImage (msp, funct, file);
-    fclose (file);
+    if (fclose (file) != 0)
+	sts = FAILURE;
 
     if (sts == SUCCESS) {
 	Exit (0);
diff --git a/base/runtime/c-libs/smlnj-runtime/export-heap.c b/base/runtime/c-libs/smlnj-runtime/export-heap.c
index a854fc7..530756d 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-heap.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-heap.c
@@ -32,7 +32,8 @@ ml_val_t _ml_RunT_export_heap (ml_state_t *msp, ml_val_t arg)
 
     msp->ml_arg = ML_true;
     sts = ExportHeapImage (msp, file);
-    fclose (file);
+    if (fclose (file) != 0)
+	sts = FAILURE;
 
     if (sts == SUCCESS)
 	return ML_false;
diff --git a/base/runtime/gc/export-heap.c b/base/runtime/gc/export-heap.c
index d9d74de..5b3c9dd 100644
--- a/base/runtime/gc/export-heap.c
+++ b/base/runtime/gc/export-heap.c
@@ -157,6 +157,11 @@ PVT status_t ExportImage (ml_state_t *msp, int kind, FILE *file)
     if (WriteHeap(wr, heap) == FAILURE)
 	status = FAILURE;
 
+  /* make sure that all of the buffered output reaches the file */
+    WR_Flush(wr);
+    if (WR_Error(wr))
+	status = FAILURE;
+
   done:;
     if (kind != EXPORT_FN_IMAGE)
 	RepairHeap (exportTbl, heap);
diff --git a/base/runtime/gc/writer.c b/base/runtime/gc/writer.c
index ab06a55..11a75ea 100644
--- a/base/runtime/gc/writer.c
+++ b/base/runtime/gc/writer.c
@@ -75,7 +75,8 @@ PVT void Write (writer_t *wr, const void *data, Addr_t nbytes)
  */
 PVT void Flush (writer_t *wr)
 {
-    fflush (FileOf(wr));
+    if (fflush (FileOf(wr)) != 0)
+	wr->errFlg = TRUE;
 
 } /* end of Flush */
 
-- 
2.43.0


From 89d603fb13232b90f61f72bd3079fac62dd03be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:16 +0000
Subject: [PATCH 36/53] fix: the heap has to be repaired when the header of an
 image cannot be written

---
 base/runtime/gc/export-heap.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/base/runtime/gc/export-heap.c b/base/runtime/gc/export-heap.c
index 5b3c9dd..98df915 100644
--- a/base/runtime/gc/export-heap.c
+++ b/base/runtime/gc/export-heap.c
@@ -119,9 +119,8 @@ PVT status_t ExportImage (ml_state_t *msp, int kind, FILE *file)
 	HeapIO_WriteImageHeader(wr, kind);
 	WR_Write(wr, &heapHdr, sizeof(heapHdr));
 	if (WR_Error(wr)) {
-            FreeExportTbl(exportTbl);
-	    WR_Free(wr);
-	    return FAILURE;
+	    status = FAILURE;
+	    goto done;
 	}
     }
 
-- 
2.43.0


From 5c9f404af010212b24a8357449b62569483fa16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:16 +0000
Subject: [PATCH 37/53] fix: long image names must not overrun the name buffer

---
 base/runtime/c-libs/smlnj-runtime/export-fun.c  | 3 +++
 base/runtime/c-libs/smlnj-runtime/export-heap.c | 3 +++
 base/runtime/gc/import-heap.c                   | 3 ++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-runtime/export-fun.c b/base/runtime/c-libs/smlnj-runtime/export-fun.c
index 6499a3a..ebf54d2 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-fun.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-fun.c
@@ -27,6 +27,9 @@ ml_val_t _ml_RunT_export_fun (ml_state_t *msp, ml_val_t arg)
     FILE	*file;
     int		sts;
 
+    if (strlen(STR_MLtoC(mlName)) > sizeof(fname) - 32)  /* leave room for the suffix */
+	return RAISE_ERROR(msp, "file name too long");
+
     QualifyImageName (strcpy(fname, STR_MLtoC(mlName)));
 
     if ((file = fopen(fname, "wb")) == NULL)
diff --git a/base/runtime/c-libs/smlnj-runtime/export-heap.c b/base/runtime/c-libs/smlnj-runtime/export-heap.c
index 530756d..7ce70f2 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-heap.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-heap.c
@@ -25,6 +25,9 @@ ml_val_t _ml_RunT_export_heap (ml_state_t *msp, ml_val_t arg)
     FILE	*file;
     int		sts;
 
+    if (strlen(STR_MLtoC(arg)) > sizeof(fname) - 32)  /* leave room for the suffix */
+	return RAISE_ERROR(msp, "file name too long");
+
     QualifyImageName (strcpy(fname, STR_MLtoC(arg)));
 
     if ((file = fopen(fname, "wb")) == NULL)
diff --git a/base/runtime/gc/import-heap.c b/base/runtime/gc/import-heap.c
index 4b8720c..44a3bee 100644
--- a/base/runtime/gc/import-heap.c
+++ b/base/runtime/gc/import-heap.c
@@ -94,7 +94,8 @@ ml_state_t *ImportHeapImage (const char *fname, heap_params_t *params)
         else {
             char        buf[1024];
 
-            if (QualifyImageName(strcpy(buf, fname))
+            if ((strlen(fname) <= sizeof(buf) - 32)  /* leave room for the suffix */
+            && QualifyImageName(strcpy(buf, fname))
             && ((inBuf.file = fopen(buf, "rb")) != NULL)) {
                 if (! SilentLoad) {
                     Say("loading %s ", buf);
-- 
2.43.0


From 421f623188ab64a140817038645d20990ed05913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:16 +0000
Subject: [PATCH 38/53] fix: a heap image that ends in the table of external
 symbols has to be refused

---
 base/runtime/gc/heap-in-util.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/runtime/gc/heap-in-util.c b/base/runtime/gc/heap-in-util.c
index f8cca96..eae2f20 100644
--- a/base/runtime/gc/heap-in-util.c
+++ b/base/runtime/gc/heap-in-util.c
@@ -33,13 +33,17 @@ ml_val_t *HeapIO_ReadExterns (inbuf_t *bp)
     int			i;
 
   /* Read the header */
-    HeapIO_ReadBlock(bp, &(hdr), sizeof(hdr));
+    if (HeapIO_ReadBlock(bp, &(hdr), sizeof(hdr)) == FAILURE) {
+	Die ("failure reading the external symbol table\n");
+    }
 
     externs = NEW_VEC(ml_val_t, hdr.numExterns);
 
   /* Read in the names of the exported symbols */
     buf = NEW_VEC(Byte_t, hdr.externSzB);
-    HeapIO_ReadBlock (bp, buf, hdr.externSzB);
+    if (HeapIO_ReadBlock (bp, buf, hdr.externSzB) == FAILURE) {
+	Die ("failure reading the external symbol table\n");
+    }
 
   /* map the names of the external symbols to addresses in the run-time system */
     for (cp = buf, i = 0;  i < hdr.numExterns;  i++) {
-- 
2.43.0


From b8ac8e0bceca3ae020ed697833111258062001e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:40 +0000
Subject: [PATCH 39/53] fix: blasting a value that contains code has to raise
 an exception, not end the process

---
 base/runtime/gc/blast-gc.c  | 18 ++++++++----------
 base/runtime/gc/blast-out.c |  2 +-
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/base/runtime/gc/blast-gc.c b/base/runtime/gc/blast-gc.c
index 29e87f8..c7b6d7e 100644
--- a/base/runtime/gc/blast-gc.c
+++ b/base/runtime/gc/blast-gc.c
@@ -110,10 +110,14 @@ struct extractlits_clos {	/* the closure for BlastGC_ExtractLits */
 		if ((! finishGC) && (ExportCSymbol(ExportTbl, __w) == ML_unit))	\
 		    (errFlg) = TRUE;						\
 	    }									\
-	    else if (IS_BIGOBJ_AID(__aid))					\
+	    else if (IS_BIGOBJ_AID(__aid)) {					\
 /*{SayDebug ("big-object\n");*/\
 		BlastGC_ForwardBigObj(heap, p, __w, __aid);			\
+	      /* blasting big objects is not implemented */			\
+		if (! finishGC)							\
+		    (errFlg) = TRUE;						\
 /*}*/\
+	    }									\
 	    else if (IS_FROM_SPACE(__aid, maxAid))				\
 /*{SayDebug ("regular object\n");*/\
 		*(p) = BlastGC_ForwardObj(heap, __w, __aid);			\
@@ -148,18 +152,12 @@ blast_res_t BlastGC (ml_state_t *msp, ml_val_t *root, int gen)
 
   /* Scan the object root */
     BlastGC_CheckWord (heap, bibop, root, AID_MAX, errFlg);
-    if (errFlg) {
-	result.error = TRUE;
-	return result;
-    }
 
   /* Sweep to-space */
-    if (BlastGC_SweepToSpace(heap, AID_MAX) == FAILURE) {
-	result.error = TRUE;
-	return result;
-    }
+    if ((! errFlg) && (BlastGC_SweepToSpace(heap, AID_MAX) == FAILURE))
+	errFlg = TRUE;
 
-    result.error	= FALSE;
+    result.error	= errFlg;
     result.needsRepair	= repairHeap;
     result.maxGen	= maxCollectedGen;
 
diff --git a/base/runtime/gc/blast-out.c b/base/runtime/gc/blast-out.c
index d1fb93e..8073236 100644
--- a/base/runtime/gc/blast-out.c
+++ b/base/runtime/gc/blast-out.c
@@ -49,7 +49,7 @@ ml_val_t BlastOut (ml_state_t *msp, ml_val_t obj)
 	res = BlastGC (msp, &obj, gen);
 
       /* blast out the image */
-	blastedObj = BlastHeap (msp, obj, &res);
+	blastedObj = (res.error ? BLAST_ERROR : BlastHeap (msp, obj, &res));
 
       /* repair the heap or finish the GC */
 	BlastGC_FinishUp (msp, &res);
-- 
2.43.0


From 266200c7c7abeb6ab8515b976d42838506314116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:40 +0000
Subject: [PATCH 40/53] fix: blastIn must refuse data that is cut short

---
 base/runtime/gc/blast-in.c     | 10 ++++++++--
 base/runtime/gc/heap-in-util.c | 11 +++++++----
 base/runtime/gc/import-heap.c  |  4 +++-
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/base/runtime/gc/blast-in.c b/base/runtime/gc/blast-in.c
index aa24ea3..f5e7377 100644
--- a/base/runtime/gc/blast-in.c
+++ b/base/runtime/gc/blast-in.c
@@ -97,7 +97,8 @@ PVT status_t ReadImage (ml_state_t *msp, inbuf_t *bp, ml_val_t *objRef)
 	return FAILURE;
 
   /* read the externals table */
-    externs = HeapIO_ReadExterns (bp);
+    if ((externs = HeapIO_ReadExterns (bp)) == NIL(ml_val_t *))
+	return FAILURE;
 
   /* read the arena headers. */
     arenaHdrsSize = (blastHdr.numArenas + blastHdr.numBOKinds)
@@ -153,7 +154,12 @@ PVT status_t ReadImage (ml_state_t *msp, inbuf_t *bp, ml_val_t *objRef)
 	    if (arenaHdrs[i] != NIL(heap_arena_hdr_t *)) {
 	        arena_t	*ap = gen1->arena[i];
 	        arenaBase[i] = (Addr_t)(ap->nextw);
-	        HeapIO_ReadBlock (bp, (ap->nextw), arenaHdrs[i]->info.o.sizeB);
+	        if (HeapIO_ReadBlock (bp, (ap->nextw), arenaHdrs[i]->info.o.sizeB)
+		== FAILURE) {
+		    FREE (arenaHdrsBuf);
+		    FREE (externs);
+		    return FAILURE;
+		}
 /*SayDebug ("[%2d] Read [%#x..%#x)\n", i+1, ap->nextw,*/
 /*(Addr_t)(ap->nextw)+arenaHdrs[i]->info.o.sizeB);*/
 	    }
diff --git a/base/runtime/gc/heap-in-util.c b/base/runtime/gc/heap-in-util.c
index eae2f20..790b1fd 100644
--- a/base/runtime/gc/heap-in-util.c
+++ b/base/runtime/gc/heap-in-util.c
@@ -24,6 +24,8 @@ PVT status_t ReadBlock (FILE *file, void *blk, size_t len);
 
 
 /* HeapIO_ReadExterns:
+ *
+ * Read the table of external symbols; this returns NIL, if the table is incomplete.
  */
 ml_val_t *HeapIO_ReadExterns (inbuf_t *bp)
 {
@@ -33,16 +35,17 @@ ml_val_t *HeapIO_ReadExterns (inbuf_t *bp)
     int			i;
 
   /* Read the header */
-    if (HeapIO_ReadBlock(bp, &(hdr), sizeof(hdr)) == FAILURE) {
-	Die ("failure reading the external symbol table\n");
-    }
+    if (HeapIO_ReadBlock(bp, &(hdr), sizeof(hdr)) == FAILURE)
+	return NIL(ml_val_t *);
 
     externs = NEW_VEC(ml_val_t, hdr.numExterns);
 
   /* Read in the names of the exported symbols */
     buf = NEW_VEC(Byte_t, hdr.externSzB);
     if (HeapIO_ReadBlock (bp, buf, hdr.externSzB) == FAILURE) {
-	Die ("failure reading the external symbol table\n");
+	FREE (buf);
+	FREE (externs);
+	return NIL(ml_val_t *);
     }
 
   /* map the names of the external symbols to addresses in the run-time system */
diff --git a/base/runtime/gc/import-heap.c b/base/runtime/gc/import-heap.c
index 44a3bee..6df99e9 100644
--- a/base/runtime/gc/import-heap.c
+++ b/base/runtime/gc/import-heap.c
@@ -156,7 +156,9 @@ ml_state_t *ImportHeapImage (const char *fname, heap_params_t *params)
     RunTimeCompUnit = heapHdr.runTimeCompUnit;
 
   /* read the externals table */
-    externs = HeapIO_ReadExterns (&inBuf);
+    if ((externs = HeapIO_ReadExterns (&inBuf)) == NIL(ml_val_t *)) {
+        Die ("failure reading the external symbol table\n");
+    }
 
   /* read and initialize the ML state info */
     READ(&inBuf, image, "failure reading vproc header");
-- 
2.43.0


From aeffb192d2a3e74690108da890b404d0d647a006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:16 +0000
Subject: [PATCH 41/53] fix: the REAL64 literal instruction has to push its
 result

---
 base/runtime/gc/build-literals.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/runtime/gc/build-literals.c b/base/runtime/gc/build-literals.c
index 0eff5db..11fdec4 100644
--- a/base/runtime/gc/build-literals.c
+++ b/base/runtime/gc/build-literals.c
@@ -680,6 +680,7 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 #ifdef ALIGN_REALDS
 	    availSpace -= WORD_SZB;
 #endif
+	    PUSH (res);
 	    break;
 
 	  case RVEC32:
-- 
2.43.0


From e120be1a51f73aed618364595ca3221e8e87b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:16 +0000
Subject: [PATCH 42/53] fix: the literal bytecode may move when the array of
 saved values is allocated

---
 base/runtime/gc/build-literals.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/runtime/gc/build-literals.c b/base/runtime/gc/build-literals.c
index 11fdec4..6fa09ec 100644
--- a/base/runtime/gc/build-literals.c
+++ b/base/runtime/gc/build-literals.c
@@ -530,7 +530,14 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 #endif
 
     if (maxSaved > 0) {
-	saved = ML_AllocArrayData (msp, maxSaved, ML_nil);
+      /* allocating the array can cause a GC that moves the bytecode, but its
+       * initial value is preserved.
+       */
+	saved = ML_AllocArrayData (msp, maxSaved, PTR_CtoML(code));
+	code = PTR_MLtoC(Byte_t, PTR_MLtoC(ml_val_t, saved)[0]);
+	for (ui = 0;  ui < maxSaved;  ui++) {
+	    PTR_MLtoC(ml_val_t, saved)[ui] = ML_nil;
+	}
     }
     else {
 	saved = ML_nil;
-- 
2.43.0


From 9f2d70d9fc1bf8b17b5230279148f0f6d54aea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:16 +0000
Subject: [PATCH 43/53] fix: literals larger than the allocation space must not
 be built in the allocation space

---
 base/runtime/gc/build-literals.c | 132 +++++++++++++++++++++----------
 1 file changed, 91 insertions(+), 41 deletions(-)

diff --git a/base/runtime/gc/build-literals.c b/base/runtime/gc/build-literals.c
index 6fa09ec..80c06f8 100644
--- a/base/runtime/gc/build-literals.c
+++ b/base/runtime/gc/build-literals.c
@@ -457,10 +457,50 @@ ml_val_t BuildLiteralsV1 (ml_state_t *msp, Byte_t *lits, int pc, int len);
 #  define GC_MESSAGE
 #endif
 
+/* AllocLarge:
+ *
+ * Allocate an uninitialized large object in the given arena of the first generation.
+ * A GC might be required to get the space; for records and vectors we always
+ * do a GC to avoid pointers from the 1st generation into the allocation space.
+ * The bytecode, stack, and array of saved values are preserved.
+ */
+PVT ml_val_t AllocLarge (
+    ml_state_t *msp, int indx, ml_val_t desc, Word_t nwords,
+    Byte_t **code, ml_val_t *stk, ml_val_t *saved)
+{
+    arena_t	*ap = msp->ml_heap->gen[0]->arena[indx];
+    Word_t	szb = WORD_SZB*(nwords + 2);  /* includes possible alignment padding */
+    bool_t	full = (! isACTIVE(ap)) || (AVAIL_SPACE(ap) <= szb+msp->ml_heap->allocSzB);
+    ml_val_t	res;
+
+    if (full || (indx == RECORD_INDX)) {
+	GC_MESSAGE
+	ap->reqSizeB += szb;
+	InvokeGCWithRoots (msp, full ? 1 : 0, (ml_val_t *)code, stk, saved, NIL(ml_val_t *));
+	ap->reqSizeB = 0;
+    }
+#ifdef ALIGN_REALDS
+    if (GET_TAG(desc) == DTAG_raw64) {
+      /* Force REALD_SZB alignment (descriptor is off by one word) */
+	ap->nextw = (ml_val_t *)(((Addr_t)ap->nextw) | WORD_SZB);
+    }
+#endif
+    *(ap->nextw++) = desc;
+    res = PTR_CtoML(ap->nextw);
+    ap->nextw += nwords;
+    if (indx == RECORD_INDX) {
+	ap->sweep_nextw = ap->nextw;
+    }
+    CNTR_INCR(&msp->ml_heap->numAlloc1, szb);
+
+    return res;
+
+} /* end of AllocLarge */
+
 /* BuildLiterals:
  *
- * NOTE: we allocate all of the objects in the first generation, and allocate
- * the vector of literals in the allocation space.
+ * NOTE: we allocate the large objects in the first generation, and the others
+ * in the allocation space.
  */
 ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 {
@@ -494,6 +534,25 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 	    availSpace -= spaceReq;								\
     } while (0)
 
+/* Allocate a data object of n words in res; large objects are allocated in the first
+ * generation.  When this macro is used, spaceReq should be the space required for the
+ * literal's header object (if any).
+ */
+#define ALLOC_DATA(indx, n, tag)								\
+    do {											\
+	if ((n) > SMALL_OBJ_SZW) {								\
+	    GC_CHECK;										\
+	    res = AllocLarge (msp, indx, MAKE_DESC(n, tag), n, &code, &stk, &saved);		\
+	    availSpace = ((size_t)msp->ml_limitPtr - (size_t)msp->ml_allocPtr) - CONS_SZB;	\
+	}											\
+	else {											\
+	    spaceReq += WORD_SZB*((n)+1);							\
+	    GC_CHECK;										\
+	    ML_AllocWrite (msp, 0, MAKE_DESC(n, tag));						\
+	    res = ML_Alloc (msp, n);								\
+	}											\
+    } while (0)
+
 #ifdef DEBUG_LITERALS
     SayDebug("BuildLiterals: code = %p, len = %d\n", (void *)code, len);
 #endif
@@ -710,16 +769,11 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 		break;
 	    }
 	    ui = BYTES_TO_WORDS(arg.uArg+1);  /* include space for '\0' */
-	  /* the space request includes space for the data-object header word and
-	   * the sequence header object.
-	   */
-	    spaceReq = WORD_SZB*(ui+1+3);
-/* FIXME: for large strings, we should be allocating them in the 1st generation */
-	    GC_CHECK;
+	  /* the space for the sequence header object. */
+	    spaceReq = WORD_SZB*3;
 	  /* allocate the data object */
-	    ML_AllocWrite(msp, 0, MAKE_DESC(ui, DTAG_raw));
-	    ML_AllocWrite (msp, ui, 0);  /* so word-by-word string equality works */
-	    res = ML_Alloc (msp, ui);
+	    ALLOC_DATA(STRING_INDX, ui, DTAG_raw);
+	    PTR_MLtoC(ml_val_t, res)[ui-1] = 0;  /* so word-by-word string equality works */
 #ifdef DEBUG_LITERALS
 	SayDebug(" @ %p (%d words)\n", (void *)res, ui);
 #endif
@@ -743,19 +797,17 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 		break;
 	    }
 	    else {
-		spaceReq = WORD_SZB*(arg.uArg+1);
-		GC_CHECK;
-		ML_AllocWrite(msp, 0, MAKE_DESC(arg.uArg, DTAG_record));
+		spaceReq = 0;
+		ALLOC_DATA(RECORD_INDX, arg.uArg, DTAG_record);
 	    }
 	  /* top of stack is last element in record */
 	    for (ui = arg.uArg;  ui > 0;  ui--) {
-		ML_AllocWrite(msp, ui, LIST_hd(stk));
+		PTR_MLtoC(ml_val_t, res)[ui-1] = LIST_hd(stk);
 		stk = LIST_tl(stk);
 #ifdef DEBUG_LITERALS
 		depth--;
 #endif
 	    }
-	    res = ML_Alloc(msp, arg.uArg);
 #ifdef DEBUG_LITERALS
 	    SayDebug("...] @ %p\n", (void *)res);
 #endif
@@ -774,23 +826,18 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 		PUSH (ML_vector0);
 		break;
 	    }
-	  /* the space request includes space for the data-object header word and
-	   * the sequence header object.
-	   */
-	    spaceReq = WORD_SZB*(arg.uArg + (1 + 3));
-/* FIXME: for large vectors, we should be allocating them in the 1st generation */
-	    GC_CHECK;
+	  /* the space for the sequence header object. */
+	    spaceReq = WORD_SZB*3;
 	  /* allocate the data object */
-	    ML_AllocWrite(msp, 0, MAKE_DESC(arg.uArg, DTAG_vec_data));
+	    ALLOC_DATA(RECORD_INDX, arg.uArg, DTAG_vec_data);
 	  /* top of stack is last element in vector */
 	    for (ui = arg.uArg;  ui > 0;  ui--) {
-		ML_AllocWrite(msp, ui, LIST_hd(stk));
+		PTR_MLtoC(ml_val_t, res)[ui-1] = LIST_hd(stk);
 		stk = LIST_tl(stk);
 #ifdef DEBUG_LITERALS
 		depth--;
 #endif
 	    }
-	    res = ML_Alloc(msp, arg.uArg);
 	  /* allocate the header object */
 	    SEQHDR_ALLOC(msp, res, DESC_polyvec, res, arg.uArg);
 #ifdef DEBUG_LITERALS
@@ -818,14 +865,12 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 	    }
 #endif
 	    ASSERT(arg.uArg > 0);
-	    spaceReq = WORD_SZB*arg.uArg + WORD_SZB;
-/* FIXME: for large objects, we should be allocating them in the 1st generation */
-	    GC_CHECK;
-	    ML_AllocWrite (msp, 0, MAKE_DESC(arg.uArg, DTAG_raw));
-	    for (ui = 1;  ui <= arg.uArg;  ui++) {
-		ML_AllocWrite (msp, ui, (ml_val_t)GetRawArg(&(code[pc])));  pc += WORD_SZB;
+	    spaceReq = 0;
+	    ALLOC_DATA(STRING_INDX, arg.uArg, DTAG_raw);
+	    for (ui = 0;  ui < arg.uArg;  ui++) {
+		PTR_MLtoC(ml_val_t, res)[ui] = (ml_val_t)GetRawArg(&(code[pc]));
+		pc += WORD_SZB;
 	    }
-	    res = ML_Alloc (msp, arg.uArg);
 	    PUSH (res);
 	    availSpace -= spaceReq;
 	    break;
@@ -839,17 +884,22 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 	    SayDebug("[%04d/%4d]: RAW64(%" PRWORD ") [...]\n", startPC, depth, arg.uArg);
 #endif
 	    ASSERT(arg.uArg > 0);
-	    spaceReq = 8*(arg.uArg+1);
-/* FIXME: for large objects, we should be allocating them in the 1st generation */
-	    GC_CHECK;
-#ifdef ALIGN_REALDS
-	  /* Force REALD_SZB alignment (descriptor is off by one word) */
-	    msp->ml_allocPtr = (ml_val_t *)((Addr_t)(msp->ml_allocPtr) | WORD_SZB);
-#endif
 	  /* ui is the number of words */
 	    ui = WORD64_SZW * arg.uArg;
-	    ML_AllocWrite (msp, 0, MAKE_DESC(ui, DTAG_raw64));
-	    res = ML_Alloc (msp, ui);
+	    spaceReq = 0;
+#ifdef ALIGN_REALDS
+	    if (ui <= SMALL_OBJ_SZW) {
+	      /* make sure that there is no GC after the alignment */
+		spaceReq = 8*(arg.uArg+1);
+		GC_CHECK;
+	      /* Force REALD_SZB alignment (descriptor is off by one word) */
+		msp->ml_allocPtr = (ml_val_t *)((Addr_t)(msp->ml_allocPtr) | WORD_SZB);
+		ML_AllocWrite (msp, 0, MAKE_DESC(ui, DTAG_raw64));
+		res = ML_Alloc (msp, ui);
+	    }
+	    else
+#endif
+	    ALLOC_DATA(STRING_INDX, ui, DTAG_raw64);
 	    for (ui = 0;  ui < arg.uArg;  ui++) {
 		PTR_MLtoC(double, res)[ui] = GetR64Arg(&(code[pc]));
 		pc += 8;
-- 
2.43.0


From c1150ed599325f97e2c9d0e4b9a2779b29973e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:42 +0000
Subject: [PATCH 44/53] fix: a bin file that is cut short has to be reported,
 not loaded

---
 base/runtime/kernel/boot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/kernel/boot.c b/base/runtime/kernel/boot.c
index 8c99169..03bf111 100644
--- a/base/runtime/kernel/boot.c
+++ b/base/runtime/kernel/boot.c
@@ -250,7 +250,7 @@ PVT void ReadBinFile (FILE *file, void *buf, int nbytes, const char *fname)
         bufc[i] = byte;
     }
 #else
-    if (fread(buf, nbytes, 1, file) == -1) {
+    if ((nbytes != 0) && (fread(buf, nbytes, 1, file) != 1)) {
         Die ("cannot read file \"%s\"", fname);
     }
 #endif
-- 
2.43.0


From f827252b097fe40f3240bc3ab492c521d0aa7581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:42 +0000
Subject: [PATCH 45/53] fix: a boot list that cannot be opened has to end the
 boot with an error

---
 base/runtime/kernel/boot.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/runtime/kernel/boot.c b/base/runtime/kernel/boot.c
index 03bf111..cdac6c7 100644
--- a/base/runtime/kernel/boot.c
+++ b/base/runtime/kernel/boot.c
@@ -146,7 +146,10 @@ PVT ml_val_t BuildFileList (ml_state_t *msp, const char *bootlist, int *mbplp)
 
     listF = OpenBinFile (bootlist, FALSE);
 
-    if (listF != NULL) {
+    if (listF == NULL) {
+        Exit (1);
+    }
+    else {
         c = getc (listF);
         if (c == EOF) {
             Die ("bootlist file \"%s\" is empty", bootlist);
-- 
2.43.0


From a360b7dac6c9630db78d5895b632ee2c9f18c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:03 +0000
Subject: [PATCH 46/53] fix: lowering the VM cache level must not leave the
 freed memory objects in use

---
 base/runtime/c-libs/smlnj-runtime/gc-ctl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/runtime/c-libs/smlnj-runtime/gc-ctl.c b/base/runtime/c-libs/smlnj-runtime/gc-ctl.c
index 6994da3..585b58f 100644
--- a/base/runtime/c-libs/smlnj-runtime/gc-ctl.c
+++ b/base/runtime/c-libs/smlnj-runtime/gc-ctl.c
@@ -103,6 +103,7 @@ PVT void SetVMCache (ml_state_t *msp, ml_val_t arg)
 	int i;
 	for (i = level;  i < heap->cacheGen;  i++) {
 	    MEM_FreeMemObj (heap->gen[i]->cacheObj);
+	    heap->gen[i]->cacheObj = NIL(mem_obj_t *);
         }
     }
 
-- 
2.43.0


From 62e376ec4c51f0952dc5db779a9a90858c035396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:03 +0000
Subject: [PATCH 47/53] fix: reading the GC counters must not change them

---
 base/runtime/gc/init-gc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/runtime/gc/init-gc.c b/base/runtime/gc/init-gc.c
index 9745d04..b9a7111 100644
--- a/base/runtime/gc/init-gc.c
+++ b/base/runtime/gc/init-gc.c
@@ -378,8 +378,9 @@ void GetGCStats (ml_state_t *msp, gc_stats_t *statsOut)
 
     /* count the number of bytes allocated since the last GC or reset */
     Addr_t nbytesAlloc = (Addr_t)(msp->ml_allocPtr) - (Addr_t)(heap->allocBase);
-    CNTR_INCR(&(heap->numAlloc), nbytesAlloc);
-    statsOut->allocCnt = ROUND_COUNT(&heap->numAlloc);
+    cntr_t numAlloc = heap->numAlloc;
+    CNTR_INCR(&numAlloc, nbytesAlloc);
+    statsOut->allocCnt = ROUND_COUNT(&numAlloc);
 #ifdef COUNT_STORE_LIST
     statsOut->storeCnt = heap->numStores.cnt;
 #endif
-- 
2.43.0


From 2ef9b715ca40abf50d1a21ecbb75550200696e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:03 +0000
Subject: [PATCH 48/53] fix: the message for an uncaught exception must not
 overrun its buffer

---
 base/runtime/kernel/run-ml.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/runtime/kernel/run-ml.c b/base/runtime/kernel/run-ml.c
index d8488f2..9e039f4 100644
--- a/base/runtime/kernel/run-ml.c
+++ b/base/runtime/kernel/run-ml.c
@@ -312,11 +312,11 @@ PVT void UncaughtExn (ml_val_t e)
     char        buf[1024];
 
     if (isUNBOXED(val))
-        sprintf (buf, "%ld\n", (long int) INT_MLtoC(val));
+        snprintf (buf, sizeof(buf), "%ld\n", (long int) INT_MLtoC(val));
     else {
         ml_val_t        desc = OBJ_DESC(val);
         if (desc == DESC_string)
-            sprintf (buf, "\"%.*s\"", (int) GET_SEQ_LEN(val), STR_MLtoC(val));
+            snprintf (buf, sizeof(buf), "\"%.*s\"", (int) GET_SEQ_LEN(val), STR_MLtoC(val));
         else
             sprintf (buf, "<unknown>");
     }
@@ -329,7 +329,8 @@ PVT void UncaughtExn (ml_val_t e)
             next = LIST_tl(traceBack);
         } while (next != LIST_nil);
         val = LIST_hd(traceBack);
-        sprintf (buf+strlen(buf), " raised at %.*s",
+        int len = strlen(buf);
+        snprintf (buf+len, sizeof(buf)-len, " raised at %.*s",
                  (int) GET_SEQ_LEN(val), STR_MLtoC(val));
     }
 
-- 
2.43.0


From b792a114ba6c6068cc335c3b02a69deca25c0b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:48 +0000
Subject: [PATCH 49/53] fix: a runtime option without "=" has an empty
 argument, and a long option name must not overrun its buffer

---
 base/runtime/kernel/ml-options.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/base/runtime/kernel/ml-options.c b/base/runtime/kernel/ml-options.c
index 7ebfa02..893ef1b 100644
--- a/base/runtime/kernel/ml-options.c
+++ b/base/runtime/kernel/ml-options.c
@@ -22,10 +22,14 @@ bool_t isRuntimeOption (char *cmdLineArg, char *option, char **arg)
     char	*cp = cmdLineArg, c;
 
     if ((*cp++ == '@') && (*cp++ == 'S') && (*cp++ == 'M') && (*cp++ == 'L')) {
-	while (((c = *cp++) != '\0') && (c != '='))
-	  *option++ = c;
+	char	*end = option + MAX_OPT_LEN - 1;
+	while (((c = *cp) != '\0') && (c != '=')) {
+	    if (option < end)
+		*option++ = c;
+	    cp++;
+	}
 	*option = '\0';
-	*arg = cp;
+	*arg = (c == '=') ? cp+1 : cp;
 	return TRUE;
     }
     else
-- 
2.43.0


From 1ed0b120400c2ab840f4778bd7162eb67191117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:48 +0000
Subject: [PATCH 50/53] fix: the size given by an option must not wrap around

---
 base/runtime/kernel/ml-options.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/base/runtime/kernel/ml-options.c b/base/runtime/kernel/ml-options.c
index 893ef1b..767c3b2 100644
--- a/base/runtime/kernel/ml-options.c
+++ b/base/runtime/kernel/ml-options.c
@@ -6,6 +6,9 @@
  */
 
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
+#include <stdlib.h>
 #include "ml-base.h"
 #include "ml-options.h"
 
@@ -44,6 +47,7 @@ bool_t isRuntimeOption (char *cmdLineArg, char *option, char **arg)
 int GetSzOption (int scale, char *sz)
 {
     char	*p;
+    long	n;
 
   /* find first non-digit in the string */
     for (p = sz;  isdigit(*p); p++)
@@ -66,7 +70,11 @@ int GetSzOption (int scale, char *sz)
 	  default:
 	    return -1;
 	} /* end of switch */
-	return (scale * atoi(sz));
+	errno = 0;
+	n = strtol(sz, NIL(char **), 10);
+	if ((errno != 0) || (n > INT_MAX / scale))
+	    return -1;
+	return (scale * (int)n);
     }
 
 } /* end of GetSzOption */
-- 
2.43.0


From 8a92983fd338d900bd1cacbffa5ecfdb5a1345a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:48 +0000
Subject: [PATCH 51/53] fix: a heap option without its argument is an error
 also when it comes last

---
 base/runtime/gc/init-gc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/runtime/gc/init-gc.c b/base/runtime/gc/init-gc.c
index b9a7111..9ad580e 100644
--- a/base/runtime/gc/init-gc.c
+++ b/base/runtime/gc/init-gc.c
@@ -115,6 +115,9 @@ heap_params_t *ParseHeapParams (char **argv)
 	    return NIL(heap_params_t *);
     } /* while */
 
+    if (errFlg)
+	return NIL(heap_params_t *);
+
     return params;
 
 } /* end of ParseHeapParams */
-- 
2.43.0


From c8c36078dec9f0c5d0a6e9dd73db792a7a04d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:48 +0000
Subject: [PATCH 52/53] fix: the message for a debug file that cannot be opened
 must name the file

---
 base/runtime/kernel/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/kernel/main.c b/base/runtime/kernel/main.c
index 541ff17..53f14b2 100644
--- a/base/runtime/kernel/main.c
+++ b/base/runtime/kernel/main.c
@@ -144,7 +144,7 @@ PVT void ParseOptions (int argc, char **argv, heap_params_t **heapParams)
 		if ((DebugF = fopen(optionArg, "w")) == NULL) {
 		    DebugF = stderr; /* restore the file pointer */
 		    errFlg = TRUE;
-		    Error("unable to open debug output file \"%s\"\n", *(argv[-1]));
+		    Error("unable to open debug output file \"%s\"\n", optionArg);
 		    continue;
 		}
 	    }
-- 
2.43.0


From 44e3df4d2724482f5b14a8c2a155a60cb37fd036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:53 +0000
Subject: [PATCH 53/53] fix: a debug message is printed as it is, not taken for
 a format

---
 base/runtime/c-libs/smlnj-runtime/debug.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-runtime/debug.c b/base/runtime/c-libs/smlnj-runtime/debug.c
index 6b7a42c..d060080 100644
--- a/base/runtime/c-libs/smlnj-runtime/debug.c
+++ b/base/runtime/c-libs/smlnj-runtime/debug.c
@@ -15,7 +15,7 @@
  */
 ml_val_t _ml_RunT_debug (ml_state_t *msp, ml_val_t arg)
 {
-    SayDebug (STR_MLtoC(arg));
+    SayDebug ("%s", STR_MLtoC(arg));
 
     return ML_unit;
 
-- 
2.43.0

