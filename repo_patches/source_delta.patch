From 2f5e9e3b420e34bb4deda34d964e67c07c3fcd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:47 +0000
Subject: [PATCH 01/48] fix: solvers reordered the caller's constant_arg_nums
 list, so reusing it broke later solves

---
 src/tfc/utils/TFCUtils.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index d445595..11b66e2 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -234,7 +234,7 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
 
     # Reorder to put knowns first, then unknowns
     order = [k for k in range(len(args))]
-    for k in constant_arg_nums:
+    for k in sorted(constant_arg_nums):
         order.insert(0, order.pop(k))
     reorder = np.argsort(np.array(order))
     dark = tuple(args[k] for k in order)
@@ -861,9 +861,7 @@ def LS(
         ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
         args: list[Any] = list(args)
-        constant_arg_nums.sort()
-        constant_arg_nums.reverse()
-        for k in constant_arg_nums:
+        for k in sorted(constant_arg_nums, reverse=True):
             args.pop(k - 1)
 
     ls = jit(ls)
@@ -988,9 +986,7 @@ class LsClass:
             ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
             args: list[Any] = list(args)
-            constant_arg_nums.sort()
-            constant_arg_nums.reverse()
-            for k in constant_arg_nums:
+            for k in sorted(constant_arg_nums, reverse=True):
                 args.pop(k - 1)
 
         self._ls = jit(ls)
@@ -1229,9 +1225,7 @@ def NLLS(
         res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
         args: list[Any] = list(args)
-        constant_arg_nums.sort()
-        constant_arg_nums.reverse()
-        for k in constant_arg_nums:
+        for k in sorted(constant_arg_nums, reverse=True):
             args.pop(k - 1)
 
     if body is None:
@@ -1428,9 +1422,7 @@ class NllsClass:
             res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
             args: list[Any] = list(args)
-            constant_arg_nums.sort()
-            constant_arg_nums.reverse()
-            for k in constant_arg_nums:
+            for k in sorted(constant_arg_nums, reverse=True):
                 args.pop(k - 1)
 
         if body is None:
-- 
2.43.0


From ff96996aa20898439ab24c22315ae389279c8b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:03 +0000
Subject: [PATCH 02/48] fix: untimed LsClass.run raised NameError instead of
 solving

---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 11b66e2..bc4633a 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1032,7 +1032,7 @@ class LsClass:
             return zXi, stop - start
 
         else:
-            zXi += ls(zXi, *args)
+            zXi += self._ls(zXi, *args)
 
             self._compiled = True
 
-- 
2.43.0


From 6559e8c9047296a89c8031a3930c06770008b5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:03 +0000
Subject: [PATCH 03/48] fix: LsClass.run overwrote the caller's initial guess
 in place

---
 src/tfc/utils/TFCUtils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index bc4633a..bf037b1 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1027,12 +1027,12 @@ class LsClass:
             start = timer()
             xi = self._ls(zXi, *args).block_until_ready()
             stop = timer()
-            zXi += xi
+            zXi = zXi + xi
 
             return zXi, stop - start
 
         else:
-            zXi += self._ls(zXi, *args)
+            zXi = zXi + self._ls(zXi, *args)
 
             self._compiled = True
 
-- 
2.43.0


From 9c93474740b8d26836448875c90a08bf4e14c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:27 +0000
Subject: [PATCH 04/48] fix: TFCDictRobust holding numpy arrays lost its
 slices, so LS failed on it

---
 src/tfc/utils/TFCUtils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index bf037b1..a119ba9 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -556,7 +556,10 @@ class TFCDictRobust(OrderedDict):
         """
         Function that creates slices for each of the keys in the dictionary.
         """
-        if all(isinstance(value, np.ndarray) for value in self.values()):
+        if all(
+            isinstance(value, np.ndarray) or isinstance(value, onp.ndarray)
+            for value in self.values()
+        ):
             arrLen = 0
             self._slices = [
                 slice(0, 0, 1),
-- 
2.43.0


From 767b8690c7f268d389547a0a63f3bb2ae22a2042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:27 +0000
Subject: [PATCH 05/48] fix: adding or subtracting TFCDicts of numpy arrays
 modified the operands' arrays

---
 src/tfc/utils/TFCUtils.py | 40 +++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index a119ba9..425f527 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -445,11 +445,11 @@ class TFCDict(OrderedDict):
         """
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                self[key] += o[key]
+                self[key] = self[key] + o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                self[self._keys[k]] += o[self._slices[k]]
+                self[self._keys[k]] = self[self._keys[k]] + o[self._slices[k]]
         return self
 
     def __isub__(self, o: TFCDictAddable) -> "TFCDict":
@@ -468,11 +468,11 @@ class TFCDict(OrderedDict):
         """
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                self[key] -= o[key]
+                self[key] = self[key] - o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                self[self._keys[k]] -= o[self._slices[k]]
+                self[self._keys[k]] = self[self._keys[k]] - o[self._slices[k]]
         return self
 
     def __add__(self, o: TFCDictAddable) -> "TFCDict":
@@ -492,11 +492,11 @@ class TFCDict(OrderedDict):
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] += o[key]
+                out[key] = out[key] + o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] += o[self._slices[k]]
+                out[self._keys[k]] = out[self._keys[k]] + o[self._slices[k]]
         return out
 
     def __sub__(self, o: TFCDictAddable) -> "TFCDict":
@@ -516,11 +516,11 @@ class TFCDict(OrderedDict):
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] -= o[key]
+                out[key] = out[key] - o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] -= o[self._slices[k]]
+                out[self._keys[k]] = out[self._keys[k]] - o[self._slices[k]]
         return out
 
 
@@ -655,11 +655,13 @@ class TFCDictRobust(OrderedDict):
         """
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                self[key] += o[key]
+                self[key] = self[key] + o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                self[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                self[self._keys[k]] = self[self._keys[k]] + o[self._slices[k]].reshape(
+                    self[self._keys[k]].shape
+                )
         return self
 
     def __isub__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
@@ -678,11 +680,13 @@ class TFCDictRobust(OrderedDict):
         """
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                self[key] -= o[key]
+                self[key] = self[key] - o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                self[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                self[self._keys[k]] = self[self._keys[k]] - o[self._slices[k]].reshape(
+                    self[self._keys[k]].shape
+                )
         return self
 
     def __add__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
@@ -702,11 +706,13 @@ class TFCDictRobust(OrderedDict):
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] += o[key]
+                out[key] = out[key] + o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                out[self._keys[k]] = out[self._keys[k]] + o[self._slices[k]].reshape(
+                    self[self._keys[k]].shape
+                )
         return out
 
     def __sub__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
@@ -726,11 +732,13 @@ class TFCDictRobust(OrderedDict):
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] -= o[key]
+                out[key] = out[key] - o[key]
         elif isinstance(o, np.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                out[self._keys[k]] = out[self._keys[k]] - o[self._slices[k]].reshape(
+                    self[self._keys[k]].shape
+                )
         return out
 
 
-- 
2.43.0


From f3a54555b1c673387c20d2df1b9cdbe0e308af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:27 +0000
Subject: [PATCH 06/48] fix: TFCDict arithmetic silently ignored flat numpy
 arrays

---
 src/tfc/utils/TFCUtils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 425f527..3af43fc 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -446,7 +446,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] + o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, np.ndarray) or isinstance(o, onp.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] = self[self._keys[k]] + o[self._slices[k]]
@@ -469,7 +469,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] - o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, np.ndarray) or isinstance(o, onp.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] = self[self._keys[k]] - o[self._slices[k]]
@@ -493,7 +493,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] + o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, np.ndarray) or isinstance(o, onp.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] = out[self._keys[k]] + o[self._slices[k]]
@@ -517,7 +517,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] - o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, np.ndarray) or isinstance(o, onp.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] = out[self._keys[k]] - o[self._slices[k]]
@@ -656,7 +656,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] + o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, np.ndarray) or isinstance(o, onp.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] = self[self._keys[k]] + o[self._slices[k]].reshape(
@@ -681,7 +681,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] - o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, np.ndarray) or isinstance(o, onp.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] = self[self._keys[k]] - o[self._slices[k]].reshape(
@@ -707,7 +707,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] + o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, np.ndarray) or isinstance(o, onp.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] = out[self._keys[k]] + o[self._slices[k]].reshape(
@@ -733,7 +733,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] - o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, np.ndarray) or isinstance(o, onp.ndarray):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] = out[self._keys[k]] - o[self._slices[k]].reshape(
-- 
2.43.0


From 9b0d44ac07e75ccbbfbb05dbbf23de226ff587c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:44 +0000
Subject: [PATCH 07/48] fix: TFCDict bookkeeping went stale when items were
 assigned, resized or deleted

---
 src/tfc/utils/TFCUtils.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 3af43fc..039166c 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -346,6 +346,12 @@ class TFCDict(OrderedDict):
         # Store dictionary and keep a record of the keys. Keys will stay in same
         # order, so that adding and subtracting is repeatable.
         super().__init__(*args)
+        self._refresh()
+
+    def _refresh(self) -> None:
+        """
+        Bring the record of the keys and their slices up to date with the dictionary's items.
+        """
         self._keys = list(self.keys())
         self._nKeys = len(self._keys)
         self.getSlices()
@@ -384,9 +390,7 @@ class TFCDict(OrderedDict):
             Same as *args for the update method of ordered dict.
         """
         super().update(*args)
-        self._keys = list(self.keys())
-        self._nKeys = len(self._keys)
-        self.getSlices()
+        self._refresh()
 
     def toArray(self) -> np.ndarray:
         """
@@ -413,6 +417,7 @@ class TFCDict(OrderedDict):
         TFCDict
             JAX array as a TFCDict
         """
+        self._refresh()
         arr = arr.flatten()
         return TFCDict(zip(self._keys, [arr[self._slices[k]] for k in range(self._nKeys)]))
 
@@ -426,6 +431,7 @@ class TFCDict(OrderedDict):
         TFCDict
             This TFCDict.
         """
+        self._refresh()
         self[self._keys[0]].block_until_ready()
         return self
 
@@ -443,6 +449,7 @@ class TFCDict(OrderedDict):
         self : TFCDict
             A copy of self after adding in the values from o.
         """
+        self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] + o[key]
@@ -466,6 +473,7 @@ class TFCDict(OrderedDict):
         self : TFCDict
             A copy of self after subtracting the values from o.
         """
+        self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] - o[key]
@@ -489,6 +497,7 @@ class TFCDict(OrderedDict):
         out : TFCDict
             A TFCDict with values = self + o.
         """
+        self._refresh()
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
@@ -513,6 +522,7 @@ class TFCDict(OrderedDict):
         self : TFCDict
             A TFCDict with values = self - o.
         """
+        self._refresh()
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
@@ -548,6 +558,12 @@ class TFCDictRobust(OrderedDict):
         # Store dictionary and keep a record of the keys. Keys will stay in same
         # order, so that adding and subtracting is repeatable.
         super().__init__(*args)
+        self._refresh()
+
+    def _refresh(self) -> None:
+        """
+        Bring the record of the keys and their slices up to date with the dictionary's items.
+        """
         self._keys = list(self.keys())
         self._nKeys = len(self._keys)
         self.getSlices()
@@ -586,9 +602,7 @@ class TFCDictRobust(OrderedDict):
             Same as *args for the update method on ordered dict.
         """
         super().update(*args)
-        self._keys = list(self.keys())
-        self._nKeys = len(self._keys)
-        self.getSlices()
+        self._refresh()
 
     def toArray(self) -> np.ndarray:
         """
@@ -615,6 +629,7 @@ class TFCDictRobust(OrderedDict):
         TFCDictRobust
             JAX array as a TFCDictRobust
         """
+        self._refresh()
         arr = arr.flatten()
         return TFCDictRobust(
             zip(
@@ -636,6 +651,7 @@ class TFCDictRobust(OrderedDict):
         TFCDictRobust
             This TFCDictRobust
         """
+        self._refresh()
         self[self._keys[0]].block_until_ready()
         return self
 
@@ -653,6 +669,7 @@ class TFCDictRobust(OrderedDict):
         self : TFCDictRobust
             A copy of self after adding in the values from o.
         """
+        self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] + o[key]
@@ -678,6 +695,7 @@ class TFCDictRobust(OrderedDict):
         self : TFCDictRobust
             A copy of self after subtracting the values from o.
         """
+        self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] = self[key] - o[key]
@@ -703,6 +721,7 @@ class TFCDictRobust(OrderedDict):
         out : TFCDictRobust
             A TFCDictRobust with values = self + o.
         """
+        self._refresh()
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
@@ -729,6 +748,7 @@ class TFCDictRobust(OrderedDict):
         self : TFCDictRobust
             A TFCDictRobust with values = self - o.
         """
+        self._refresh()
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-- 
2.43.0


From 00fee27f904908df976ac2ffd9aea1c4ab14696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:06 +0000
Subject: [PATCH 08/48] fix: NLLS and NllsClass ignored the user-supplied
 stopping condition

---
 src/tfc/utils/TFCUtils.py | 40 +++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 039166c..eb10f2a 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1210,16 +1210,18 @@ def NLLS(
     else:
         dictFlag = False
 
-    def cond(val):
-        return np.all(
-            np.array(
-                [
-                    np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
-                    val["it"] < maxIter,
-                    np.max(np.abs(val["dxi"])) > tol,
-                ]
+    if cond is None:
+
+        def cond(val):
+            return np.all(
+                np.array(
+                    [
+                        np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
+                        val["it"] < maxIter,
+                        np.max(np.abs(val["dxi"])) > tol,
+                    ]
+                )
             )
-        )
 
     if J is None:
         if dictFlag:
@@ -1405,16 +1407,18 @@ class NllsClass:
         else:
             self._dictFlag = False
 
-        def cond(val):
-            return np.all(
-                np.array(
-                    [
-                        np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
-                        val["it"] < maxIter,
-                        np.max(np.abs(val["dxi"])) > tol,
-                    ]
+        if cond is None:
+
+            def cond(val):
+                return np.all(
+                    np.array(
+                        [
+                            np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
+                            val["it"] < maxIter,
+                            np.max(np.abs(val["dxi"])) > tol,
+                        ]
+                    )
                 )
-            )
 
         if J is None:
             if self._dictFlag:
-- 
2.43.0


From bf6ad2e1a9ede040c81696dd99f44d74390d1d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:06 +0000
Subject: [PATCH 09/48] fix: the timer's warm-up run printed a spurious
 iteration report

---
 src/tfc/utils/TFCUtils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index eb10f2a..9a6f409 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1295,7 +1295,7 @@ def NLLS(
         import time
 
         timer_f: Callable[[], float] = getattr(time, timerType)
-        val = {"xi": xiInit, "dxi": dxi, "it": maxIter - 1, "args": args}
+        val = {"xi": xiInit, "dxi": dxi, "it": maxIter, "args": args}
         nlls(val)["dxi"].block_until_ready()
 
         val = {"xi": xiInit, "dxi": dxi, "it": 0, "args": args}
@@ -1521,7 +1521,7 @@ class NllsClass:
             timer_f: Callable[[], float] = getattr(time, self.timerType)
 
             if not self._compiled:
-                val = {"xi": xiInit, "dxi": dxi, "it": self._maxIter - 1, "args": args}
+                val = {"xi": xiInit, "dxi": dxi, "it": self._maxIter, "args": args}
                 self._nlls(val)["dxi"].block_until_ready()
                 self._compiled = True
 
-- 
2.43.0


From 3add945b2a3a30170386090730b4d6128d7ecb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:06 +0000
Subject: [PATCH 10/48] fix: assigning the switching functions left a stale
 constrained expression cached

---
 src/tfc/utils/CeSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index 015c523..a58f957 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -154,6 +154,7 @@ class CeSolver:
         """
         self._phi = phi
         self._phi_stale = False
+        self._ce_stale = True
 
     @property
     def alpha(self) -> sp.Matrix:
-- 
2.43.0


From 175d49d5ccc9a7081a1b501e8d3d3291c7c78cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:06 +0000
Subject: [PATCH 11/48] fix: TfcPrinter rewrote the function tables of all
 sympy Python code printers

---
 src/tfc/utils/CeSolver.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index a58f957..1c62b52 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -372,13 +372,9 @@ class CeSolver:
 
 class TfcPrinter(PythonCodePrinter):
     def __init__(self, settings=None):
-        # Switch math to numpy
-        for k, v in self._kf.items():
-            if "math" in v:
-                self._kf[k] = v.replace("math", "np")
-        for k, v in self._kc.items():
-            if "math" in v:
-                self._kc[k] = v.replace("math", "np")
+        # Switch math to numpy. Use copies, since _kf and _kc are shared by all of sympy's Python printers.
+        self._kf = {k: v.replace("math", "np") for k, v in self._kf.items()}
+        self._kc = {k: v.replace("math", "np") for k, v in self._kc.items()}
 
         super().__init__(settings=settings)
 
-- 
2.43.0


From dbb7c74b68961b6475612c578b4e51d07d67bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:06 +0000
Subject: [PATCH 12/48] fix: savePickle lost write errors raised when its file
 was implicitly closed

---
 src/tfc/utils/MakePlot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tfc/utils/MakePlot.py b/src/tfc/utils/MakePlot.py
index 2b646d5..148c537 100644
--- a/src/tfc/utils/MakePlot.py
+++ b/src/tfc/utils/MakePlot.py
@@ -278,7 +278,8 @@ class MakePlot:
         fileName : Path
             Filename where the figure should be saved. Note, this should not include the file suffix.
         """
-        pickle.dump(self, open(fileName + ".pickle", "wb"))
+        with open(fileName + ".pickle", "wb") as out:
+            pickle.dump(self, out)
 
     def saveAll(
         self,
-- 
2.43.0


From a5a68f5e3a7c5d9458e4b7d501ee9edcf3583d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:06 +0000
Subject: [PATCH 13/48] fix: animations stopped early when the generator
 yielded -1 and failed on array yields

---
 src/tfc/utils/MakePlot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/MakePlot.py b/src/tfc/utils/MakePlot.py
index 148c537..f36b719 100644
--- a/src/tfc/utils/MakePlot.py
+++ b/src/tfc/utils/MakePlot.py
@@ -333,7 +333,7 @@ class MakePlot:
                 os.mkdir(outDir)
             k = 0
 
-            while next(iterable, -1) != -1:
+            for _ in iterable:
                 plt.pause(delay / 1000.0)
                 fileNameFull = "{}{:0>6d}".format(fileName, k)
                 self.save(os.path.join(outDir, fileNameFull), fileType="png")
@@ -345,5 +345,5 @@ class MakePlot:
                 )
             )
         else:
-            while next(iterable, -1) != -1:
+            for _ in iterable:
                 plt.pause(delay / 1000.0)
-- 
2.43.0


From f2143ef5f324058c1a8e448d8d07a75ecf27072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:25 +0000
Subject: [PATCH 14/48] fix: writing an HTML report failed when another writer
 created its folder first, or with a bare file name

---
 src/tfc/utils/Html.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tfc/utils/Html.py b/src/tfc/utils/Html.py
index 18015c5..4fa5a8c 100644
--- a/src/tfc/utils/Html.py
+++ b/src/tfc/utils/Html.py
@@ -44,8 +44,7 @@ class HTML:
 
     def WriteFile(self):
         """This function writes the HTML file text to a file."""
-        if not os.path.exists(os.path.dirname(self._outFile)):
-            os.makedirs(os.path.dirname(self._outFile))
+        os.makedirs(os.path.dirname(self._outFile) or ".", exist_ok=True)
         out = open(self._outFile, "w")
         out.write(self.GenerateHtml())
         out.close()
-- 
2.43.0


From 1970704456d21fb04ecb21f0c35ef9c6bf472f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:26 +0000
Subject: [PATCH 15/48] fix: animate failed when another writer created its
 output folder first, or for nested folders

---
 src/tfc/utils/MakePlot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tfc/utils/MakePlot.py b/src/tfc/utils/MakePlot.py
index f36b719..85aa728 100644
--- a/src/tfc/utils/MakePlot.py
+++ b/src/tfc/utils/MakePlot.py
@@ -329,8 +329,7 @@ class MakePlot:
         iterable = animFunc()
 
         if save:
-            if not os.path.exists(outDir):
-                os.mkdir(outDir)
+            os.makedirs(outDir, exist_ok=True)
             k = 0
 
             for _ in iterable:
-- 
2.43.0


From e02adda86f84291cfe031684d5fea915afec2463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:26 +0000
Subject: [PATCH 16/48] fix: Python backend ELM weights aliased the caller's
 arrays

---
 src/tfc/utils/BF_Py.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 8556a15..8629179 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -635,7 +635,7 @@ class ELM(BasisFunc):
         NDArray
             Weights of the ELM.
         """
-        return self._w
+        return self._w.copy()
 
     @property
     def b(self) -> JaxOrNumpyArray:
@@ -647,7 +647,7 @@ class ELM(BasisFunc):
         NDArray
             Biases of the ELM.
         """
-        return self._b
+        return self._b.copy()
 
     @w.setter
     def w(self, val: JaxOrNumpyArray) -> None:
@@ -660,7 +660,7 @@ class ELM(BasisFunc):
             New weights.
         """
         if val.size == self._m:
-            self._w = val
+            self._w = np.array(val)
             if self._w.shape != (1, self._m):
                 self._w = self._w.reshape((1, self._m))
         else:
@@ -679,7 +679,7 @@ class ELM(BasisFunc):
             New biases.
         """
         if val.size == self._m:
-            self._b = val
+            self._b = np.array(val)
             if self._b.shape != (1, self._m):
                 self._b = self._b.reshape((1, self._m))
         else:
@@ -1281,7 +1281,7 @@ class nELM(nBasisFunc):
         NDArray
             Weights of the ELM.
         """
-        return self._w
+        return self._w.copy()
 
     @property
     def b(self) -> JaxOrNumpyArray:
@@ -1293,7 +1293,7 @@ class nELM(nBasisFunc):
         NDArray
             Biases of the ELM.
         """
-        return self._b
+        return self._b.copy()
 
     @w.setter
     def w(self, val: JaxOrNumpyArray) -> None:
@@ -1306,7 +1306,7 @@ class nELM(nBasisFunc):
             New weights.
         """
         if val.size == self._m * self._dim:
-            self._w = val
+            self._w = np.array(val)
             if self._w.shape != (self._dim, self._m):
                 self._w = self._w.reshape((self._dim, self._m))
         else:
@@ -1325,7 +1325,7 @@ class nELM(nBasisFunc):
             New biases.
         """
         if val.size == self._m:
-            self._b = val
+            self._b = np.array(val)
             if self._b.shape != (1, self._m):
                 self._b = self._b.reshape((1, self._m))
         else:
-- 
2.43.0


From a3f17889f83db47c40ef9640d3af9870ae4f3086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:54 +0000
Subject: [PATCH 17/48] fix: creating an object while compiled code ran could
 make XLA threads read a freed registry

---
 src/tfc/utils/BF.cc | 3903 ++++++++++++++++++++++---------------------
 src/tfc/utils/BF.h  | 1486 ++++++++--------
 2 files changed, 2702 insertions(+), 2687 deletions(-)

diff --git a/src/tfc/utils/BF.cc b/src/tfc/utils/BF.cc
index 82504d0..11d3326 100644
--- a/src/tfc/utils/BF.cc
+++ b/src/tfc/utils/BF.cc
@@ -1,1948 +1,1955 @@
-#include "BF.h"
-
-// Initialize static BasisFunc variables
-int BasisFunc::nIdentifier = 0;
-std::vector<BasisFunc *> BasisFunc::BasisFuncContainer;
-
-// xlaWrapper function
-void xlaWrapper(void *out, void **in) {
-    int N = (reinterpret_cast<int *>(in[0]))[0];
-    BasisFunc::BasisFuncContainer[N]->xla(out, in);
-}
-
-#ifdef HAS_CUDA
-// xlaGpuWrapper function
-void xlaGpuWrapper(CUstream stream, void **buffers, const char *opaque, size_t opaque_len) {
-    int *N = new int[1];
-    N[0] = 0;
-    // cudaMemcpy(N,reinterpret_cast<int*>(buffers[6]),1*sizeof(int),cudaMemcpyDeviceToHost);
-    BasisFunc::BasisFuncContainer[*N]->xlaGpu(stream, buffers, opaque, opaque_len);
-    delete[] N;
-};
-#endif
-
-// Parent basis function class: **********************************************************************
-BasisFunc::BasisFunc(double x0in, double xf, const int *nCin, int ncDim0, int min, double z0in, double zf) {
-
-    // Initialize internal variables based on user givens
-    nC = new int[ncDim0];
-    memcpy(nC, nCin, ncDim0 * sizeof(int));
-    numC = ncDim0;
-
-    z0 = z0in;
-
-    m = min;
-    if (zf == DBL_MAX) {
-        c = 1.;
-        x0 = 0.;
-    } else {
-        x0 = x0in;
-        c = (zf - z0) / (xf - x0);
-    }
-
-    // Track this instance of BasisFunc
-    BasisFuncContainer.push_back(this);
-    identifier = nIdentifier;
-    nIdentifier++;
-
-    // Create a PyCapsule with xla function for XLA compilation
-    xlaCapsule = GetXlaCapsule();
-#ifdef HAS_CUDA
-    xlaGpuCapsule = GetXlaCapsuleGpu();
-#endif
-}
-
-BasisFunc::~BasisFunc() { delete[] nC; }
-
-void BasisFunc::H(const double *x, int n, const int d, int *nOut, int *mOut, double **F, bool full) {
-    *nOut = n;
-    *mOut = full ? m : m - numC;
-
-    int j, k;
-    double dMult = pow(c, d);
-    double *dark = new double[n * m];
-    double *z = new double[n];
-
-    for (k = 0; k < n; k++)
-        z[k] = (x[k] - x0) * c + z0;
-
-    *F = (double *)malloc((*mOut) * n * sizeof(double));
-    Hint(d, z, n, dark);
-
-    if (!full) {
-        int i = -1;
-        bool flag;
-        for (j = 0; j < m; j++) {
-            flag = false;
-            for (k = 0; k < numC; k++) {
-                if (j == nC[k]) {
-                    flag = true;
-                    break;
-                }
-            }
-            if (flag)
-                continue;
-            else
-                i++;
-            for (k = 0; k < n; k++)
-                (*F)[(*mOut) * k + i] = dark[m * k + j] * dMult;
-        }
-    } else {
-        for (j = 0; j < m; j++) {
-            for (k = 0; k < n; k++)
-                (*F)[m * k + j] = dark[m * k + j] * dMult;
-        }
-    }
-    delete[] dark;
-    delete[] z;
-}
-
-void BasisFunc::xla(void *out, void **in) {
-    double *out_buf = reinterpret_cast<double *>(out);
-    double *x = reinterpret_cast<double *>(in[1]);
-    int d = (reinterpret_cast<int *>(in[2]))[0];
-    bool full = (reinterpret_cast<bool *>(in[3]))[0];
-    int n = (reinterpret_cast<int *>(in[4]))[0];
-    int mOut = (reinterpret_cast<int *>(in[5]))[0];
-
-    int j, k;
-    double dMult = pow(c, d);
-    double *dark = new double[n * m];
-    double *z = new double[n];
-
-    for (k = 0; k < n; k++)
-        z[k] = (x[k] - x0) * c + z0;
-
-    Hint(d, z, n, dark);
-
-    if (!full) {
-        int i = -1;
-        bool flag;
-        for (j = 0; j < m; j++) {
-            flag = false;
-            for (k = 0; k < numC; k++) {
-                if (j == nC[k]) {
-                    flag = true;
-                    break;
-                }
-            }
-            if (flag)
-                continue;
-            else
-                i++;
-            for (k = 0; k < n; k++)
-                out_buf[mOut * k + i] = dark[m * k + j] * dMult;
-        }
-    } else {
-        for (j = 0; j < m; j++) {
-            for (k = 0; k < n; k++)
-                out_buf[m * k + j] = dark[m * k + j] * dMult;
-        }
-    }
-    delete[] dark;
-    delete[] z;
-}
-
-#ifdef HAS_CUDA
-void BasisFunc::xlaGpu(CUstream stream, void **buffers, const char *opaque, size_t opaque_len) {
-    printf("Not implemented yet!\n");
-};
-#endif
-
-PyObject *BasisFunc::GetXlaCapsule() {
-    xlaFnType xlaFnPtr = xlaWrapper;
-    const char *name = "xla._CUSTOM_CALL_TARGET";
-    PyObject *capsule;
-    capsule = PyCapsule_New(reinterpret_cast<void *>(xlaFnPtr), name, NULL);
-    return capsule;
-}
-
-#ifdef HAS_CUDA
-PyObject *BasisFunc::GetXlaCapsuleGpu() {
-    xlaGpuFnType xlaFnPtr = xlaGpuWrapper;
-    const char *name = "xla._CUSTOM_CALL_TARGET";
-    PyObject *capsule;
-    capsule = PyCapsule_New(reinterpret_cast<void *>(xlaFnPtr), name, NULL);
-    return capsule;
-};
-#endif
-
-// COP: **********************************************************************
-void CP::Hint(const int d, const double *x, const int nOut, double *dark) {
-
-    int j, k;
-    int deg = m - 1;
-    if (deg == 0) {
-        if (d > 0) {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 0.;
-        } else {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 1.;
-        }
-    } else if (deg == 1) {
-        if (d > 1) {
-            for (k = 0; k < m * nOut; k++)
-                dark[k] = 0.;
-        } else if (d > 0) {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 0.;
-                dark[m * k + 1] = 1.;
-            }
-        } else {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 1;
-                dark[m * k + 1] = x[k];
-            }
-        }
-    } else {
-        for (k = 0; k < nOut; k++) {
-            dark[m * k] = 1;
-            dark[m * k + 1] = x[k];
-        }
-        for (k = 2; k < m; k++) {
-            for (j = 0; j < nOut; j++)
-                dark[m * j + k] = 2. * x[j] * dark[m * j + k - 1] - dark[m * j + k - 2];
-        }
-        RecurseDeriv(d, 0, x, nOut, dark, m);
-    }
-    return;
-}
-
-void CP::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-    if (dCurr != d) {
-        int j, k;
-        double *dark = new double[mOut * nOut];
-        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
-        if (dCurr == 0) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k] = 0.;
-                F[mOut * k + 1] = 1.;
-            }
-        } else if (dCurr == 1) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k + 1] = 0.;
-            }
-        }
-        for (k = 2; k < mOut; k++) {
-            for (j = 0; j < nOut; j++)
-                F[mOut * j + k] =
-                    (2. + 2. * dCurr) * dark[mOut * j + k - 1] + 2. * x[j] * F[mOut * j + k - 1] - F[mOut * j + k - 2];
-        }
-        dCurr++;
-        delete[] dark;
-        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    }
-    return;
-}
-
-// LeP: **********************************************************************
-void LeP::Hint(const int d, const double *x, const int nOut, double *dark) {
-
-    int j, k;
-    int deg = m - 1;
-    if (deg == 0) {
-        if (d > 0) {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 0.;
-        } else {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 1.;
-        }
-    } else if (deg == 1) {
-        if (d > 1) {
-            for (k = 0; k < m * nOut; k++)
-                dark[k] = 0.;
-        } else if (d > 0) {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 0.;
-                dark[m * k + 1] = 1.;
-            }
-        } else {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 1;
-                dark[m * k + 1] = x[k];
-            }
-        }
-    } else {
-        for (k = 0; k < nOut; k++) {
-            dark[m * k] = 1;
-            dark[m * k + 1] = x[k];
-        }
-        for (k = 1; k < m - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                dark[m * j + k + 1] = ((2. * k + 1.) * x[j] * dark[m * j + k] - k * dark[m * j + k - 1]) / (k + 1.);
-        }
-        RecurseDeriv(d, 0, x, nOut, dark, m);
-    }
-    return;
-}
-
-void LeP::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-
-    if (dCurr != d) {
-        int j, k;
-        double *dark = new double[mOut * nOut];
-        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
-        if (dCurr == 0) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k] = 0.;
-                F[mOut * k + 1] = 1.;
-            }
-        } else if (dCurr == 1) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k + 1] = 0.;
-            }
-        }
-        for (k = 1; k < mOut - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                F[m * j + k + 1] =
-                    ((2. * k + 1.) * ((dCurr + 1.) * dark[m * j + k] + x[j] * F[m * j + k]) - k * F[m * j + k - 1]) /
-                    (k + 1.);
-        }
-        dCurr++;
-        delete[] dark;
-        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    }
-    return;
-}
-
-// LaP: **********************************************************************
-void LaP::Hint(const int d, const double *x, const int nOut, double *dark) {
-
-    int j, k;
-    int deg = m - 1;
-    if (deg == 0) {
-        if (d > 0) {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 0.;
-        } else {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 1.;
-        }
-    } else if (deg == 1) {
-        if (d > 1) {
-            for (k = 0; k < m * nOut; k++)
-                dark[k] = 0.;
-        } else if (d > 0) {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 0.;
-                dark[m * k + 1] = -1.;
-            }
-        } else {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 1.;
-                dark[m * k + 1] = 1. - x[k];
-            }
-        }
-    } else {
-        for (k = 0; k < nOut; k++) {
-            dark[m * k] = 1.;
-            dark[m * k + 1] = 1. - x[k];
-        }
-        for (k = 1; k < m - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                dark[m * j + k + 1] = ((2. * k + 1. - x[j]) * dark[m * j + k] - k * dark[m * j + k - 1]) / (k + 1.);
-        }
-        RecurseDeriv(d, 0, x, nOut, dark, m);
-    }
-    return;
-}
-
-void LaP::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-
-    if (dCurr != d) {
-        int j, k;
-        double *dark = new double[mOut * nOut];
-        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
-        if (dCurr == 0) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k] = 0.;
-                F[mOut * k + 1] = -1.;
-            }
-        } else if (dCurr == 1) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k + 1] = 0.;
-            }
-        }
-        for (k = 1; k < mOut - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                F[m * j + k + 1] =
-                    ((2. * k + 1. - x[j]) * F[m * j + k] - (dCurr + 1.) * dark[m * j + k] - k * F[m * j + k - 1]) /
-                    (k + 1.);
-        }
-        dCurr++;
-        delete[] dark;
-        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    }
-    return;
-}
-
-// HoPpro: **********************************************************************
-// Hermite polynomials, probablists
-void HoPpro::Hint(const int d, const double *x, const int nOut, double *dark) {
-
-    int j, k;
-    int deg = m - 1;
-    if (deg == 0) {
-        if (d > 0) {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 0.;
-        } else {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 1.;
-        }
-    } else if (deg == 1) {
-        if (d > 1) {
-            for (k = 0; k < m * nOut; k++)
-                dark[k] = 0.;
-        } else if (d > 0) {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 0.;
-                dark[m * k + 1] = 1.;
-            }
-        } else {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 1.;
-                dark[m * k + 1] = x[k];
-            }
-        }
-    } else {
-        for (k = 0; k < nOut; k++) {
-            dark[m * k] = 1.;
-            dark[m * k + 1] = x[k];
-        }
-        for (k = 1; k < m - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                dark[m * j + k + 1] = x[j] * dark[m * j + k] - k * dark[m * j + k - 1];
-        }
-        RecurseDeriv(d, 0, x, nOut, dark, m);
-    }
-    return;
-}
-
-void HoPpro::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-
-    if (dCurr != d) {
-        int j, k;
-        double *dark = new double[mOut * nOut];
-        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
-        if (dCurr == 0) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k] = 0.;
-                F[mOut * k + 1] = 1.;
-            }
-        } else if (dCurr == 1) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k + 1] = 0.;
-            }
-        }
-        for (k = 1; k < mOut - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                F[m * j + k + 1] = (dCurr + 1.) * dark[m * j + k] + x[j] * F[m * j + k] - k * F[m * j + k - 1];
-        }
-        dCurr++;
-        delete[] dark;
-        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    }
-    return;
-}
-
-// HoPphy: **********************************************************************
-// Hermite polynomials, physicists
-void HoPphy::Hint(const int d, const double *x, const int nOut, double *dark) {
-
-    int j, k;
-    int deg = m - 1;
-    if (deg == 0) {
-        if (d > 0) {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 0.;
-        } else {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 1.;
-        }
-    } else if (deg == 1) {
-        if (d > 1) {
-            for (k = 0; k < m * nOut; k++)
-                dark[k] = 0.;
-        } else if (d > 0) {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 0.;
-                dark[m * k + 1] = 2.;
-            }
-        } else {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 1.;
-                dark[m * k + 1] = 2. * x[k];
-            }
-        }
-    } else {
-        for (k = 0; k < nOut; k++) {
-            dark[m * k] = 1.;
-            dark[m * k + 1] = 2. * x[k];
-        }
-        for (k = 1; k < m - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                dark[m * j + k + 1] = 2. * x[j] * dark[m * j + k] - 2. * k * dark[m * j + k - 1];
-        }
-        RecurseDeriv(d, 0, x, nOut, dark, m);
-    }
-    return;
-}
-
-void HoPphy::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-
-    if (dCurr != d) {
-        int j, k;
-        double *dark = new double[mOut * nOut];
-        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
-        if (dCurr == 0) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k] = 0.;
-                F[mOut * k + 1] = 2.;
-            }
-        } else if (dCurr == 1) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k + 1] = 0.;
-            }
-        }
-        for (k = 1; k < mOut - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                F[m * j + k + 1] =
-                    2. * (dCurr + 1.) * dark[m * j + k] + 2. * x[j] * F[m * j + k] - 2. * k * F[m * j + k - 1];
-        }
-        dCurr++;
-        delete[] dark;
-        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    }
-    return;
-}
-
-// FS: **********************************************************************
-// Fourier Series
-void FS::Hint(const int d, const double *x, const int nOut, double *dark) {
-
-    int j, k, g;
-    if (d == 0) {
-        for (k = 0; k < nOut; k++)
-            dark[m * k] = 1;
-        for (j = 1; j < m; j++) {
-            for (k = 0; k < nOut; k++) {
-                g = ceil(j / 2.);
-                if (j % 2 == 0) {
-                    dark[m * k + j] = cos(g * x[k]);
-                } else {
-                    dark[m * k + j] = sin(g * x[k]);
-                }
-            }
-        }
-    } else {
-        for (k = 0; k < nOut; k++)
-            dark[m * k] = 0;
-        if (d % 4 == 0) {
-            for (j = 1; j < m; j++) {
-                for (k = 0; k < nOut; k++) {
-                    g = ceil(j / 2.);
-                    if (j % 2 == 0) {
-                        dark[m * k + j] = pow(g, d) * cos(g * x[k]);
-                    } else {
-                        dark[m * k + j] = pow(g, d) * sin(g * x[k]);
-                    }
-                }
-            }
-        } else if (d % 4 == 1) {
-            for (j = 1; j < m; j++) {
-                for (k = 0; k < nOut; k++) {
-                    g = ceil(j / 2.);
-                    if (j % 2 == 0) {
-                        dark[m * k + j] = -pow(g, d) * sin(g * x[k]);
-                    } else {
-                        dark[m * k + j] = pow(g, d) * cos(g * x[k]);
-                    }
-                }
-            }
-        } else if (d % 4 == 2) {
-            for (j = 1; j < m; j++) {
-                for (k = 0; k < nOut; k++) {
-                    g = ceil(j / 2.);
-                    if (j % 2 == 0) {
-                        dark[m * k + j] = -pow(g, d) * cos(g * x[k]);
-                    } else {
-                        dark[m * k + j] = -pow(g, d) * sin(g * x[k]);
-                    }
-                }
-            }
-        } else {
-            for (j = 1; j < m; j++) {
-                for (k = 0; k < nOut; k++) {
-                    g = ceil(j / 2.);
-                    if (j % 2 == 0) {
-                        dark[m * k + j] = pow(g, d) * sin(g * x[k]);
-                    } else {
-                        dark[m * k + j] = -pow(g, d) * cos(g * x[k]);
-                    }
-                }
-            }
-        }
-    }
-    return;
-}
-
-// ELM: **********************************************************************
-// ELM base class
-ELM::ELM(double x0, double xf, const int *nCin, int ncDim0, int min)
-    : BasisFunc(x0, xf, nCin, ncDim0, min, 0., 1.) {
-
-    int k;
-    w = new double[m];
-    b = new double[m];
-
-    for (k = 0; k < m; k++) {
-        w[k] = 20. * ((double)rand() / (double)RAND_MAX) - 10.;
-        b[k] = 20. * ((double)rand() / (double)RAND_MAX) - 10.;
-    }
-}
-
-ELM::~ELM() {
-    delete[] b;
-    delete[] w;
-}
-
-void ELM::setW(const double *arrIn, int nIn) {
-    if (nIn != m) {
-        printf("Failure in setW function. Weight vector is the wrong size. Exiting program.\n");
-        exit(EXIT_FAILURE);
-    }
-    for (int k = 0; k < m; k++)
-        w[k] = arrIn[k];
-}
-
-void ELM::setB(const double *arrIn, int nIn) {
-    if (nIn != m) {
-        printf("Failure in setB function. Bias vector is the wrong size. Exiting program.\n");
-        exit(EXIT_FAILURE);
-    }
-    for (int k = 0; k < m; k++)
-        b[k] = arrIn[k];
-}
-
-void ELM::getW(double **arrOut, int *nOut) {
-    *nOut = m;
-    *arrOut = (double *)malloc(m * sizeof(double));
-    for (int k = 0; k < m; k++)
-        (*arrOut)[k] = w[k];
-    return;
-}
-
-void ELM::getB(double **arrOut, int *nOut) {
-    *nOut = m;
-    *arrOut = (double *)malloc(m * sizeof(double));
-    for (int k = 0; k < m; k++)
-        (*arrOut)[k] = b[k];
-    return;
-}
-
-// ELM ReLU: **********************************************************************
-void ELMReLU::Hint(const int d, const double *x, const int nOut, double *dark) {
-    int j, k;
-
-    if (d == 0) {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                dark[m * j + k] = std::max(0., w[k] * x[j] + b[k]);
-            }
-        }
-    } else if (d == 1) {
-        double dark1;
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                dark1 = w[k] * x[j] + b[k];
-                if (dark1 <= 0.) {
-                    dark[m * j + k] = 0.;
-                } else {
-                    dark[m * j + k] = w[k];
-                }
-            }
-        }
-    } else {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                dark[m * j + k] = 0.;
-            }
-        }
-    }
-    return;
-}
-
-// ELM Sigmoid: **********************************************************************
-void ELMSigmoid::Hint(const int d, const double *x, const int nOut, double *dark) {
-    int j, k;
-
-    for (j = 0; j < nOut; j++) {
-        for (k = 0; k < m; k++)
-            dark[m * j + k] = 1. / (1. + exp(-w[k] * x[j] - b[k]));
-    }
-
-    switch (d) {
-    case 0: {
-        break;
-    }
-    case 1: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = w[k] * (dark[m * j + k] - pow(dark[m * j + k], 2));
-        }
-        break;
-    }
-    case 2: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] =
-                    pow(w[k], 2) * (dark[m * j + k] - 3. * pow(dark[m * j + k], 2) + 2. * pow(dark[m * j + k], 3));
-        }
-        break;
-    }
-    case 3: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 3) * (dark[m * j + k] - 7. * pow(dark[m * j + k], 2) +
-                                                  12. * pow(dark[m * j + k], 3) - 6. * pow(dark[m * j + k], 4));
-        }
-        break;
-    }
-    case 4: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] =
-                    pow(w[k], 4) * (dark[m * j + k] - 15. * pow(dark[m * j + k], 2) + 50. * pow(dark[m * j + k], 3) -
-                                    60. * pow(dark[m * j + k], 4) + 24. * pow(dark[m * j + k], 5));
-        }
-        break;
-    }
-    case 5: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 5) * (dark[m * j + k] - 31. * pow(dark[m * j + k], 2) +
-                                                  180. * pow(dark[m * j + k], 3) - 390. * pow(dark[m * j + k], 4) +
-                                                  360. * pow(dark[m * j + k], 5) - 120. * pow(dark[m * j + k], 6));
-        }
-        break;
-    }
-    case 6: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] =
-                    pow(w[k], 6) * (dark[m * j + k] - 63. * pow(dark[m * j + k], 2) + 602. * pow(dark[m * j + k], 3) -
-                                    2100. * pow(dark[m * j + k], 4) + 3360. * pow(dark[m * j + k], 5) -
-                                    2520. * pow(dark[m * j + k], 6) + 720. * pow(dark[m * j + k], 7));
-        }
-        break;
-    }
-    case 7: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 7) * (dark[m * j + k] - 127. * pow(dark[m * j + k], 2) +
-                                                  1932. * pow(dark[m * j + k], 3) - 10206. * pow(dark[m * j + k], 4) +
-                                                  25200. * pow(dark[m * j + k], 5) - 31920. * pow(dark[m * j + k], 6) +
-                                                  20160. * pow(dark[m * j + k], 7) - 5040. * pow(dark[m * j + k], 8));
-        }
-        break;
-    }
-    case 8: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] =
-                    pow(w[k], 8) * (dark[m * j + k] - 255. * pow(dark[m * j + k], 2) + 6050. * pow(dark[m * j + k], 3) -
-                                    46620. * pow(dark[m * j + k], 4) + 166824. * pow(dark[m * j + k], 5) -
-                                    317520. * pow(dark[m * j + k], 6) + 332640. * pow(dark[m * j + k], 7) -
-                                    181440. * pow(dark[m * j + k], 8) + 40320. * pow(dark[m * j + k], 9));
-        }
-        break;
-    }
-    }
-    return;
-}
-
-// ELM Tanh: **********************************************************************
-
-void ELMTanh::Hint(const int d, const double *x, const int nOut, double *dark) {
-    int j, k;
-
-    for (j = 0; j < nOut; j++) {
-        for (k = 0; k < m; k++)
-            dark[m * j + k] = tanh(w[k] * x[j] + b[k]);
-    }
-
-    switch (d) {
-    case 0: {
-        break;
-    }
-    case 1: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = w[k] * (1. - pow(dark[m * j + k], 2));
-        }
-        break;
-    }
-    case 2: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 2) * (-2. * dark[m * j + k] + 2. * pow(dark[m * j + k], 3));
-        }
-        break;
-    }
-    case 3: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 3) * (-2. + 8. * pow(dark[m * j + k], 2) - 6. * pow(dark[m * j + k], 4));
-        }
-        break;
-    }
-    case 4: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 4) * (16. * dark[m * j + k] - 40. * pow(dark[m * j + k], 3) +
-                                                  24. * pow(dark[m * j + k], 5));
-        }
-        break;
-    }
-    case 5: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 5) * (16. - 136. * pow(dark[m * j + k], 2) +
-                                                  240. * pow(dark[m * j + k], 4) - 120. * pow(dark[m * j + k], 6));
-        }
-        break;
-    }
-    case 6: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 6) * (-272. * dark[m * j + k] + 1232. * pow(dark[m * j + k], 3) -
-                                                  1680. * pow(dark[m * j + k], 5) + 720. * pow(dark[m * j + k], 7));
-        }
-        break;
-    }
-    case 7: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] =
-                    pow(w[k], 7) * (-272. + 3968. * pow(dark[m * j + k], 2) - 12096. * pow(dark[m * j + k], 4) +
-                                    13440. * pow(dark[m * j + k], 6) - 5040. * pow(dark[m * j + k], 8));
-        }
-        break;
-    }
-    case 8: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 8) * (7936. * dark[m * j + k] - 56320. * pow(dark[m * j + k], 3) +
-                                                  129024. * pow(dark[m * j + k], 5) -
-                                                  120960. * pow(dark[m * j + k], 7) + 40320. * pow(dark[m * j + k], 9));
-        }
-        break;
-    }
-    }
-    return;
-}
-
-// ELM Sin: **********************************************************************
-
-void ELMSin::Hint(const int d, const double *x, const int nOut, double *dark) {
-    int j, k;
-
-    if (d % 4 == 0) {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                dark[m * j + k] = pow(w[k], d) * sin(w[k] * x[j] + b[k]);
-            }
-        }
-    } else if (d % 4 == 1) {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                dark[m * j + k] = pow(w[k], d) * cos(w[k] * x[j] + b[k]);
-            }
-        }
-    } else if (d % 4 == 2) {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                dark[m * j + k] = -pow(w[k], d) * sin(w[k] * x[j] + b[k]);
-            }
-        }
-    } else {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                dark[m * j + k] = -pow(w[k], d) * cos(w[k] * x[j] + b[k]);
-            }
-        }
-    }
-    return;
-}
-
-// ELM Swish: **********************************************************************
-
-void ELMSwish::Hint(const int d, const double *x, const int nOut, double *dark) {
-    int j, k;
-    double *sig = new double[nOut * m];
-    double *zint = new double[nOut * m];
-
-    if (d == 0) {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = (w[k] * x[j] + b[k]) * 1. / (1. + exp(-w[k] * x[j] - b[k]));
-        }
-
-    } else {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                zint[m * j + k] = w[k] * x[j] + b[k];
-                sig[m * j + k] = 1. / (1. + exp(-zint[m * j + k]));
-            }
-        }
-        switch (d) {
-        case 1: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-                    dark[m * j + k] =
-                        w[k] * (sig[m * j + k] + zint[m * j + k] * (sig[m * j + k] - pow(sig[m * j + k], 2)));
-            }
-            break;
-        }
-        case 2: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-                    dark[m * j + k] = pow(w[k], 2) * (2. * (sig[m * j + k] - pow(sig[m * j + k], 2)) +
-                                                      zint[m * j + k] * (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) +
-                                                                         2. * pow(sig[m * j + k], 3)));
-            }
-            break;
-        }
-        case 3: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-                    dark[m * j + k] =
-                        pow(w[k], 3) *
-                        (3. * (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) + 2. * pow(sig[m * j + k], 3)) +
-                         zint[m * j + k] * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) +
-                                            12. * pow(sig[m * j + k], 3) - 6. * pow(sig[m * j + k], 4)));
-            }
-            break;
-        }
-        case 4: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-                    dark[m * j + k] =
-                        pow(w[k], 4) * (4. * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) +
-                                              12. * pow(sig[m * j + k], 3) - 6. * pow(sig[m * j + k], 4)) +
-                                        zint[m * j + k] * (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) +
-                                                           50. * pow(sig[m * j + k], 3) - 60. * pow(sig[m * j + k], 4) +
-                                                           24. * pow(sig[m * j + k], 5)));
-            }
-            break;
-        }
-        case 5: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-
-                    dark[m * j + k] =
-                        pow(w[k], 5) *
-                        (5. * (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) + 50. * pow(sig[m * j + k], 3) -
-                               60. * pow(sig[m * j + k], 4) + 24. * pow(sig[m * j + k], 5)) +
-                         zint[m * j + k] * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) +
-                                            180. * pow(sig[m * j + k], 3) - 390. * pow(sig[m * j + k], 4) +
-                                            360. * pow(sig[m * j + k], 5) - 120. * pow(sig[m * j + k], 6)));
-            }
-            break;
-        }
-        case 6: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-                    dark[m * j + k] =
-                        pow(w[k], 6) *
-                        (6. * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) + 180. * pow(sig[m * j + k], 3) -
-                               390. * pow(sig[m * j + k], 4) + 360. * pow(sig[m * j + k], 5) -
-                               120. * pow(sig[m * j + k], 6)) +
-                         zint[m * j + k] *
-                             (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
-                              2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
-                              2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)));
-            }
-            break;
-        }
-        case 7: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-                    dark[m * j + k] =
-                        pow(w[k], 7) *
-                        (7. * (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
-                               2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
-                               2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)) +
-                         zint[m * j + k] * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) +
-                                            1932. * pow(sig[m * j + k], 3) - 10206. * pow(sig[m * j + k], 4) +
-                                            25200. * pow(sig[m * j + k], 5) - 31920. * pow(sig[m * j + k], 6) +
-                                            20160. * pow(sig[m * j + k], 7) - 5040. * pow(sig[m * j + k], 8)));
-            }
-            break;
-        }
-        case 8: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-                    dark[m * j + k] =
-                        pow(w[k], 8) *
-                        (8. * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) + 1932. * pow(sig[m * j + k], 3) -
-                               10206. * pow(sig[m * j + k], 4) + 25200. * pow(sig[m * j + k], 5) -
-                               31920. * pow(sig[m * j + k], 6) + 20160. * pow(sig[m * j + k], 7) -
-                               5040. * pow(sig[m * j + k], 8)) +
-                         zint[m * j + k] *
-                             (sig[m * j + k] - 255. * pow(sig[m * j + k], 2) + 6050. * pow(sig[m * j + k], 3) -
-                              46620. * pow(sig[m * j + k], 4) + 166824. * pow(sig[m * j + k], 5) -
-                              317520. * pow(sig[m * j + k], 6) + 332640. * pow(sig[m * j + k], 7) -
-                              181440. * pow(sig[m * j + k], 8) + 40320. * pow(sig[m * j + k], 9)));
-            }
-            break;
-        }
-        }
-    }
-
-    delete[] sig;
-    delete[] zint;
-
-    return;
-}
-
-// Parent n-dimensional basis function class: **********************************************************************
-nBasisFunc::nBasisFunc(const double *x0in,
-                       int x0Dim0,
-                       const double *xf,
-                       int /*xfDim0*/,
-                       const int *nCin,
-                       int ncDim0,
-                       int ncDim1,
-                       int min,
-                       double z0in,
-                       double zfin) {
-
-    // Initialize internal variables based on user givens
-    dim = x0Dim0;
-    m = min;
-    numC = ncDim1;
-    z0 = z0in;
-    zf = zfin;
-
-    x0 = new double[dim];
-    memcpy(x0, x0in, dim * sizeof(double));
-
-    nC = new int[dim * numC];
-    memcpy(nC, nCin, ncDim0 * ncDim1 * sizeof(int));
-
-    c = new double[dim];
-    for (int k = 0; k < dim; k++)
-        c[k] = (zf - z0) / (xf[k] - x0[k]);
-
-    // Calculate the number of basis functions
-    numBasisFunc = 0;
-    numBasisFuncFull = 0;
-
-    int *vec = new int[dim];
-
-    NumBasisFunc(dim - 1, &vec[0], numBasisFunc, false);
-    NumBasisFunc(dim - 1, &vec[0], numBasisFuncFull, true);
-
-    delete[] vec;
-
-    // Track this instance of BasisFunc
-    BasisFuncContainer.push_back(this);
-    identifier = nIdentifier;
-    nIdentifier++;
-
-    // Create a PyCapsule with xla function for XLA compilation
-    xlaCapsule = GetXlaCapsule();
-#ifdef HAS_CUDA
-    xlaGpuCapsule = GetXlaCapsuleGpu();
-#endif
-}
-
-nBasisFunc::~nBasisFunc() { delete[] c; }
-
-void nBasisFunc::getC(double **arrOut, int *nOut) {
-    *nOut = dim;
-    *arrOut = (double *)malloc(dim * sizeof(double));
-    for (int k = 0; k < dim; k++)
-        (*arrOut)[k] = c[k];
-    return;
-}
-
-void nBasisFunc::H(const double *x,
-                   int /*in*/,
-                   int xDim1,
-                   const int *d,
-                   int dDim0,
-                   int *nOut,
-                   int *mOut,
-                   double **F,
-                   const bool full) {
-    int numBasis = full ? numBasisFuncFull : numBasisFunc;
-    *mOut = numBasis;
-    *nOut = xDim1;
-    *F = (double *)malloc(numBasis * xDim1 * sizeof(double));
-    nHint(x, xDim1, d, dDim0, numBasis, *F, full);
-}
-
-void nBasisFunc::H(const double *, int, const int, int *, int *, double **, bool) {
-    throw std::runtime_error("This version of \"H\" should never be called from an n-dimensional basis class.");
-}
-
-void nBasisFunc::xla(void *out, void **in) {
-    double *out_buf = reinterpret_cast<double *>(out);
-    double *x = reinterpret_cast<double *>(in[1]);
-    int *d = reinterpret_cast<int *>(in[2]);
-    int dDim0 = (reinterpret_cast<int *>(in[3]))[0];
-    bool full = (reinterpret_cast<bool *>(in[4]))[0];
-    int nOut = (reinterpret_cast<int *>(in[5]))[0];
-    int mOut = (reinterpret_cast<int *>(in[6]))[0];
-
-    nHint(x, nOut, d, dDim0, mOut, out_buf, full);
-}
-
-void nBasisFunc::nHint(const double *x, int n, const int *d, int dDim0, int numBasis, double *&F, const bool full) {
-
-    int j, k;
-    double *dark = new double[n * m];
-    double *T = new double[n * m * dim];
-    double *z = new double[n * dim];
-    double dMult;
-
-    // Calculate the basis function domain points
-    for (j = 0; j < dim; j++) {
-        for (k = 0; k < n; k++)
-            z[j * n + k] = (x[j * n + k] - x0[j]) * c[j] + z0;
-    }
-
-    // Calculate univariate basis functions
-    for (k = 0; k < dim; k++) {
-        if (k >= dDim0) {
-            Hint(0, z + k * n, n, dark);
-            dMult = 1.;
-        } else {
-            Hint(d[k], z + k * n, n, dark);
-            dMult = pow(c[k], d[k]);
-        }
-        for (j = 0; j < n * m; j++)
-            T[j + k * m * n] = dark[j] * dMult;
-    }
-
-    for (k = 0; k < n * numBasis; k++)
-        F[k] = 1.;
-
-    int count = 0;
-
-    int *vec = new int[dim];
-
-    RecurseBasis(dim - 1, vec, count, full, n, numBasis, &T[0], F);
-
-    delete[] vec;
-    delete[] dark;
-    delete[] T;
-    delete[] z;
-}
-
-void nBasisFunc::NumBasisFunc(int dimCurr, int *vec, int &count, const bool full) {
-    int k;
-    if (dimCurr > 0) {
-        for (k = 0; k < m; k++) {
-            vec[dimCurr] = k;
-            NumBasisFunc(dimCurr - 1, vec, count, full);
-        }
-    } else {
-        int j, g;
-        int sum;
-        bool flag, flag1;
-        for (k = 0; k < m; k++) {
-            vec[dimCurr] = k;
-            flag = false;
-            sum = 0;
-            if (full) {
-                for (j = 0; j < dim; j++)
-                    sum += vec[j];
-                if (sum <= m - 1)
-                    count++;
-            } else {
-
-                // If at least one of the dimensions' basis functions is not a constraint, then
-                // set flag = true
-                for (j = 0; j < dim; j++) {
-                    flag1 = true;
-                    for (g = 0; g < numC; g++) {
-                        if (vec[j] == nC[j * numC + g]) {
-                            flag1 = false;
-                            break;
-                        }
-                    }
-                    if (flag1)
-                        flag = true;
-                }
-
-                // If flag is true and the degree of the product of univariate basis
-                // functions is less than the degree specified, add one to count
-                if (flag) {
-                    for (j = 0; j < dim; j++)
-                        sum += vec[j];
-                    if (sum <= m - 1)
-                        count++;
-                }
-            }
-        }
-    }
-    return;
-}
-
-void nBasisFunc::RecurseBasis(int dimCurr,
-                              int *vec,
-                              int &count,
-                              const bool full,
-                              const int in,
-                              const int numBasis,
-                              const double *T,
-                              double *out) {
-    int k;
-    if (dimCurr > 0) {
-        for (k = 0; k < m; k++) {
-            vec[dimCurr] = k;
-            RecurseBasis(dimCurr - 1, vec, count, full, in, numBasis, T, out);
-        }
-    } else {
-        int j, g, h, l;
-        int sum;
-        bool flag, flag1;
-        for (k = 0; k < m; k++) {
-            vec[dimCurr] = k;
-            flag = false;
-            sum = 0;
-            if (full) {
-                for (j = 0; j < dim; j++)
-                    sum += vec[j];
-                if (sum <= m - 1) {
-                    for (h = 0; h < in; h++) {
-                        for (l = 0; l < dim; l++)
-                            out[h * numBasis + count] *= T[m * in * l + vec[l] + h * m];
-                    }
-                    count++;
-                }
-            } else {
-
-                // If at least one of the dimensions' basis functions is not a constraint, then
-                // set flag = true
-                for (j = 0; j < dim; j++) {
-                    flag1 = true;
-                    for (g = 0; g < numC; g++) {
-                        if (vec[j] == nC[j * numC + g]) {
-                            flag1 = false;
-                            break;
-                        }
-                    }
-                    if (flag1)
-                        flag = true;
-                }
-
-                // If flag is true and the degree of the product of univariate basis
-                // functions is less than the degree specified, add one to count
-                if (flag) {
-                    for (j = 0; j < dim; j++)
-                        sum += vec[j];
-                    if (sum <= m - 1) {
-                        for (h = 0; h < in; h++) {
-                            for (l = 0; l < dim; l++)
-                                out[h * numBasis + count] *= T[m * in * l + vec[l] + h * m];
-                        }
-                        count++;
-                    }
-                }
-            }
-        }
-    }
-    return;
-}
-
-// nELM base class: ***********************************************************************************
-nELM::nELM(const double *x0in,
-           int x0Dim0,
-           const double *xf,
-           int /*xfDim0*/,
-           const int *nCin,
-           int ncDim0,
-           int min,
-           double z0in,
-           double zfin) {
-
-    int k;
-    bool flag = true;
-
-    // Initialize internal variables based on user givens
-    dim = x0Dim0;
-    m = min;
-    numC = ncDim0;
-    z0 = z0in;
-    zf = zfin;
-
-    x0 = new double[dim];
-    memcpy(x0, x0in, dim * sizeof(double));
-
-    nC = new int[dim * numC];
-    memcpy(nC, nCin, ncDim0 * sizeof(int));
-
-    c = new double[dim];
-    for (k = 0; k < dim; k++)
-        c[k] = (zf - z0) / (xf[k] - x0[k]);
-
-    for (k = 0; k < ncDim0; k++) {
-        if (nC[k] != -1) {
-            flag = false;
-        }
-    }
-    if (flag)
-        numC = 0;
-
-    m = min;
-
-    // Calculate the number of basis functions
-    numBasisFunc = m - numC;
-    numBasisFuncFull = m;
-
-    // Track this instance of BasisFunc
-    BasisFuncContainer.push_back(this);
-    identifier = nIdentifier;
-    nIdentifier++;
-
-    // Create a PyCapsule with xla function for XLA compilation
-    xlaCapsule = GetXlaCapsule();
-#ifdef HAS_CUDA
-    xlaGpuCapsule = GetXlaCapsuleGpu();
-#endif
-
-    w = new double[dim * m];
-    b = new double[m];
-    for (k = 0; k < dim * m; k++)
-        w[k] = 2. * ((double)rand() / (double)RAND_MAX) - 1.;
-    for (k = 0; k < m; k++)
-        b[k] = 2. * ((double)rand() / (double)RAND_MAX) - 1.;
-}
-
-nELM::~nELM() {
-    delete[] b;
-    delete[] w;
-}
-
-void nELM::setW(const double *arrIn, int dimIn, int nIn) {
-    if ((nIn != m) || (dimIn != dim)) {
-        printf("Failure in setW function. Weight vector is the wrong size. Exiting program.\n");
-        exit(EXIT_FAILURE);
-    }
-    for (int k = 0; k < m * dim; k++)
-        w[k] = arrIn[k];
-}
-
-void nELM::setB(const double *arrIn, int nIn) {
-    if (nIn != m) {
-        printf("Failure in setB function. Bias vector is the wrong size. Exiting program.\n");
-        exit(EXIT_FAILURE);
-    }
-    for (int k = 0; k < m; k++)
-        b[k] = arrIn[k];
-}
-
-void nELM::getW(int *dimOut, int *nOut, double **arrOut) {
-    *dimOut = dim;
-    *nOut = m;
-    *arrOut = (double *)malloc(m * dim * sizeof(double));
-    for (int k = 0; k < m * dim; k++)
-        (*arrOut)[k] = w[k];
-    return;
-}
-
-void nELM::getB(double **arrOut, int *nOut) {
-    *nOut = m;
-    *arrOut = (double *)malloc(m * sizeof(double));
-    for (int k = 0; k < m; k++)
-        (*arrOut)[k] = b[k];
-    return;
-}
-
-void nELM::nHint(const double *x, int n, const int *d, int dDim0, int numBasis, double *&F, const bool full) {
-
-    int j, k;
-    double *z = new double[n * dim];
-
-    // Calculate the basis function domain points
-    for (j = 0; j < dim; j++) {
-        for (k = 0; k < n; k++)
-            z[j * n + k] = (x[j * n + k] - x0[j]) * c[j] + z0;
-    }
-
-    if ((numC == 0) || (full)) {
-        nElmHint(d, dDim0, z, n, F);
-    } else {
-        int i = -1;
-        bool flag;
-        double *dark = new double[m * n]; // Allocated on the heap, as allocating on the stack frequently causes
-                                          // segfaults due to size. - CL
-        nElmHint(d, dDim0, z, n, dark);
-
-        for (j = 0; j < m; j++) {
-            flag = false;
-            for (k = 0; k < numC; k++) {
-                if (j == nC[k]) {
-                    flag = true;
-                    break;
-                }
-            }
-            if (flag)
-                continue;
-            else
-                i++;
-            for (k = 0; k < n; k++)
-                F[numBasis * k + i] = dark[m * k + j];
-        }
-
-        delete[] dark;
-    }
-    delete[] z;
-}
-
-// nELM Sigmoid *******************************************************************************************
-void nELMSigmoid::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
-
-    int i, j, k;
-    double dark, dark2 = 1.;
-    int dark1 = 0;
-    for (j = 0; j < in; j++) {
-        for (k = 0; k < m; k++) {
-            dark = 0.;
-            for (i = 0; i < dim; i++)
-                dark += w[i * m + k] * x[i * in + j];
-            F[m * j + k] = 1. / (1. + exp(-dark - b[k]));
-        }
-    }
-
-    for (i = 0; i < dDim0; i++) {
-        dark1 += d[i];
-        dark2 *= pow(c[i], d[i]);
-    }
-
-    switch (dark1) {
-    case 0: {
-        break;
-    }
-    case 1: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark * (F[m * j + k] - pow(F[m * j + k], 2));
-            }
-        }
-        break;
-    }
-    case 2: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark * (F[m * j + k] - 3. * pow(F[m * j + k], 2) + 2. * pow(F[m * j + k], 3));
-            }
-        }
-        break;
-    }
-    case 3: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] =
-                    dark2 * dark *
-                    (F[m * j + k] - 7. * pow(F[m * j + k], 2) + 12. * pow(F[m * j + k], 3) - 6. * pow(F[m * j + k], 4));
-            }
-        }
-        break;
-    }
-    case 4: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark *
-                               (F[m * j + k] - 15. * pow(F[m * j + k], 2) + 50. * pow(F[m * j + k], 3) -
-                                60. * pow(F[m * j + k], 4) + 24. * pow(F[m * j + k], 5));
-            }
-        }
-        break;
-    }
-    case 5: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] =
-                    dark2 * dark *
-                    (F[m * j + k] - 31. * pow(F[m * j + k], 2) + 180. * pow(F[m * j + k], 3) -
-                     390. * pow(F[m * j + k], 4) + 360. * pow(F[m * j + k], 5) - 120. * pow(F[m * j + k], 6));
-            }
-        }
-        break;
-    }
-    case 6: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark *
-                               (F[m * j + k] - 63. * pow(F[m * j + k], 2) + 602. * pow(F[m * j + k], 3) -
-                                2100. * pow(F[m * j + k], 4) + 3360. * pow(F[m * j + k], 5) -
-                                2520. * pow(F[m * j + k], 6) + 720. * pow(F[m * j + k], 7));
-            }
-        }
-        break;
-    }
-    case 7: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] =
-                    dark2 * dark *
-                    (F[m * j + k] - 127. * pow(F[m * j + k], 2) + 1932. * pow(F[m * j + k], 3) -
-                     10206. * pow(F[m * j + k], 4) + 25200. * pow(F[m * j + k], 5) - 31920. * pow(F[m * j + k], 6) +
-                     20160. * pow(F[m * j + k], 7) - 5040. * pow(F[m * j + k], 8));
-            }
-        }
-        break;
-    }
-    case 8: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] =
-                    dark2 * dark *
-                    (F[m * j + k] - 255. * pow(F[m * j + k], 2) + 6050. * pow(F[m * j + k], 3) -
-                     46620. * pow(F[m * j + k], 4) + 166824. * pow(F[m * j + k], 5) - 317520. * pow(F[m * j + k], 6) +
-                     332640. * pow(F[m * j + k], 7) - 181440. * pow(F[m * j + k], 8) + 40320. * pow(F[m * j + k], 9));
-            }
-        }
-        break;
-    }
-    }
-    return;
-}
-
-// nELM Tanh *******************************************************************************************
-void nELMTanh::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
-
-    int i, j, k;
-    double dark, dark2 = 1.;
-    int dark1 = 0;
-    for (j = 0; j < in; j++) {
-        for (k = 0; k < m; k++) {
-            dark = 0.;
-            for (i = 0; i < dim; i++)
-                dark += w[i * m + k] * x[i * in + j];
-            F[m * j + k] = tanh(dark + b[k]);
-        }
-    }
-    for (i = 0; i < dDim0; i++) {
-        dark1 += d[i];
-        dark2 *= pow(c[i], d[i]);
-    }
-
-    switch (dark1) {
-    case 0: {
-        break;
-    }
-    case 1: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark * (1. - pow(F[m * j + k], 2));
-            }
-        }
-        break;
-    }
-    case 2: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark * (-2. * F[m * j + k] + 2. * pow(F[m * j + k], 3));
-            }
-        }
-        break;
-    }
-    case 3: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark * (-2. + 8. * pow(F[m * j + k], 2) - 6. * pow(F[m * j + k], 4));
-            }
-        }
-        break;
-    }
-    case 4: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] =
-                    dark2 * dark * (16. * F[m * j + k] - 40. * pow(F[m * j + k], 3) + 24. * pow(F[m * j + k], 5));
-            }
-        }
-        break;
-    }
-    case 5: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] =
-                    dark2 * dark *
-                    (16. - 136. * pow(F[m * j + k], 2) + 240. * pow(F[m * j + k], 4) - 120. * pow(F[m * j + k], 6));
-            }
-        }
-        break;
-    }
-    case 6: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark *
-                               (-272. * F[m * j + k] + 1232. * pow(F[m * j + k], 3) - 1680. * pow(F[m * j + k], 5) +
-                                720. * pow(F[m * j + k], 7));
-            }
-        }
-        break;
-    }
-    case 7: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark *
-                               (-272. + 3968. * pow(F[m * j + k], 2) - 12096. * pow(F[m * j + k], 4) +
-                                13440. * pow(F[m * j + k], 6) - 5040. * pow(F[m * j + k], 8));
-            }
-        }
-        break;
-    }
-    case 8: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark *
-                               (7936. * F[m * j + k] - 56320. * pow(F[m * j + k], 3) + 129024. * pow(F[m * j + k], 5) -
-                                120960. * pow(F[m * j + k], 7) + 40320. * pow(F[m * j + k], 9));
-            }
-        }
-        break;
-    }
-    }
-    return;
-}
-
-// nELM Sin *******************************************************************************************
-void nELMSin::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
-
-    int i, j, k;
-    double dark, darkw, dark2 = 1.;
-    int dark1 = 0;
-
-    for (i = 0; i < dDim0; i++) {
-        dark1 += d[i];
-        dark2 *= pow(c[i], d[i]);
-    }
-
-    if (dark1 % 4 == 0) {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                darkw = 0.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                for (i = 0; i < dim; i++)
-                    darkw += w[i * m + k] * x[i * in + j];
-                F[m * j + k] = dark2 * dark * sin(darkw + b[k]);
-            }
-        }
-    } else if (dark1 % 4 == 1) {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                darkw = 0.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                for (i = 0; i < dim; i++)
-                    darkw += w[i * m + k] * x[i * in + j];
-                F[m * j + k] = dark2 * dark * cos(darkw + b[k]);
-            }
-        }
-    } else if (dark1 % 4 == 2) {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                darkw = 0.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                for (i = 0; i < dim; i++)
-                    darkw += w[i * m + k] * x[i * in + j];
-                F[m * j + k] = -dark2 * dark * sin(darkw + b[k]);
-            }
-        }
-    } else {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                darkw = 0.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                for (i = 0; i < dim; i++)
-                    darkw += w[i * m + k] * x[i * in + j];
-                F[m * j + k] = -dark2 * dark * cos(darkw + b[k]);
-            }
-        }
-    }
-    return;
-}
-
-// nELM Swish *******************************************************************************************
-void nELMSwish::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
-
-    int i, j, k;
-    int dark1 = 0;
-    double dark, dark2 = 1.;
-    double *sig = new double[in * m];  // Allocated on the heap, as allocating on the stack frequently causes segfaults
-                                       // due to size. - CL
-    double *zint = new double[in * m]; // Allocated on the heap, as allocating on the stack frequently causes segfaults
-                                       // due to size. - CL
-    for (i = 0; i < dDim0; i++) {
-        dark1 += d[i];
-        dark2 *= pow(c[i], d[i]);
-    }
-
-    if (dark1 == 0) {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 0.;
-                for (i = 0; i < dim; i++)
-                    dark += w[i * m + k] * x[i * in + j];
-                F[m * j + k] = (dark + b[k]) * 1. / (1. + exp(-dark - b[k]));
-            }
-        }
-
-    } else {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 0.;
-                for (i = 0; i < dim; i++)
-                    dark += w[i * m + k] * x[i * in + j];
-                zint[m * j + k] = dark + b[k];
-                sig[m * j + k] = 1. / (1. + exp(-zint[m * j + k]));
-            }
-        }
-
-        switch (dark1) {
-        case 1: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] =
-                        dark2 * dark * (sig[m * j + k] + zint[m * j + k] * (sig[m * j + k] - pow(sig[m * j + k], 2)));
-                }
-            }
-            break;
-        }
-        case 2: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] = dark2 * dark *
-                                   (2. * (sig[m * j + k] - pow(sig[m * j + k], 2)) +
-                                    zint[m * j + k] *
-                                        (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) + 2. * pow(sig[m * j + k], 3)));
-                }
-            }
-            break;
-        }
-        case 3: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] = dark2 * dark *
-                                   (3. * (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) + 2. * pow(sig[m * j + k], 3)) +
-                                    zint[m * j + k] * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) +
-                                                       12. * pow(sig[m * j + k], 3) - 6. * pow(sig[m * j + k], 4)));
-                }
-            }
-            break;
-        }
-        case 4: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] = dark2 * dark *
-                                   (4. * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) + 12. * pow(sig[m * j + k], 3) -
-                                          6. * pow(sig[m * j + k], 4)) +
-                                    zint[m * j + k] *
-                                        (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) + 50. * pow(sig[m * j + k], 3) -
-                                         60. * pow(sig[m * j + k], 4) + 24. * pow(sig[m * j + k], 5)));
-                }
-            }
-            break;
-        }
-        case 5: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] = dark2 * dark *
-                                   (5. * (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) + 50. * pow(sig[m * j + k], 3) -
-                                          60. * pow(sig[m * j + k], 4) + 24. * pow(sig[m * j + k], 5)) +
-                                    zint[m * j + k] * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) +
-                                                       180. * pow(sig[m * j + k], 3) - 390. * pow(sig[m * j + k], 4) +
-                                                       360. * pow(sig[m * j + k], 5) - 120. * pow(sig[m * j + k], 6)));
-                }
-            }
-            break;
-        }
-        case 6: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] = dark2 * dark *
-                                   (6. * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) +
-                                          180. * pow(sig[m * j + k], 3) - 390. * pow(sig[m * j + k], 4) +
-                                          360. * pow(sig[m * j + k], 5) - 120. * pow(sig[m * j + k], 6)) +
-                                    zint[m * j + k] *
-                                        (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
-                                         2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
-                                         2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)));
-                }
-            }
-            break;
-        }
-        case 7: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] =
-                        dark2 * dark *
-                        (7. * (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
-                               2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
-                               2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)) +
-                         zint[m * j + k] * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) +
-                                            1932. * pow(sig[m * j + k], 3) - 10206. * pow(sig[m * j + k], 4) +
-                                            25200. * pow(sig[m * j + k], 5) - 31920. * pow(sig[m * j + k], 6) +
-                                            20160. * pow(sig[m * j + k], 7) - 5040. * pow(sig[m * j + k], 8)));
-                }
-            }
-            break;
-        }
-        case 8: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] =
-                        dark2 * dark *
-                        (8. * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) + 1932. * pow(sig[m * j + k], 3) -
-                               10206. * pow(sig[m * j + k], 4) + 25200. * pow(sig[m * j + k], 5) -
-                               31920. * pow(sig[m * j + k], 6) + 20160. * pow(sig[m * j + k], 7) -
-                               5040. * pow(sig[m * j + k], 8)) +
-                         zint[m * j + k] *
-                             (sig[m * j + k] - 255. * pow(sig[m * j + k], 2) + 6050. * pow(sig[m * j + k], 3) -
-                              46620. * pow(sig[m * j + k], 4) + 166824. * pow(sig[m * j + k], 5) -
-                              317520. * pow(sig[m * j + k], 6) + 332640. * pow(sig[m * j + k], 7) -
-                              181440. * pow(sig[m * j + k], 8) + 40320. * pow(sig[m * j + k], 9)));
-                }
-            }
-            break;
-        }
-        }
-    }
-    delete[] sig;
-    delete[] zint;
-    return;
-}
-
-// nELM Swish *******************************************************************************************
-void nELMReLU::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
-
-    int i, j, k, h = -1;
-    double dark, dark1;
-    bool zeroFlag = false;
-    for (i = 0; i < dDim0; i++) {
-        if (d[i] > 1 || ((d[i] == 1) && (h != -1))) {
-            zeroFlag = true;
-            break;
-        } else if (d[i] == 1) {
-            h = i;
-            dark1 = c[i];
-        }
-    }
-
-    if (zeroFlag) {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++)
-                F[m * j + k] = 0.;
-        }
-    } else {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 0.;
-                for (i = 0; i < dim; i++)
-                    dark += w[i * m + k] * x[i * in + j];
-                F[m * j + k] = std::max(0., dark + b[k]);
-            }
-        }
-    }
-
-    if (h != -1) {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                if (F[m * j + k] != 0.) {
-                    F[m * j + k] = dark1 * w[h * m + k];
-                }
-            }
-        }
-    }
-    return;
-}
+#include "BF.h"
+
+// Initialize static BasisFunc variables
+int BasisFunc::nIdentifier = 0;
+std::vector<BasisFunc *> BasisFunc::BasisFuncContainer;
+std::shared_mutex BasisFunc::containerMutex;
+
+// xlaWrapper function
+void xlaWrapper(void *out, void **in) {
+    int N = (reinterpret_cast<int *>(in[0]))[0];
+    BasisFunc *basisFunc;
+    {
+        std::shared_lock<std::shared_mutex> lock(BasisFunc::containerMutex);
+        basisFunc = BasisFunc::BasisFuncContainer[N];
+    }
+    basisFunc->xla(out, in);
+}
+
+#ifdef HAS_CUDA
+// xlaGpuWrapper function
+void xlaGpuWrapper(CUstream stream, void **buffers, const char *opaque, size_t opaque_len) {
+    int *N = new int[1];
+    N[0] = 0;
+    // cudaMemcpy(N,reinterpret_cast<int*>(buffers[6]),1*sizeof(int),cudaMemcpyDeviceToHost);
+    BasisFunc::BasisFuncContainer[*N]->xlaGpu(stream, buffers, opaque, opaque_len);
+    delete[] N;
+};
+#endif
+
+// Parent basis function class: **********************************************************************
+BasisFunc::BasisFunc(double x0in, double xf, const int *nCin, int ncDim0, int min, double z0in, double zf) {
+
+    // Initialize internal variables based on user givens
+    nC = new int[ncDim0];
+    memcpy(nC, nCin, ncDim0 * sizeof(int));
+    numC = ncDim0;
+
+    z0 = z0in;
+
+    m = min;
+    if (zf == DBL_MAX) {
+        c = 1.;
+        x0 = 0.;
+    } else {
+        x0 = x0in;
+        c = (zf - z0) / (xf - x0);
+    }
+
+    // Track this instance of BasisFunc
+    Register();
+
+    // Create a PyCapsule with xla function for XLA compilation
+    xlaCapsule = GetXlaCapsule();
+#ifdef HAS_CUDA
+    xlaGpuCapsule = GetXlaCapsuleGpu();
+#endif
+}
+
+BasisFunc::~BasisFunc() { delete[] nC; }
+
+void BasisFunc::Register() {
+    std::unique_lock<std::shared_mutex> lock(containerMutex);
+    BasisFuncContainer.push_back(this);
+    identifier = nIdentifier;
+    nIdentifier++;
+}
+
+void BasisFunc::H(const double *x, int n, const int d, int *nOut, int *mOut, double **F, bool full) {
+    *nOut = n;
+    *mOut = full ? m : m - numC;
+
+    int j, k;
+    double dMult = pow(c, d);
+    double *dark = new double[n * m];
+    double *z = new double[n];
+
+    for (k = 0; k < n; k++)
+        z[k] = (x[k] - x0) * c + z0;
+
+    *F = (double *)malloc((*mOut) * n * sizeof(double));
+    Hint(d, z, n, dark);
+
+    if (!full) {
+        int i = -1;
+        bool flag;
+        for (j = 0; j < m; j++) {
+            flag = false;
+            for (k = 0; k < numC; k++) {
+                if (j == nC[k]) {
+                    flag = true;
+                    break;
+                }
+            }
+            if (flag)
+                continue;
+            else
+                i++;
+            for (k = 0; k < n; k++)
+                (*F)[(*mOut) * k + i] = dark[m * k + j] * dMult;
+        }
+    } else {
+        for (j = 0; j < m; j++) {
+            for (k = 0; k < n; k++)
+                (*F)[m * k + j] = dark[m * k + j] * dMult;
+        }
+    }
+    delete[] dark;
+    delete[] z;
+}
+
+void BasisFunc::xla(void *out, void **in) {
+    double *out_buf = reinterpret_cast<double *>(out);
+    double *x = reinterpret_cast<double *>(in[1]);
+    int d = (reinterpret_cast<int *>(in[2]))[0];
+    bool full = (reinterpret_cast<bool *>(in[3]))[0];
+    int n = (reinterpret_cast<int *>(in[4]))[0];
+    int mOut = (reinterpret_cast<int *>(in[5]))[0];
+
+    int j, k;
+    double dMult = pow(c, d);
+    double *dark = new double[n * m];
+    double *z = new double[n];
+
+    for (k = 0; k < n; k++)
+        z[k] = (x[k] - x0) * c + z0;
+
+    Hint(d, z, n, dark);
+
+    if (!full) {
+        int i = -1;
+        bool flag;
+        for (j = 0; j < m; j++) {
+            flag = false;
+            for (k = 0; k < numC; k++) {
+                if (j == nC[k]) {
+                    flag = true;
+                    break;
+                }
+            }
+            if (flag)
+                continue;
+            else
+                i++;
+            for (k = 0; k < n; k++)
+                out_buf[mOut * k + i] = dark[m * k + j] * dMult;
+        }
+    } else {
+        for (j = 0; j < m; j++) {
+            for (k = 0; k < n; k++)
+                out_buf[m * k + j] = dark[m * k + j] * dMult;
+        }
+    }
+    delete[] dark;
+    delete[] z;
+}
+
+#ifdef HAS_CUDA
+void BasisFunc::xlaGpu(CUstream stream, void **buffers, const char *opaque, size_t opaque_len) {
+    printf("Not implemented yet!\n");
+};
+#endif
+
+PyObject *BasisFunc::GetXlaCapsule() {
+    xlaFnType xlaFnPtr = xlaWrapper;
+    const char *name = "xla._CUSTOM_CALL_TARGET";
+    PyObject *capsule;
+    capsule = PyCapsule_New(reinterpret_cast<void *>(xlaFnPtr), name, NULL);
+    return capsule;
+}
+
+#ifdef HAS_CUDA
+PyObject *BasisFunc::GetXlaCapsuleGpu() {
+    xlaGpuFnType xlaFnPtr = xlaGpuWrapper;
+    const char *name = "xla._CUSTOM_CALL_TARGET";
+    PyObject *capsule;
+    capsule = PyCapsule_New(reinterpret_cast<void *>(xlaFnPtr), name, NULL);
+    return capsule;
+};
+#endif
+
+// COP: **********************************************************************
+void CP::Hint(const int d, const double *x, const int nOut, double *dark) {
+
+    int j, k;
+    int deg = m - 1;
+    if (deg == 0) {
+        if (d > 0) {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 0.;
+        } else {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 1.;
+        }
+    } else if (deg == 1) {
+        if (d > 1) {
+            for (k = 0; k < m * nOut; k++)
+                dark[k] = 0.;
+        } else if (d > 0) {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 0.;
+                dark[m * k + 1] = 1.;
+            }
+        } else {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 1;
+                dark[m * k + 1] = x[k];
+            }
+        }
+    } else {
+        for (k = 0; k < nOut; k++) {
+            dark[m * k] = 1;
+            dark[m * k + 1] = x[k];
+        }
+        for (k = 2; k < m; k++) {
+            for (j = 0; j < nOut; j++)
+                dark[m * j + k] = 2. * x[j] * dark[m * j + k - 1] - dark[m * j + k - 2];
+        }
+        RecurseDeriv(d, 0, x, nOut, dark, m);
+    }
+    return;
+}
+
+void CP::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+    if (dCurr != d) {
+        int j, k;
+        double *dark = new double[mOut * nOut];
+        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
+        if (dCurr == 0) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k] = 0.;
+                F[mOut * k + 1] = 1.;
+            }
+        } else if (dCurr == 1) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k + 1] = 0.;
+            }
+        }
+        for (k = 2; k < mOut; k++) {
+            for (j = 0; j < nOut; j++)
+                F[mOut * j + k] =
+                    (2. + 2. * dCurr) * dark[mOut * j + k - 1] + 2. * x[j] * F[mOut * j + k - 1] - F[mOut * j + k - 2];
+        }
+        dCurr++;
+        delete[] dark;
+        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    }
+    return;
+}
+
+// LeP: **********************************************************************
+void LeP::Hint(const int d, const double *x, const int nOut, double *dark) {
+
+    int j, k;
+    int deg = m - 1;
+    if (deg == 0) {
+        if (d > 0) {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 0.;
+        } else {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 1.;
+        }
+    } else if (deg == 1) {
+        if (d > 1) {
+            for (k = 0; k < m * nOut; k++)
+                dark[k] = 0.;
+        } else if (d > 0) {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 0.;
+                dark[m * k + 1] = 1.;
+            }
+        } else {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 1;
+                dark[m * k + 1] = x[k];
+            }
+        }
+    } else {
+        for (k = 0; k < nOut; k++) {
+            dark[m * k] = 1;
+            dark[m * k + 1] = x[k];
+        }
+        for (k = 1; k < m - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                dark[m * j + k + 1] = ((2. * k + 1.) * x[j] * dark[m * j + k] - k * dark[m * j + k - 1]) / (k + 1.);
+        }
+        RecurseDeriv(d, 0, x, nOut, dark, m);
+    }
+    return;
+}
+
+void LeP::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+
+    if (dCurr != d) {
+        int j, k;
+        double *dark = new double[mOut * nOut];
+        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
+        if (dCurr == 0) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k] = 0.;
+                F[mOut * k + 1] = 1.;
+            }
+        } else if (dCurr == 1) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k + 1] = 0.;
+            }
+        }
+        for (k = 1; k < mOut - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                F[m * j + k + 1] =
+                    ((2. * k + 1.) * ((dCurr + 1.) * dark[m * j + k] + x[j] * F[m * j + k]) - k * F[m * j + k - 1]) /
+                    (k + 1.);
+        }
+        dCurr++;
+        delete[] dark;
+        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    }
+    return;
+}
+
+// LaP: **********************************************************************
+void LaP::Hint(const int d, const double *x, const int nOut, double *dark) {
+
+    int j, k;
+    int deg = m - 1;
+    if (deg == 0) {
+        if (d > 0) {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 0.;
+        } else {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 1.;
+        }
+    } else if (deg == 1) {
+        if (d > 1) {
+            for (k = 0; k < m * nOut; k++)
+                dark[k] = 0.;
+        } else if (d > 0) {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 0.;
+                dark[m * k + 1] = -1.;
+            }
+        } else {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 1.;
+                dark[m * k + 1] = 1. - x[k];
+            }
+        }
+    } else {
+        for (k = 0; k < nOut; k++) {
+            dark[m * k] = 1.;
+            dark[m * k + 1] = 1. - x[k];
+        }
+        for (k = 1; k < m - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                dark[m * j + k + 1] = ((2. * k + 1. - x[j]) * dark[m * j + k] - k * dark[m * j + k - 1]) / (k + 1.);
+        }
+        RecurseDeriv(d, 0, x, nOut, dark, m);
+    }
+    return;
+}
+
+void LaP::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+
+    if (dCurr != d) {
+        int j, k;
+        double *dark = new double[mOut * nOut];
+        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
+        if (dCurr == 0) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k] = 0.;
+                F[mOut * k + 1] = -1.;
+            }
+        } else if (dCurr == 1) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k + 1] = 0.;
+            }
+        }
+        for (k = 1; k < mOut - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                F[m * j + k + 1] =
+                    ((2. * k + 1. - x[j]) * F[m * j + k] - (dCurr + 1.) * dark[m * j + k] - k * F[m * j + k - 1]) /
+                    (k + 1.);
+        }
+        dCurr++;
+        delete[] dark;
+        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    }
+    return;
+}
+
+// HoPpro: **********************************************************************
+// Hermite polynomials, probablists
+void HoPpro::Hint(const int d, const double *x, const int nOut, double *dark) {
+
+    int j, k;
+    int deg = m - 1;
+    if (deg == 0) {
+        if (d > 0) {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 0.;
+        } else {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 1.;
+        }
+    } else if (deg == 1) {
+        if (d > 1) {
+            for (k = 0; k < m * nOut; k++)
+                dark[k] = 0.;
+        } else if (d > 0) {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 0.;
+                dark[m * k + 1] = 1.;
+            }
+        } else {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 1.;
+                dark[m * k + 1] = x[k];
+            }
+        }
+    } else {
+        for (k = 0; k < nOut; k++) {
+            dark[m * k] = 1.;
+            dark[m * k + 1] = x[k];
+        }
+        for (k = 1; k < m - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                dark[m * j + k + 1] = x[j] * dark[m * j + k] - k * dark[m * j + k - 1];
+        }
+        RecurseDeriv(d, 0, x, nOut, dark, m);
+    }
+    return;
+}
+
+void HoPpro::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+
+    if (dCurr != d) {
+        int j, k;
+        double *dark = new double[mOut * nOut];
+        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
+        if (dCurr == 0) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k] = 0.;
+                F[mOut * k + 1] = 1.;
+            }
+        } else if (dCurr == 1) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k + 1] = 0.;
+            }
+        }
+        for (k = 1; k < mOut - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                F[m * j + k + 1] = (dCurr + 1.) * dark[m * j + k] + x[j] * F[m * j + k] - k * F[m * j + k - 1];
+        }
+        dCurr++;
+        delete[] dark;
+        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    }
+    return;
+}
+
+// HoPphy: **********************************************************************
+// Hermite polynomials, physicists
+void HoPphy::Hint(const int d, const double *x, const int nOut, double *dark) {
+
+    int j, k;
+    int deg = m - 1;
+    if (deg == 0) {
+        if (d > 0) {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 0.;
+        } else {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 1.;
+        }
+    } else if (deg == 1) {
+        if (d > 1) {
+            for (k = 0; k < m * nOut; k++)
+                dark[k] = 0.;
+        } else if (d > 0) {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 0.;
+                dark[m * k + 1] = 2.;
+            }
+        } else {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 1.;
+                dark[m * k + 1] = 2. * x[k];
+            }
+        }
+    } else {
+        for (k = 0; k < nOut; k++) {
+            dark[m * k] = 1.;
+            dark[m * k + 1] = 2. * x[k];
+        }
+        for (k = 1; k < m - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                dark[m * j + k + 1] = 2. * x[j] * dark[m * j + k] - 2. * k * dark[m * j + k - 1];
+        }
+        RecurseDeriv(d, 0, x, nOut, dark, m);
+    }
+    return;
+}
+
+void HoPphy::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+
+    if (dCurr != d) {
+        int j, k;
+        double *dark = new double[mOut * nOut];
+        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
+        if (dCurr == 0) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k] = 0.;
+                F[mOut * k + 1] = 2.;
+            }
+        } else if (dCurr == 1) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k + 1] = 0.;
+            }
+        }
+        for (k = 1; k < mOut - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                F[m * j + k + 1] =
+                    2. * (dCurr + 1.) * dark[m * j + k] + 2. * x[j] * F[m * j + k] - 2. * k * F[m * j + k - 1];
+        }
+        dCurr++;
+        delete[] dark;
+        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    }
+    return;
+}
+
+// FS: **********************************************************************
+// Fourier Series
+void FS::Hint(const int d, const double *x, const int nOut, double *dark) {
+
+    int j, k, g;
+    if (d == 0) {
+        for (k = 0; k < nOut; k++)
+            dark[m * k] = 1;
+        for (j = 1; j < m; j++) {
+            for (k = 0; k < nOut; k++) {
+                g = ceil(j / 2.);
+                if (j % 2 == 0) {
+                    dark[m * k + j] = cos(g * x[k]);
+                } else {
+                    dark[m * k + j] = sin(g * x[k]);
+                }
+            }
+        }
+    } else {
+        for (k = 0; k < nOut; k++)
+            dark[m * k] = 0;
+        if (d % 4 == 0) {
+            for (j = 1; j < m; j++) {
+                for (k = 0; k < nOut; k++) {
+                    g = ceil(j / 2.);
+                    if (j % 2 == 0) {
+                        dark[m * k + j] = pow(g, d) * cos(g * x[k]);
+                    } else {
+                        dark[m * k + j] = pow(g, d) * sin(g * x[k]);
+                    }
+                }
+            }
+        } else if (d % 4 == 1) {
+            for (j = 1; j < m; j++) {
+                for (k = 0; k < nOut; k++) {
+                    g = ceil(j / 2.);
+                    if (j % 2 == 0) {
+                        dark[m * k + j] = -pow(g, d) * sin(g * x[k]);
+                    } else {
+                        dark[m * k + j] = pow(g, d) * cos(g * x[k]);
+                    }
+                }
+            }
+        } else if (d % 4 == 2) {
+            for (j = 1; j < m; j++) {
+                for (k = 0; k < nOut; k++) {
+                    g = ceil(j / 2.);
+                    if (j % 2 == 0) {
+                        dark[m * k + j] = -pow(g, d) * cos(g * x[k]);
+                    } else {
+                        dark[m * k + j] = -pow(g, d) * sin(g * x[k]);
+                    }
+                }
+            }
+        } else {
+            for (j = 1; j < m; j++) {
+                for (k = 0; k < nOut; k++) {
+                    g = ceil(j / 2.);
+                    if (j % 2 == 0) {
+                        dark[m * k + j] = pow(g, d) * sin(g * x[k]);
+                    } else {
+                        dark[m * k + j] = -pow(g, d) * cos(g * x[k]);
+                    }
+                }
+            }
+        }
+    }
+    return;
+}
+
+// ELM: **********************************************************************
+// ELM base class
+ELM::ELM(double x0, double xf, const int *nCin, int ncDim0, int min)
+    : BasisFunc(x0, xf, nCin, ncDim0, min, 0., 1.) {
+
+    int k;
+    w = new double[m];
+    b = new double[m];
+
+    for (k = 0; k < m; k++) {
+        w[k] = 20. * ((double)rand() / (double)RAND_MAX) - 10.;
+        b[k] = 20. * ((double)rand() / (double)RAND_MAX) - 10.;
+    }
+}
+
+ELM::~ELM() {
+    delete[] b;
+    delete[] w;
+}
+
+void ELM::setW(const double *arrIn, int nIn) {
+    if (nIn != m) {
+        printf("Failure in setW function. Weight vector is the wrong size. Exiting program.\n");
+        exit(EXIT_FAILURE);
+    }
+    for (int k = 0; k < m; k++)
+        w[k] = arrIn[k];
+}
+
+void ELM::setB(const double *arrIn, int nIn) {
+    if (nIn != m) {
+        printf("Failure in setB function. Bias vector is the wrong size. Exiting program.\n");
+        exit(EXIT_FAILURE);
+    }
+    for (int k = 0; k < m; k++)
+        b[k] = arrIn[k];
+}
+
+void ELM::getW(double **arrOut, int *nOut) {
+    *nOut = m;
+    *arrOut = (double *)malloc(m * sizeof(double));
+    for (int k = 0; k < m; k++)
+        (*arrOut)[k] = w[k];
+    return;
+}
+
+void ELM::getB(double **arrOut, int *nOut) {
+    *nOut = m;
+    *arrOut = (double *)malloc(m * sizeof(double));
+    for (int k = 0; k < m; k++)
+        (*arrOut)[k] = b[k];
+    return;
+}
+
+// ELM ReLU: **********************************************************************
+void ELMReLU::Hint(const int d, const double *x, const int nOut, double *dark) {
+    int j, k;
+
+    if (d == 0) {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                dark[m * j + k] = std::max(0., w[k] * x[j] + b[k]);
+            }
+        }
+    } else if (d == 1) {
+        double dark1;
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                dark1 = w[k] * x[j] + b[k];
+                if (dark1 <= 0.) {
+                    dark[m * j + k] = 0.;
+                } else {
+                    dark[m * j + k] = w[k];
+                }
+            }
+        }
+    } else {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                dark[m * j + k] = 0.;
+            }
+        }
+    }
+    return;
+}
+
+// ELM Sigmoid: **********************************************************************
+void ELMSigmoid::Hint(const int d, const double *x, const int nOut, double *dark) {
+    int j, k;
+
+    for (j = 0; j < nOut; j++) {
+        for (k = 0; k < m; k++)
+            dark[m * j + k] = 1. / (1. + exp(-w[k] * x[j] - b[k]));
+    }
+
+    switch (d) {
+    case 0: {
+        break;
+    }
+    case 1: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = w[k] * (dark[m * j + k] - pow(dark[m * j + k], 2));
+        }
+        break;
+    }
+    case 2: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] =
+                    pow(w[k], 2) * (dark[m * j + k] - 3. * pow(dark[m * j + k], 2) + 2. * pow(dark[m * j + k], 3));
+        }
+        break;
+    }
+    case 3: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 3) * (dark[m * j + k] - 7. * pow(dark[m * j + k], 2) +
+                                                  12. * pow(dark[m * j + k], 3) - 6. * pow(dark[m * j + k], 4));
+        }
+        break;
+    }
+    case 4: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] =
+                    pow(w[k], 4) * (dark[m * j + k] - 15. * pow(dark[m * j + k], 2) + 50. * pow(dark[m * j + k], 3) -
+                                    60. * pow(dark[m * j + k], 4) + 24. * pow(dark[m * j + k], 5));
+        }
+        break;
+    }
+    case 5: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 5) * (dark[m * j + k] - 31. * pow(dark[m * j + k], 2) +
+                                                  180. * pow(dark[m * j + k], 3) - 390. * pow(dark[m * j + k], 4) +
+                                                  360. * pow(dark[m * j + k], 5) - 120. * pow(dark[m * j + k], 6));
+        }
+        break;
+    }
+    case 6: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] =
+                    pow(w[k], 6) * (dark[m * j + k] - 63. * pow(dark[m * j + k], 2) + 602. * pow(dark[m * j + k], 3) -
+                                    2100. * pow(dark[m * j + k], 4) + 3360. * pow(dark[m * j + k], 5) -
+                                    2520. * pow(dark[m * j + k], 6) + 720. * pow(dark[m * j + k], 7));
+        }
+        break;
+    }
+    case 7: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 7) * (dark[m * j + k] - 127. * pow(dark[m * j + k], 2) +
+                                                  1932. * pow(dark[m * j + k], 3) - 10206. * pow(dark[m * j + k], 4) +
+                                                  25200. * pow(dark[m * j + k], 5) - 31920. * pow(dark[m * j + k], 6) +
+                                                  20160. * pow(dark[m * j + k], 7) - 5040. * pow(dark[m * j + k], 8));
+        }
+        break;
+    }
+    case 8: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] =
+                    pow(w[k], 8) * (dark[m * j + k] - 255. * pow(dark[m * j + k], 2) + 6050. * pow(dark[m * j + k], 3) -
+                                    46620. * pow(dark[m * j + k], 4) + 166824. * pow(dark[m * j + k], 5) -
+                                    317520. * pow(dark[m * j + k], 6) + 332640. * pow(dark[m * j + k], 7) -
+                                    181440. * pow(dark[m * j + k], 8) + 40320. * pow(dark[m * j + k], 9));
+        }
+        break;
+    }
+    }
+    return;
+}
+
+// ELM Tanh: **********************************************************************
+
+void ELMTanh::Hint(const int d, const double *x, const int nOut, double *dark) {
+    int j, k;
+
+    for (j = 0; j < nOut; j++) {
+        for (k = 0; k < m; k++)
+            dark[m * j + k] = tanh(w[k] * x[j] + b[k]);
+    }
+
+    switch (d) {
+    case 0: {
+        break;
+    }
+    case 1: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = w[k] * (1. - pow(dark[m * j + k], 2));
+        }
+        break;
+    }
+    case 2: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 2) * (-2. * dark[m * j + k] + 2. * pow(dark[m * j + k], 3));
+        }
+        break;
+    }
+    case 3: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 3) * (-2. + 8. * pow(dark[m * j + k], 2) - 6. * pow(dark[m * j + k], 4));
+        }
+        break;
+    }
+    case 4: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 4) * (16. * dark[m * j + k] - 40. * pow(dark[m * j + k], 3) +
+                                                  24. * pow(dark[m * j + k], 5));
+        }
+        break;
+    }
+    case 5: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 5) * (16. - 136. * pow(dark[m * j + k], 2) +
+                                                  240. * pow(dark[m * j + k], 4) - 120. * pow(dark[m * j + k], 6));
+        }
+        break;
+    }
+    case 6: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 6) * (-272. * dark[m * j + k] + 1232. * pow(dark[m * j + k], 3) -
+                                                  1680. * pow(dark[m * j + k], 5) + 720. * pow(dark[m * j + k], 7));
+        }
+        break;
+    }
+    case 7: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] =
+                    pow(w[k], 7) * (-272. + 3968. * pow(dark[m * j + k], 2) - 12096. * pow(dark[m * j + k], 4) +
+                                    13440. * pow(dark[m * j + k], 6) - 5040. * pow(dark[m * j + k], 8));
+        }
+        break;
+    }
+    case 8: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 8) * (7936. * dark[m * j + k] - 56320. * pow(dark[m * j + k], 3) +
+                                                  129024. * pow(dark[m * j + k], 5) -
+                                                  120960. * pow(dark[m * j + k], 7) + 40320. * pow(dark[m * j + k], 9));
+        }
+        break;
+    }
+    }
+    return;
+}
+
+// ELM Sin: **********************************************************************
+
+void ELMSin::Hint(const int d, const double *x, const int nOut, double *dark) {
+    int j, k;
+
+    if (d % 4 == 0) {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                dark[m * j + k] = pow(w[k], d) * sin(w[k] * x[j] + b[k]);
+            }
+        }
+    } else if (d % 4 == 1) {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                dark[m * j + k] = pow(w[k], d) * cos(w[k] * x[j] + b[k]);
+            }
+        }
+    } else if (d % 4 == 2) {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                dark[m * j + k] = -pow(w[k], d) * sin(w[k] * x[j] + b[k]);
+            }
+        }
+    } else {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                dark[m * j + k] = -pow(w[k], d) * cos(w[k] * x[j] + b[k]);
+            }
+        }
+    }
+    return;
+}
+
+// ELM Swish: **********************************************************************
+
+void ELMSwish::Hint(const int d, const double *x, const int nOut, double *dark) {
+    int j, k;
+    double *sig = new double[nOut * m];
+    double *zint = new double[nOut * m];
+
+    if (d == 0) {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = (w[k] * x[j] + b[k]) * 1. / (1. + exp(-w[k] * x[j] - b[k]));
+        }
+
+    } else {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                zint[m * j + k] = w[k] * x[j] + b[k];
+                sig[m * j + k] = 1. / (1. + exp(-zint[m * j + k]));
+            }
+        }
+        switch (d) {
+        case 1: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] =
+                        w[k] * (sig[m * j + k] + zint[m * j + k] * (sig[m * j + k] - pow(sig[m * j + k], 2)));
+            }
+            break;
+        }
+        case 2: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] = pow(w[k], 2) * (2. * (sig[m * j + k] - pow(sig[m * j + k], 2)) +
+                                                      zint[m * j + k] * (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) +
+                                                                         2. * pow(sig[m * j + k], 3)));
+            }
+            break;
+        }
+        case 3: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] =
+                        pow(w[k], 3) *
+                        (3. * (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) + 2. * pow(sig[m * j + k], 3)) +
+                         zint[m * j + k] * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) +
+                                            12. * pow(sig[m * j + k], 3) - 6. * pow(sig[m * j + k], 4)));
+            }
+            break;
+        }
+        case 4: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] =
+                        pow(w[k], 4) * (4. * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) +
+                                              12. * pow(sig[m * j + k], 3) - 6. * pow(sig[m * j + k], 4)) +
+                                        zint[m * j + k] * (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) +
+                                                           50. * pow(sig[m * j + k], 3) - 60. * pow(sig[m * j + k], 4) +
+                                                           24. * pow(sig[m * j + k], 5)));
+            }
+            break;
+        }
+        case 5: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+
+                    dark[m * j + k] =
+                        pow(w[k], 5) *
+                        (5. * (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) + 50. * pow(sig[m * j + k], 3) -
+                               60. * pow(sig[m * j + k], 4) + 24. * pow(sig[m * j + k], 5)) +
+                         zint[m * j + k] * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) +
+                                            180. * pow(sig[m * j + k], 3) - 390. * pow(sig[m * j + k], 4) +
+                                            360. * pow(sig[m * j + k], 5) - 120. * pow(sig[m * j + k], 6)));
+            }
+            break;
+        }
+        case 6: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] =
+                        pow(w[k], 6) *
+                        (6. * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) + 180. * pow(sig[m * j + k], 3) -
+                               390. * pow(sig[m * j + k], 4) + 360. * pow(sig[m * j + k], 5) -
+                               120. * pow(sig[m * j + k], 6)) +
+                         zint[m * j + k] *
+                             (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
+                              2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
+                              2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)));
+            }
+            break;
+        }
+        case 7: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] =
+                        pow(w[k], 7) *
+                        (7. * (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
+                               2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
+                               2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)) +
+                         zint[m * j + k] * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) +
+                                            1932. * pow(sig[m * j + k], 3) - 10206. * pow(sig[m * j + k], 4) +
+                                            25200. * pow(sig[m * j + k], 5) - 31920. * pow(sig[m * j + k], 6) +
+                                            20160. * pow(sig[m * j + k], 7) - 5040. * pow(sig[m * j + k], 8)));
+            }
+            break;
+        }
+        case 8: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] =
+                        pow(w[k], 8) *
+                        (8. * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) + 1932. * pow(sig[m * j + k], 3) -
+                               10206. * pow(sig[m * j + k], 4) + 25200. * pow(sig[m * j + k], 5) -
+                               31920. * pow(sig[m * j + k], 6) + 20160. * pow(sig[m * j + k], 7) -
+                               5040. * pow(sig[m * j + k], 8)) +
+                         zint[m * j + k] *
+                             (sig[m * j + k] - 255. * pow(sig[m * j + k], 2) + 6050. * pow(sig[m * j + k], 3) -
+                              46620. * pow(sig[m * j + k], 4) + 166824. * pow(sig[m * j + k], 5) -
+                              317520. * pow(sig[m * j + k], 6) + 332640. * pow(sig[m * j + k], 7) -
+                              181440. * pow(sig[m * j + k], 8) + 40320. * pow(sig[m * j + k], 9)));
+            }
+            break;
+        }
+        }
+    }
+
+    delete[] sig;
+    delete[] zint;
+
+    return;
+}
+
+// Parent n-dimensional basis function class: **********************************************************************
+nBasisFunc::nBasisFunc(const double *x0in,
+                       int x0Dim0,
+                       const double *xf,
+                       int /*xfDim0*/,
+                       const int *nCin,
+                       int ncDim0,
+                       int ncDim1,
+                       int min,
+                       double z0in,
+                       double zfin) {
+
+    // Initialize internal variables based on user givens
+    dim = x0Dim0;
+    m = min;
+    numC = ncDim1;
+    z0 = z0in;
+    zf = zfin;
+
+    x0 = new double[dim];
+    memcpy(x0, x0in, dim * sizeof(double));
+
+    nC = new int[dim * numC];
+    memcpy(nC, nCin, ncDim0 * ncDim1 * sizeof(int));
+
+    c = new double[dim];
+    for (int k = 0; k < dim; k++)
+        c[k] = (zf - z0) / (xf[k] - x0[k]);
+
+    // Calculate the number of basis functions
+    numBasisFunc = 0;
+    numBasisFuncFull = 0;
+
+    int *vec = new int[dim];
+
+    NumBasisFunc(dim - 1, &vec[0], numBasisFunc, false);
+    NumBasisFunc(dim - 1, &vec[0], numBasisFuncFull, true);
+
+    delete[] vec;
+
+    // Track this instance of BasisFunc
+    Register();
+
+    // Create a PyCapsule with xla function for XLA compilation
+    xlaCapsule = GetXlaCapsule();
+#ifdef HAS_CUDA
+    xlaGpuCapsule = GetXlaCapsuleGpu();
+#endif
+}
+
+nBasisFunc::~nBasisFunc() { delete[] c; }
+
+void nBasisFunc::getC(double **arrOut, int *nOut) {
+    *nOut = dim;
+    *arrOut = (double *)malloc(dim * sizeof(double));
+    for (int k = 0; k < dim; k++)
+        (*arrOut)[k] = c[k];
+    return;
+}
+
+void nBasisFunc::H(const double *x,
+                   int /*in*/,
+                   int xDim1,
+                   const int *d,
+                   int dDim0,
+                   int *nOut,
+                   int *mOut,
+                   double **F,
+                   const bool full) {
+    int numBasis = full ? numBasisFuncFull : numBasisFunc;
+    *mOut = numBasis;
+    *nOut = xDim1;
+    *F = (double *)malloc(numBasis * xDim1 * sizeof(double));
+    nHint(x, xDim1, d, dDim0, numBasis, *F, full);
+}
+
+void nBasisFunc::H(const double *, int, const int, int *, int *, double **, bool) {
+    throw std::runtime_error("This version of \"H\" should never be called from an n-dimensional basis class.");
+}
+
+void nBasisFunc::xla(void *out, void **in) {
+    double *out_buf = reinterpret_cast<double *>(out);
+    double *x = reinterpret_cast<double *>(in[1]);
+    int *d = reinterpret_cast<int *>(in[2]);
+    int dDim0 = (reinterpret_cast<int *>(in[3]))[0];
+    bool full = (reinterpret_cast<bool *>(in[4]))[0];
+    int nOut = (reinterpret_cast<int *>(in[5]))[0];
+    int mOut = (reinterpret_cast<int *>(in[6]))[0];
+
+    nHint(x, nOut, d, dDim0, mOut, out_buf, full);
+}
+
+void nBasisFunc::nHint(const double *x, int n, const int *d, int dDim0, int numBasis, double *&F, const bool full) {
+
+    int j, k;
+    double *dark = new double[n * m];
+    double *T = new double[n * m * dim];
+    double *z = new double[n * dim];
+    double dMult;
+
+    // Calculate the basis function domain points
+    for (j = 0; j < dim; j++) {
+        for (k = 0; k < n; k++)
+            z[j * n + k] = (x[j * n + k] - x0[j]) * c[j] + z0;
+    }
+
+    // Calculate univariate basis functions
+    for (k = 0; k < dim; k++) {
+        if (k >= dDim0) {
+            Hint(0, z + k * n, n, dark);
+            dMult = 1.;
+        } else {
+            Hint(d[k], z + k * n, n, dark);
+            dMult = pow(c[k], d[k]);
+        }
+        for (j = 0; j < n * m; j++)
+            T[j + k * m * n] = dark[j] * dMult;
+    }
+
+    for (k = 0; k < n * numBasis; k++)
+        F[k] = 1.;
+
+    int count = 0;
+
+    int *vec = new int[dim];
+
+    RecurseBasis(dim - 1, vec, count, full, n, numBasis, &T[0], F);
+
+    delete[] vec;
+    delete[] dark;
+    delete[] T;
+    delete[] z;
+}
+
+void nBasisFunc::NumBasisFunc(int dimCurr, int *vec, int &count, const bool full) {
+    int k;
+    if (dimCurr > 0) {
+        for (k = 0; k < m; k++) {
+            vec[dimCurr] = k;
+            NumBasisFunc(dimCurr - 1, vec, count, full);
+        }
+    } else {
+        int j, g;
+        int sum;
+        bool flag, flag1;
+        for (k = 0; k < m; k++) {
+            vec[dimCurr] = k;
+            flag = false;
+            sum = 0;
+            if (full) {
+                for (j = 0; j < dim; j++)
+                    sum += vec[j];
+                if (sum <= m - 1)
+                    count++;
+            } else {
+
+                // If at least one of the dimensions' basis functions is not a constraint, then
+                // set flag = true
+                for (j = 0; j < dim; j++) {
+                    flag1 = true;
+                    for (g = 0; g < numC; g++) {
+                        if (vec[j] == nC[j * numC + g]) {
+                            flag1 = false;
+                            break;
+                        }
+                    }
+                    if (flag1)
+                        flag = true;
+                }
+
+                // If flag is true and the degree of the product of univariate basis
+                // functions is less than the degree specified, add one to count
+                if (flag) {
+                    for (j = 0; j < dim; j++)
+                        sum += vec[j];
+                    if (sum <= m - 1)
+                        count++;
+                }
+            }
+        }
+    }
+    return;
+}
+
+void nBasisFunc::RecurseBasis(int dimCurr,
+                              int *vec,
+                              int &count,
+                              const bool full,
+                              const int in,
+                              const int numBasis,
+                              const double *T,
+                              double *out) {
+    int k;
+    if (dimCurr > 0) {
+        for (k = 0; k < m; k++) {
+            vec[dimCurr] = k;
+            RecurseBasis(dimCurr - 1, vec, count, full, in, numBasis, T, out);
+        }
+    } else {
+        int j, g, h, l;
+        int sum;
+        bool flag, flag1;
+        for (k = 0; k < m; k++) {
+            vec[dimCurr] = k;
+            flag = false;
+            sum = 0;
+            if (full) {
+                for (j = 0; j < dim; j++)
+                    sum += vec[j];
+                if (sum <= m - 1) {
+                    for (h = 0; h < in; h++) {
+                        for (l = 0; l < dim; l++)
+                            out[h * numBasis + count] *= T[m * in * l + vec[l] + h * m];
+                    }
+                    count++;
+                }
+            } else {
+
+                // If at least one of the dimensions' basis functions is not a constraint, then
+                // set flag = true
+                for (j = 0; j < dim; j++) {
+                    flag1 = true;
+                    for (g = 0; g < numC; g++) {
+                        if (vec[j] == nC[j * numC + g]) {
+                            flag1 = false;
+                            break;
+                        }
+                    }
+                    if (flag1)
+                        flag = true;
+                }
+
+                // If flag is true and the degree of the product of univariate basis
+                // functions is less than the degree specified, add one to count
+                if (flag) {
+                    for (j = 0; j < dim; j++)
+                        sum += vec[j];
+                    if (sum <= m - 1) {
+                        for (h = 0; h < in; h++) {
+                            for (l = 0; l < dim; l++)
+                                out[h * numBasis + count] *= T[m * in * l + vec[l] + h * m];
+                        }
+                        count++;
+                    }
+                }
+            }
+        }
+    }
+    return;
+}
+
+// nELM base class: ***********************************************************************************
+nELM::nELM(const double *x0in,
+           int x0Dim0,
+           const double *xf,
+           int /*xfDim0*/,
+           const int *nCin,
+           int ncDim0,
+           int min,
+           double z0in,
+           double zfin) {
+
+    int k;
+    bool flag = true;
+
+    // Initialize internal variables based on user givens
+    dim = x0Dim0;
+    m = min;
+    numC = ncDim0;
+    z0 = z0in;
+    zf = zfin;
+
+    x0 = new double[dim];
+    memcpy(x0, x0in, dim * sizeof(double));
+
+    nC = new int[dim * numC];
+    memcpy(nC, nCin, ncDim0 * sizeof(int));
+
+    c = new double[dim];
+    for (k = 0; k < dim; k++)
+        c[k] = (zf - z0) / (xf[k] - x0[k]);
+
+    for (k = 0; k < ncDim0; k++) {
+        if (nC[k] != -1) {
+            flag = false;
+        }
+    }
+    if (flag)
+        numC = 0;
+
+    m = min;
+
+    // Calculate the number of basis functions
+    numBasisFunc = m - numC;
+    numBasisFuncFull = m;
+
+    // Track this instance of BasisFunc
+    Register();
+
+    // Create a PyCapsule with xla function for XLA compilation
+    xlaCapsule = GetXlaCapsule();
+#ifdef HAS_CUDA
+    xlaGpuCapsule = GetXlaCapsuleGpu();
+#endif
+
+    w = new double[dim * m];
+    b = new double[m];
+    for (k = 0; k < dim * m; k++)
+        w[k] = 2. * ((double)rand() / (double)RAND_MAX) - 1.;
+    for (k = 0; k < m; k++)
+        b[k] = 2. * ((double)rand() / (double)RAND_MAX) - 1.;
+}
+
+nELM::~nELM() {
+    delete[] b;
+    delete[] w;
+}
+
+void nELM::setW(const double *arrIn, int dimIn, int nIn) {
+    if ((nIn != m) || (dimIn != dim)) {
+        printf("Failure in setW function. Weight vector is the wrong size. Exiting program.\n");
+        exit(EXIT_FAILURE);
+    }
+    for (int k = 0; k < m * dim; k++)
+        w[k] = arrIn[k];
+}
+
+void nELM::setB(const double *arrIn, int nIn) {
+    if (nIn != m) {
+        printf("Failure in setB function. Bias vector is the wrong size. Exiting program.\n");
+        exit(EXIT_FAILURE);
+    }
+    for (int k = 0; k < m; k++)
+        b[k] = arrIn[k];
+}
+
+void nELM::getW(int *dimOut, int *nOut, double **arrOut) {
+    *dimOut = dim;
+    *nOut = m;
+    *arrOut = (double *)malloc(m * dim * sizeof(double));
+    for (int k = 0; k < m * dim; k++)
+        (*arrOut)[k] = w[k];
+    return;
+}
+
+void nELM::getB(double **arrOut, int *nOut) {
+    *nOut = m;
+    *arrOut = (double *)malloc(m * sizeof(double));
+    for (int k = 0; k < m; k++)
+        (*arrOut)[k] = b[k];
+    return;
+}
+
+void nELM::nHint(const double *x, int n, const int *d, int dDim0, int numBasis, double *&F, const bool full) {
+
+    int j, k;
+    double *z = new double[n * dim];
+
+    // Calculate the basis function domain points
+    for (j = 0; j < dim; j++) {
+        for (k = 0; k < n; k++)
+            z[j * n + k] = (x[j * n + k] - x0[j]) * c[j] + z0;
+    }
+
+    if ((numC == 0) || (full)) {
+        nElmHint(d, dDim0, z, n, F);
+    } else {
+        int i = -1;
+        bool flag;
+        double *dark = new double[m * n]; // Allocated on the heap, as allocating on the stack frequently causes
+                                          // segfaults due to size. - CL
+        nElmHint(d, dDim0, z, n, dark);
+
+        for (j = 0; j < m; j++) {
+            flag = false;
+            for (k = 0; k < numC; k++) {
+                if (j == nC[k]) {
+                    flag = true;
+                    break;
+                }
+            }
+            if (flag)
+                continue;
+            else
+                i++;
+            for (k = 0; k < n; k++)
+                F[numBasis * k + i] = dark[m * k + j];
+        }
+
+        delete[] dark;
+    }
+    delete[] z;
+}
+
+// nELM Sigmoid *******************************************************************************************
+void nELMSigmoid::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
+
+    int i, j, k;
+    double dark, dark2 = 1.;
+    int dark1 = 0;
+    for (j = 0; j < in; j++) {
+        for (k = 0; k < m; k++) {
+            dark = 0.;
+            for (i = 0; i < dim; i++)
+                dark += w[i * m + k] * x[i * in + j];
+            F[m * j + k] = 1. / (1. + exp(-dark - b[k]));
+        }
+    }
+
+    for (i = 0; i < dDim0; i++) {
+        dark1 += d[i];
+        dark2 *= pow(c[i], d[i]);
+    }
+
+    switch (dark1) {
+    case 0: {
+        break;
+    }
+    case 1: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark * (F[m * j + k] - pow(F[m * j + k], 2));
+            }
+        }
+        break;
+    }
+    case 2: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark * (F[m * j + k] - 3. * pow(F[m * j + k], 2) + 2. * pow(F[m * j + k], 3));
+            }
+        }
+        break;
+    }
+    case 3: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] =
+                    dark2 * dark *
+                    (F[m * j + k] - 7. * pow(F[m * j + k], 2) + 12. * pow(F[m * j + k], 3) - 6. * pow(F[m * j + k], 4));
+            }
+        }
+        break;
+    }
+    case 4: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark *
+                               (F[m * j + k] - 15. * pow(F[m * j + k], 2) + 50. * pow(F[m * j + k], 3) -
+                                60. * pow(F[m * j + k], 4) + 24. * pow(F[m * j + k], 5));
+            }
+        }
+        break;
+    }
+    case 5: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] =
+                    dark2 * dark *
+                    (F[m * j + k] - 31. * pow(F[m * j + k], 2) + 180. * pow(F[m * j + k], 3) -
+                     390. * pow(F[m * j + k], 4) + 360. * pow(F[m * j + k], 5) - 120. * pow(F[m * j + k], 6));
+            }
+        }
+        break;
+    }
+    case 6: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark *
+                               (F[m * j + k] - 63. * pow(F[m * j + k], 2) + 602. * pow(F[m * j + k], 3) -
+                                2100. * pow(F[m * j + k], 4) + 3360. * pow(F[m * j + k], 5) -
+                                2520. * pow(F[m * j + k], 6) + 720. * pow(F[m * j + k], 7));
+            }
+        }
+        break;
+    }
+    case 7: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] =
+                    dark2 * dark *
+                    (F[m * j + k] - 127. * pow(F[m * j + k], 2) + 1932. * pow(F[m * j + k], 3) -
+                     10206. * pow(F[m * j + k], 4) + 25200. * pow(F[m * j + k], 5) - 31920. * pow(F[m * j + k], 6) +
+                     20160. * pow(F[m * j + k], 7) - 5040. * pow(F[m * j + k], 8));
+            }
+        }
+        break;
+    }
+    case 8: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] =
+                    dark2 * dark *
+                    (F[m * j + k] - 255. * pow(F[m * j + k], 2) + 6050. * pow(F[m * j + k], 3) -
+                     46620. * pow(F[m * j + k], 4) + 166824. * pow(F[m * j + k], 5) - 317520. * pow(F[m * j + k], 6) +
+                     332640. * pow(F[m * j + k], 7) - 181440. * pow(F[m * j + k], 8) + 40320. * pow(F[m * j + k], 9));
+            }
+        }
+        break;
+    }
+    }
+    return;
+}
+
+// nELM Tanh *******************************************************************************************
+void nELMTanh::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
+
+    int i, j, k;
+    double dark, dark2 = 1.;
+    int dark1 = 0;
+    for (j = 0; j < in; j++) {
+        for (k = 0; k < m; k++) {
+            dark = 0.;
+            for (i = 0; i < dim; i++)
+                dark += w[i * m + k] * x[i * in + j];
+            F[m * j + k] = tanh(dark + b[k]);
+        }
+    }
+    for (i = 0; i < dDim0; i++) {
+        dark1 += d[i];
+        dark2 *= pow(c[i], d[i]);
+    }
+
+    switch (dark1) {
+    case 0: {
+        break;
+    }
+    case 1: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark * (1. - pow(F[m * j + k], 2));
+            }
+        }
+        break;
+    }
+    case 2: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark * (-2. * F[m * j + k] + 2. * pow(F[m * j + k], 3));
+            }
+        }
+        break;
+    }
+    case 3: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark * (-2. + 8. * pow(F[m * j + k], 2) - 6. * pow(F[m * j + k], 4));
+            }
+        }
+        break;
+    }
+    case 4: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] =
+                    dark2 * dark * (16. * F[m * j + k] - 40. * pow(F[m * j + k], 3) + 24. * pow(F[m * j + k], 5));
+            }
+        }
+        break;
+    }
+    case 5: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] =
+                    dark2 * dark *
+                    (16. - 136. * pow(F[m * j + k], 2) + 240. * pow(F[m * j + k], 4) - 120. * pow(F[m * j + k], 6));
+            }
+        }
+        break;
+    }
+    case 6: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark *
+                               (-272. * F[m * j + k] + 1232. * pow(F[m * j + k], 3) - 1680. * pow(F[m * j + k], 5) +
+                                720. * pow(F[m * j + k], 7));
+            }
+        }
+        break;
+    }
+    case 7: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark *
+                               (-272. + 3968. * pow(F[m * j + k], 2) - 12096. * pow(F[m * j + k], 4) +
+                                13440. * pow(F[m * j + k], 6) - 5040. * pow(F[m * j + k], 8));
+            }
+        }
+        break;
+    }
+    case 8: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark *
+                               (7936. * F[m * j + k] - 56320. * pow(F[m * j + k], 3) + 129024. * pow(F[m * j + k], 5) -
+                                120960. * pow(F[m * j + k], 7) + 40320. * pow(F[m * j + k], 9));
+            }
+        }
+        break;
+    }
+    }
+    return;
+}
+
+// nELM Sin *******************************************************************************************
+void nELMSin::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
+
+    int i, j, k;
+    double dark, darkw, dark2 = 1.;
+    int dark1 = 0;
+
+    for (i = 0; i < dDim0; i++) {
+        dark1 += d[i];
+        dark2 *= pow(c[i], d[i]);
+    }
+
+    if (dark1 % 4 == 0) {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                darkw = 0.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                for (i = 0; i < dim; i++)
+                    darkw += w[i * m + k] * x[i * in + j];
+                F[m * j + k] = dark2 * dark * sin(darkw + b[k]);
+            }
+        }
+    } else if (dark1 % 4 == 1) {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                darkw = 0.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                for (i = 0; i < dim; i++)
+                    darkw += w[i * m + k] * x[i * in + j];
+                F[m * j + k] = dark2 * dark * cos(darkw + b[k]);
+            }
+        }
+    } else if (dark1 % 4 == 2) {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                darkw = 0.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                for (i = 0; i < dim; i++)
+                    darkw += w[i * m + k] * x[i * in + j];
+                F[m * j + k] = -dark2 * dark * sin(darkw + b[k]);
+            }
+        }
+    } else {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                darkw = 0.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                for (i = 0; i < dim; i++)
+                    darkw += w[i * m + k] * x[i * in + j];
+                F[m * j + k] = -dark2 * dark * cos(darkw + b[k]);
+            }
+        }
+    }
+    return;
+}
+
+// nELM Swish *******************************************************************************************
+void nELMSwish::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
+
+    int i, j, k;
+    int dark1 = 0;
+    double dark, dark2 = 1.;
+    double *sig = new double[in * m];  // Allocated on the heap, as allocating on the stack frequently causes segfaults
+                                       // due to size. - CL
+    double *zint = new double[in * m]; // Allocated on the heap, as allocating on the stack frequently causes segfaults
+                                       // due to size. - CL
+    for (i = 0; i < dDim0; i++) {
+        dark1 += d[i];
+        dark2 *= pow(c[i], d[i]);
+    }
+
+    if (dark1 == 0) {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 0.;
+                for (i = 0; i < dim; i++)
+                    dark += w[i * m + k] * x[i * in + j];
+                F[m * j + k] = (dark + b[k]) * 1. / (1. + exp(-dark - b[k]));
+            }
+        }
+
+    } else {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 0.;
+                for (i = 0; i < dim; i++)
+                    dark += w[i * m + k] * x[i * in + j];
+                zint[m * j + k] = dark + b[k];
+                sig[m * j + k] = 1. / (1. + exp(-zint[m * j + k]));
+            }
+        }
+
+        switch (dark1) {
+        case 1: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] =
+                        dark2 * dark * (sig[m * j + k] + zint[m * j + k] * (sig[m * j + k] - pow(sig[m * j + k], 2)));
+                }
+            }
+            break;
+        }
+        case 2: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] = dark2 * dark *
+                                   (2. * (sig[m * j + k] - pow(sig[m * j + k], 2)) +
+                                    zint[m * j + k] *
+                                        (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) + 2. * pow(sig[m * j + k], 3)));
+                }
+            }
+            break;
+        }
+        case 3: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] = dark2 * dark *
+                                   (3. * (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) + 2. * pow(sig[m * j + k], 3)) +
+                                    zint[m * j + k] * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) +
+                                                       12. * pow(sig[m * j + k], 3) - 6. * pow(sig[m * j + k], 4)));
+                }
+            }
+            break;
+        }
+        case 4: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] = dark2 * dark *
+                                   (4. * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) + 12. * pow(sig[m * j + k], 3) -
+                                          6. * pow(sig[m * j + k], 4)) +
+                                    zint[m * j + k] *
+                                        (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) + 50. * pow(sig[m * j + k], 3) -
+                                         60. * pow(sig[m * j + k], 4) + 24. * pow(sig[m * j + k], 5)));
+                }
+            }
+            break;
+        }
+        case 5: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] = dark2 * dark *
+                                   (5. * (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) + 50. * pow(sig[m * j + k], 3) -
+                                          60. * pow(sig[m * j + k], 4) + 24. * pow(sig[m * j + k], 5)) +
+                                    zint[m * j + k] * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) +
+                                                       180. * pow(sig[m * j + k], 3) - 390. * pow(sig[m * j + k], 4) +
+                                                       360. * pow(sig[m * j + k], 5) - 120. * pow(sig[m * j + k], 6)));
+                }
+            }
+            break;
+        }
+        case 6: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] = dark2 * dark *
+                                   (6. * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) +
+                                          180. * pow(sig[m * j + k], 3) - 390. * pow(sig[m * j + k], 4) +
+                                          360. * pow(sig[m * j + k], 5) - 120. * pow(sig[m * j + k], 6)) +
+                                    zint[m * j + k] *
+                                        (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
+                                         2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
+                                         2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)));
+                }
+            }
+            break;
+        }
+        case 7: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] =
+                        dark2 * dark *
+                        (7. * (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
+                               2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
+                               2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)) +
+                         zint[m * j + k] * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) +
+                                            1932. * pow(sig[m * j + k], 3) - 10206. * pow(sig[m * j + k], 4) +
+                                            25200. * pow(sig[m * j + k], 5) - 31920. * pow(sig[m * j + k], 6) +
+                                            20160. * pow(sig[m * j + k], 7) - 5040. * pow(sig[m * j + k], 8)));
+                }
+            }
+            break;
+        }
+        case 8: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] =
+                        dark2 * dark *
+                        (8. * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) + 1932. * pow(sig[m * j + k], 3) -
+                               10206. * pow(sig[m * j + k], 4) + 25200. * pow(sig[m * j + k], 5) -
+                               31920. * pow(sig[m * j + k], 6) + 20160. * pow(sig[m * j + k], 7) -
+                               5040. * pow(sig[m * j + k], 8)) +
+                         zint[m * j + k] *
+                             (sig[m * j + k] - 255. * pow(sig[m * j + k], 2) + 6050. * pow(sig[m * j + k], 3) -
+                              46620. * pow(sig[m * j + k], 4) + 166824. * pow(sig[m * j + k], 5) -
+                              317520. * pow(sig[m * j + k], 6) + 332640. * pow(sig[m * j + k], 7) -
+                              181440. * pow(sig[m * j + k], 8) + 40320. * pow(sig[m * j + k], 9)));
+                }
+            }
+            break;
+        }
+        }
+    }
+    delete[] sig;
+    delete[] zint;
+    return;
+}
+
+// nELM Swish *******************************************************************************************
+void nELMReLU::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
+
+    int i, j, k, h = -1;
+    double dark, dark1;
+    bool zeroFlag = false;
+    for (i = 0; i < dDim0; i++) {
+        if (d[i] > 1 || ((d[i] == 1) && (h != -1))) {
+            zeroFlag = true;
+            break;
+        } else if (d[i] == 1) {
+            h = i;
+            dark1 = c[i];
+        }
+    }
+
+    if (zeroFlag) {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++)
+                F[m * j + k] = 0.;
+        }
+    } else {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 0.;
+                for (i = 0; i < dim; i++)
+                    dark += w[i * m + k] * x[i * in + j];
+                F[m * j + k] = std::max(0., dark + b[k]);
+            }
+        }
+    }
+
+    if (h != -1) {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                if (F[m * j + k] != 0.) {
+                    F[m * j + k] = dark1 * w[h * m + k];
+                }
+            }
+        }
+    }
+    return;
+}
diff --git a/src/tfc/utils/BF.h b/src/tfc/utils/BF.h
index 519970f..a405577 100644
--- a/src/tfc/utils/BF.h
+++ b/src/tfc/utils/BF.h
@@ -1,739 +1,747 @@
-#define _USE_MATH_DEFINES // Needed by Windows
-#include <Python.h>
-#include <float.h>
-#include <iostream>
-#include <math.h>
-#include <vector>
-#ifdef HAS_CUDA
-#include <cuda.h>
-#include <cuda_runtime.h>
-#include <cuda_runtime_api.h>
-#endif
-
-#ifndef BF_H
-#define BF_H
-
-// BasisFunc
-// **************************************************************************************************************************
-/** This class is an abstract class used to create all other basis function classes. It defines standard methods to call
- * the basis function and its derivatives, as well as provides wrappers for XLA computation. */
-class BasisFunc {
-
-  public:
-    /** Beginning of the basis function domain. */
-    double z0;
-
-    /** Start of the problem domain. */
-    double x0;
-
-    /** Multiplier in the linear domain map. */
-    double c;
-
-    /** Array that specifies which basis functions to remove. */
-    int *nC;
-
-    /** Number of basis functions to be removed. */
-    int numC;
-
-    /** Number of basis functions to use. */
-    int m;
-
-    /** Unique identifier for this instance of BasisFunc. */
-    int identifier;
-
-    /** PyObject that contains the XLA version of the basis function. */
-    PyObject *xlaCapsule;
-
-#ifdef HAS_CUDA
-    /** PyObject that contains the XLA version of the basis function that uses a CUDA GPU kernel. */
-    PyObject *xlaGpuCapsule;
-#else
-    const char *xlaGpuCapsule = "CUDA NOT FOUND, GPU NOT IMPLEMENTED.";
-#endif
-
-    /** Counter that increments each time a new instance of BasisFunc is created. */
-    static int nIdentifier;
-
-    /** Vector that contains pointers to all BasisFunc classes. */
-    static std::vector<BasisFunc *> BasisFuncContainer;
-
-  public:
-    /** Basis function class constructor.
-     * 		- Stores variables based on user supplied givens
-     * 		- Stores a pointer to itself using static variables
-     * 		- Creates PyCapsule for xla function. */
-    BasisFunc(double x0in, double xf, const int *nCin, int ncDim0, int min, double z0in = 0., double zf = DBL_MAX);
-
-    /** Basis function class destructor. Removes memory used by the basis function class. */
-    virtual ~BasisFunc();
-
-    // Prevent copying
-    BasisFunc(const BasisFunc &) = delete;
-    BasisFunc &operator=(const BasisFunc &) = delete;
-
-    // Prevent moving
-    BasisFunc(BasisFunc &&) = delete;
-    BasisFunc &operator=(BasisFunc &&) = delete;
-
-    /** Function is used to create a basis function matrix and its derivatives. This matrix is is an m x N matrix where:
-     *  	- m is the number of basis functions
-     *  	- N = in is the number of points in x
-     *  	- d is used to specify the derivative
-     *  	- full is a bool that specifies:
-     *  		- If true, full matrix with no basis functions removed is returned
-     *  		- If false, matrix columns corresponding to the values in nC are removed
-     *  	- useVal is a bool that specifies:
-     *  		- If true, uses the x values given
-     *  		- If false, uses the z values from the class
-     *  Note that this function is used to hook into Python, thus the extra arguments. */
-    virtual void H(const double *x, int n, const int d, int *nOut, int *mOut, double **F, bool full);
-
-    /** This function is an XLA version of the basis function. */
-    virtual void xla(void *out, void **in);
-
-#ifdef HAS_CUDA
-    /** This function is an XLA version of the basis function that uses a CUDA GPU kernel. */
-    void xlaGpu(CUstream stream, void **buffers, const char *opaque, size_t opaque_len);
-#endif
-
-  protected:
-    /** Dummy empty constructor allows derived classes without calling constructor explicitly. */
-    BasisFunc() {};
-
-    /** This function creates a PyCapsule object that wraps the XLA verison of the basis function. */
-    PyObject *GetXlaCapsule();
-
-#ifdef HAS_CUDA
-    /** This function creates a PyCapsule object that wraps the XLA verison of the basis function that uses a CUDA GPU
-     * kernel. */
-    PyObject *GetXlaCapsuleGpu();
-#endif
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    virtual void Hint(const int d, const double *x, const int nOut, double *dark) = 0;
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    virtual void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) = 0;
-};
-
-// XLA related declarations:
-// **********************************************************************************************************
-/** Pointer for XLA-type function that can be cast to void* and put in a PyCapsule. */
-typedef void (*xlaFnType)(void *, void **);
-
-#ifdef HAS_CUDA
-/** Pointer for GPU compatible XLA-type function that can be cast to void* and put in a PyCapsule. */
-typedef void (*xlaGpuFnType)(CUstream, void **, const char *, size_t);
-
-/** Function used to wrap BasisFunc->xlaGpu in C-style function that can be cast to void*. */
-void xlaGpuWrapper(CUstream stream, void **buffers, const char *opaque, size_t opaque_len);
-#endif
-
-// CP:
-// ********************************************************************************************************************************
-/** Class for Chebyshev orthogonal polynomials. */
-class CP : virtual public BasisFunc {
-  public:
-    /** CP class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
-    CP(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : BasisFunc(x0, xf, nCin, ncDim0, min, -1., 1.) {};
-
-    /** CP class destructor.*/
-    virtual ~CP() {};
-
-    // Prevent copying
-    CP(const CP &) = delete;
-    CP &operator=(const CP &) = delete;
-
-    // Prevent moving
-    CP(CP &&) = delete;
-    CP &operator=(CP &&) = delete;
-
-  protected:
-    /** Dummy CP class constructor. Used only in n-dimensions. */
-    CP() {};
-
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
-};
-
-// LeP:
-// ********************************************************************************************************************************
-/** Class for Legendre orthogonal polynomials. */
-class LeP : virtual public BasisFunc {
-  public:
-    /** LeP class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
-    LeP(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : BasisFunc(x0, xf, nCin, ncDim0, min, -1., 1.) {};
-
-    /** Dummy LeP class constructor. Used only in n-dimensions. */
-    LeP() {};
-
-    /** LeP class destructor.*/
-    ~LeP() {};
-
-  protected:
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
-};
-
-// LaP:
-// ********************************************************************************************************************************
-/** Class for Laguerre orthogonal polynomials. */
-class LaP : public BasisFunc {
-  public:
-    /** LaP class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
-    LaP(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : BasisFunc(x0, xf, nCin, ncDim0, min) {};
-    /** LaP class destructor.*/
-    ~LaP() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
-};
-
-// HoPpro:
-// ********************************************************************************************************************************
-/** Class for Hermite probablist orthogonal polynomials. */
-class HoPpro : public BasisFunc {
-  public:
-    /** HoPpro class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
-    HoPpro(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : BasisFunc(x0, xf, nCin, ncDim0, min) {};
-    /** HoPpro class destructor.*/
-    ~HoPpro() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
-};
-
-// HoPphy:
-// ********************************************************************************************************************************
-/** Class for Hermite physicist orthogonal polynomials. */
-class HoPphy : public BasisFunc {
-  public:
-    /** HoPphy class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
-    HoPphy(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : BasisFunc(x0, xf, nCin, ncDim0, min) {};
-    /** HoPphy class destructor.*/
-    ~HoPphy() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
-};
-
-// FS:
-// ********************************************************************************************************************************
-/** Class for Fourier Series basis. */
-class FS : virtual public BasisFunc {
-  public:
-    /** FS class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
-    FS(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : BasisFunc(x0, xf, nCin, ncDim0, min, -M_PI, M_PI) {};
-
-    /** Dummy FS class constructor. Used only in n-dimensions. */
-    FS() {};
-
-    /** FS class destructor.*/
-    ~FS() {};
-
-  protected:
-    /** Function used internally to create the basis function matrices and derivatives. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-
-    /** This function is unecessary for FS as it is all handled in Hint. Therefore, this is just an empty function that
-     * returns a warning. */
-    void RecurseDeriv(const int, int, const double *, const int, double *&, const int) {
-        fprintf(stderr,
-                "Warning, this function from FS should never be called. It seems it has been called by accident. "
-                "Please check that this function was intended to be called.\n");
-        printf("Warning, this function from FS should never be called. It seems it has been called by accident. Please "
-               "check that this function was intended to be called.\n");
-    };
-};
-
-// ELM base class:
-// ********************************************************************************************************************************
-/** ELM base class. */
-class ELM : public BasisFunc {
-  public:
-    /** ELM weights. */
-    double *w;
-
-    /** ELM biases. */
-    double *b;
-
-    /** ELM class constructor. Calls BasisFunc class constructor and sets up weights and biases for the ELM. See
-     * BasisFunc class for more details. */
-    ELM(double x0, double xf, const int *nCin, int ncDim0, int min);
-
-    /** ELM class destructor.*/
-    virtual ~ELM();
-
-    /** Python hook to return ELM weights. */
-    void getW(double **arrOut, int *nOut);
-
-    /** Python hook to set ELM weights. */
-    void setW(const double *arrIn, int nIn);
-
-    /** Python hook to return ELM biases. */
-    void getB(double **arrOut, int *nOut);
-
-    /** Python hook to set ELM biases. */
-    void setB(const double *arrIn, int nIn);
-
-  protected:
-    /** Function used internally to create the basis function matrices. */
-    virtual void Hint(const int d, const double *x, const int nOut, double *dark) = 0;
-
-    /** This function is unecessary for ELM as it is all handled in Hint. Therefore, this is just an empty function that
-     * returns a warning. */
-    void RecurseDeriv(const int, int, const double *, const int, double *&, const int) {
-        fprintf(stderr,
-                "Warning, this function from ELM should never be called. It seems it has been called by accident. "
-                "Please check that this function was intended to be called.\n");
-        printf("Warning, this function from ELM should never be called. It seems it has been called by accident. "
-               "Please check that this function was intended to be called.\n");
-    };
-};
-
-// ELM sigmoid:
-// ********************************************************************************************************************************
-/** ELM that uses the sigmoid activation function. */
-class ELMSigmoid : public ELM {
-
-  public:
-    /** ELMSigmoid class constructor. Calls ELM class constructor. See ELM class for more details. */
-    ELMSigmoid(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : ELM(x0, xf, nCin, ncDim0, min) {};
-
-    /** ELMSigmoid class destructor.*/
-    ~ELMSigmoid() {};
-
-  protected:
-    /** Function used internally to create the basis function matrices and derivatives. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-};
-
-// ELM ReLU:
-// ********************************************************************************************************************************
-/** ELM that uses the recitified linear unit activation function. */
-class ELMReLU : public ELM {
-
-  public:
-    /** ELMReLU class constructor. Calls ELM class constructor. See ELM class for more details. */
-    ELMReLU(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : ELM(x0, xf, nCin, ncDim0, min) {};
-
-    /** ELMReLU class destructor.*/
-    ~ELMReLU() {};
-
-  protected:
-    /** Function used internally to create the basis function matrices and derivatives. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-};
-
-// ELM Tanh:
-// ********************************************************************************************************************************
-/** ELM that uses the tanh activation function. */
-class ELMTanh : public ELM {
-
-  public:
-    /** ELMTanh class constructor. Calls ELM class constructor. See ELM class for more details. */
-    ELMTanh(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : ELM(x0, xf, nCin, ncDim0, min) {};
-
-    /** ELMTanh class destructor.*/
-    ~ELMTanh() {};
-
-  private:
-    /** Function used internally to create the basis function matrices and derivatives. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-};
-
-// ELM Sin:
-// ********************************************************************************************************************************
-/** ELM that uses the sin activation function. */
-class ELMSin : public ELM {
-
-  public:
-    /** ELMSin class constructor. Calls ELM class constructor. See ELM class for more details. */
-    ELMSin(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : ELM(x0, xf, nCin, ncDim0, min) {};
-
-    /** ELMSin class destructor.*/
-    ~ELMSin() {};
-
-  private:
-    /** Function used internally to create the basis function matrices and derivatives. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-};
-
-// ELM Swish:
-// ********************************************************************************************************************************
-/** ELM that uses the swish activation function. */
-class ELMSwish : public ELM {
-
-  public:
-    /** ELMSwish class constructor. Calls ELM class constructor. See ELM class for more details. */
-    ELMSwish(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : ELM(x0, xf, nCin, ncDim0, min) {};
-
-    /** ELMSwish class destructor.*/
-    ~ELMSwish() {};
-
-  private:
-    /** Function used internally to create the basis function matrices and derivatives. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-};
-
-// n-D Basis function base class:
-// ***************************************************************************************************
-
-/** Base class for n-dimensional basis functions. This class inherits from BasisFunc, and contains
- *  methods that are used for all n-dimensional basis fuctions. This is an abstract class.
- *  Concrete n-dimensional basis functions will inherit from this class and one of the concrete
- *  1-dimensional basis function classes. */
-class nBasisFunc : virtual public BasisFunc {
-
-  public:
-    /** Beginning of the basis function domain. */
-    double z0;
-
-    /** Beginning of the basis function domain. */
-    double zf;
-
-    /** Multipliers for the linear domain map. */
-    double *c;
-
-    /** Initial value of the domain */
-    double *x0;
-
-    /** Number of dimensions. */
-    int dim;
-
-    /** Number of basis functions in H matrix. */
-    int numBasisFunc;
-
-    /** Number of basis functions in full H matrix. */
-    int numBasisFuncFull;
-
-  public:
-    /** n-D basis function class constructor. */
-    nBasisFunc(const double *x0in,
-               int x0Dim0,
-               const double *xf,
-               int xfDim0,
-               const int *nCin,
-               int ncDim0,
-               int ncDim1,
-               int min,
-               double z0in = 0.,
-               double zfin = 0.);
-
-    /** n-D basis function class destructor. */
-    virtual ~nBasisFunc();
-
-    /** This function is used to create a basis function matrix and its derivatives. */
-    void
-    H(const double *x, int in, int xDim1, const int *d, int dDim0, int *nOut, int *mOut, double **F, const bool full);
-
-    /** This function is an XLA version of the basis function. */
-    void xla(void *out, void **in) override;
-
-    /** Python hook to return domain mapping constants. */
-    void getC(double **arrOut, int *nOut);
-
-  protected:
-    /** Dummy nBasisFunc constructor used by nELM only. */
-    nBasisFunc() {};
-
-  private:
-    /**
-     * Including override of BasisFunc so we don't have issues with hidden virtual overloads.
-     * However, this should never be called from nBasisFunc.
-     * If it is, it will throw an error.
-     */
-    void H(const double *x, int n, const int d, int *nOut, int *mOut, double **F, bool full) override;
-
-    /** Recursive function used to perform the tensor product of univarite basis functions to form multivariate basis
-     * functions. */
-    void RecurseBasis(int dimCurr,
-                      int *vec,
-                      int &count,
-                      const bool full,
-                      const int in,
-                      const int numBasis,
-                      const double *T,
-                      double *out);
-
-    /** Recursive function used to calculate the size of the multivariate basis function matrix. */
-    void NumBasisFunc(int dimCurr, int *vec, int &count, const bool full);
-
-    /** Internal function used to calculate dim sets of univariate basis functions with specified derivatives. Note,
-     * that if dDim0 < dim, then 0's will be used for the tail end.*/
-    virtual void nHint(const double *x, int in, const int *d, int dDim0, int numBasis, double *&F, const bool full);
-
-    /** Function used internally to create the basis function matrices. */
-    virtual void Hint(const int d, const double *x, const int nOut, double *dark) override = 0;
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    virtual void
-    RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) override = 0;
-};
-
-// n-D CP class:
-// ******************************************************************************************************************
-/** Class for n-dimensional Chebyshev orthogonal polynomials. */
-class nCP : public nBasisFunc, public CP {
-
-  public:
-    /** nCP class constructor. Calls nBasisFunc class constructor and dummy constructors of remaining parents. See
-     * nBasisFunc class for more details. */
-    nCP(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int ncDim1, int min)
-        : nBasisFunc(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, ncDim1, min, -1., 1.) {};
-
-    /** nCP class destructor.*/
-    ~nCP() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark) { CP::Hint(d, x, nOut, dark); };
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-        CP::RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    };
-};
-
-// n-D LeP class:
-// ******************************************************************************************************************
-/** Class for n-dimensional Legendre orthogonal polynomials. */
-class nLeP : public nBasisFunc, public LeP {
-
-  public:
-    /** nLeP class constructor. Calls nBasisFunc class constructor and dummy constructors of remaining parents. See
-     * nBasisFunc class for more details. */
-    nLeP(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int ncDim1, int min)
-        : nBasisFunc(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, ncDim1, min, -1., 1.) {};
-
-    /** nLeP class destructor.*/
-    ~nLeP() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark) { LeP::Hint(d, x, nOut, dark); };
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-        LeP::RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    };
-};
-
-// n-D FS class:
-// ******************************************************************************************************************
-/** Class for n-dimensional Fourier Series. */
-class nFS : public nBasisFunc, public FS {
-
-  public:
-    /** nFS class constructor. Calls nBasisFunc class constructor and dummy constructors of remaining parents. See
-     * nBasisFunc class for more details. */
-    nFS(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int ncDim1, int min)
-        : nBasisFunc(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, ncDim1, min, -M_PI, M_PI) {};
-
-    /** nFS class destructor.*/
-    ~nFS() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark) { FS::Hint(d, x, nOut, dark); };
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-        FS::RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    };
-};
-
-// n-D ELM base class:
-// *******************************************************************************************************************************************************
-/** n-D ELM base class. */
-class nELM : public nBasisFunc {
-
-  public:
-    /** Beginning of the basis function domain. */
-    double z0;
-
-    /** Beginning of the basis function domain. */
-    double zf;
-
-    /** nELM weights. */
-    double *w;
-
-    /** nELM biases. */
-    double *b;
-
-    /** n-D ELM class constructor. */
-    nELM(const double *x0in,
-         int x0Dim0,
-         const double *xf,
-         int xfDim0,
-         const int *nCin,
-         int ncDim0,
-         int min,
-         double z0in = 0.,
-         double zfin = 1.);
-
-    /** n-D ELM class destructor. */
-    virtual ~nELM();
-
-    /** Python hook to return nELM weights. */
-    void setW(const double *arrIn, int dimIn, int nIn);
-
-    /** Python hook to set nELM weights. */
-    void getW(int *dimOut, int *nOut, double **arrOut);
-
-    /** Python hook to return nELM biases. */
-    void getB(double **arrOut, int *nOut);
-
-    /** Python hook to set nELM biases. */
-    void setB(const double *arrIn, int nIn);
-
-  private:
-    /** Internal function used to calculate dim sets of univariate basis functions with specified derivatives. Note,
-     * that if dDim0 < dim, then 0's will be used for the tail end.*/
-    void nHint(const double *x, int in, const int *d, int dDim0, int numBasis, double *&F, const bool full) override;
-
-    /** This function handles creating a full matrix of nELM basis functions. */
-    virtual void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) = 0;
-
-    /** This function is unecessary for nELM as it is all handled in nElmHint. Therefore, this is just an empty function
-     * that returns a warning. */
-    void Hint(const int, const double *, const int, double *) override {
-        fprintf(stderr,
-                "Warning, this function from nELM should never be called. It seems it has been called by accident. "
-                "Please check that this function was intended to be called.\n");
-        printf("Warning, this function from nELM should never be called. It seems it has been called by accident. "
-               "Please check that this function was intended to be called.\n");
-    };
-
-    /** This function is unecessary for nELM as it is all handled in nElmHint. Therefore, this is just an empty function
-     * that returns a warning. */
-    void RecurseDeriv(const int, int, const double *, const int, double *&, const int) override {
-        fprintf(stderr,
-                "Warning, this function from nELM should never be called. It seems it has been called by accident. "
-                "Please check that this function was intended to be called.\n");
-        printf("Warning, this function from nELM should never be called. It seems it has been called by accident. "
-               "Please check that this function was intended to be called.\n");
-    };
-};
-
-// n-D ELM sigmoid class:
-// *******************************************************************************************************************************************************
-/** n-D ELM that uses the sigmoid activation function. */
-class nELMSigmoid : public nELM {
-
-  public:
-    /** nELMSigmoid class constructor. Calls nELM class constructor. See nELM class for more details. */
-    nELMSigmoid(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
-        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
-
-    /** nELMSigmoid class destructor.*/
-    ~nELMSigmoid() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
-};
-
-// n-D ELM Tanh class:
-// *******************************************************************************************************************************************************
-/** n-D ELM that uses the tanh activation function. */
-class nELMTanh : public nELM {
-
-  public:
-    /** nELMTanh class constructor. Calls nELM class constructor. See nELM class for more details. */
-    nELMTanh(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
-        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
-
-    /** nELMTanh class destructor.*/
-    ~nELMTanh() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
-};
-
-// n-D ELM Sin class:
-// *******************************************************************************************************************************************************
-/** n-D ELM that uses the sine activation function. */
-class nELMSin : public nELM {
-
-  public:
-    /** nELMSin class constructor. Calls nELM class constructor. See nELM class for more details. */
-    nELMSin(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
-        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
-
-    /** nELMSin class destructor.*/
-    ~nELMSin() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
-};
-
-// n-D ELM Swish class:
-// *******************************************************************************************************************************************************
-/** n-D ELM that uses the swish activation function. */
-class nELMSwish : public nELM {
-
-  public:
-    /** nELMSwish class constructor. Calls nELM class constructor. See nELM class for more details. */
-    nELMSwish(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
-        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
-
-    /** nELMSwish class destructor.*/
-    ~nELMSwish() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
-};
-
-// n-D ELM ReLU class:
-// *******************************************************************************************************************************************************
-/** n-D ELM that uses the rectified linear activation function. */
-class nELMReLU : public nELM {
-
-  public:
-    /** nELMReLU class constructor. Calls nELM class constructor. See nELM class for more details. */
-    nELMReLU(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
-        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
-
-    /** nELMReLU class destructor.*/
-    ~nELMReLU() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
-};
-
-#endif
+#define _USE_MATH_DEFINES // Needed by Windows
+#include <Python.h>
+#include <float.h>
+#include <iostream>
+#include <math.h>
+#include <mutex>
+#include <shared_mutex>
+#include <vector>
+#ifdef HAS_CUDA
+#include <cuda.h>
+#include <cuda_runtime.h>
+#include <cuda_runtime_api.h>
+#endif
+
+#ifndef BF_H
+#define BF_H
+
+// BasisFunc
+// **************************************************************************************************************************
+/** This class is an abstract class used to create all other basis function classes. It defines standard methods to call
+ * the basis function and its derivatives, as well as provides wrappers for XLA computation. */
+class BasisFunc {
+
+  public:
+    /** Beginning of the basis function domain. */
+    double z0;
+
+    /** Start of the problem domain. */
+    double x0;
+
+    /** Multiplier in the linear domain map. */
+    double c;
+
+    /** Array that specifies which basis functions to remove. */
+    int *nC;
+
+    /** Number of basis functions to be removed. */
+    int numC;
+
+    /** Number of basis functions to use. */
+    int m;
+
+    /** Unique identifier for this instance of BasisFunc. */
+    int identifier;
+
+    /** PyObject that contains the XLA version of the basis function. */
+    PyObject *xlaCapsule;
+
+#ifdef HAS_CUDA
+    /** PyObject that contains the XLA version of the basis function that uses a CUDA GPU kernel. */
+    PyObject *xlaGpuCapsule;
+#else
+    const char *xlaGpuCapsule = "CUDA NOT FOUND, GPU NOT IMPLEMENTED.";
+#endif
+
+    /** Counter that increments each time a new instance of BasisFunc is created. */
+    static int nIdentifier;
+
+    /** Vector that contains pointers to all BasisFunc classes. */
+    static std::vector<BasisFunc *> BasisFuncContainer;
+
+    /** Guards BasisFuncContainer and nIdentifier: XLA threads look instances up without holding the GIL. */
+    static std::shared_mutex containerMutex;
+
+  public:
+    /** Basis function class constructor.
+     * 		- Stores variables based on user supplied givens
+     * 		- Stores a pointer to itself using static variables
+     * 		- Creates PyCapsule for xla function. */
+    BasisFunc(double x0in, double xf, const int *nCin, int ncDim0, int min, double z0in = 0., double zf = DBL_MAX);
+
+    /** Basis function class destructor. Removes memory used by the basis function class. */
+    virtual ~BasisFunc();
+
+    // Prevent copying
+    BasisFunc(const BasisFunc &) = delete;
+    BasisFunc &operator=(const BasisFunc &) = delete;
+
+    // Prevent moving
+    BasisFunc(BasisFunc &&) = delete;
+    BasisFunc &operator=(BasisFunc &&) = delete;
+
+    /** Function is used to create a basis function matrix and its derivatives. This matrix is is an m x N matrix where:
+     *  	- m is the number of basis functions
+     *  	- N = in is the number of points in x
+     *  	- d is used to specify the derivative
+     *  	- full is a bool that specifies:
+     *  		- If true, full matrix with no basis functions removed is returned
+     *  		- If false, matrix columns corresponding to the values in nC are removed
+     *  	- useVal is a bool that specifies:
+     *  		- If true, uses the x values given
+     *  		- If false, uses the z values from the class
+     *  Note that this function is used to hook into Python, thus the extra arguments. */
+    virtual void H(const double *x, int n, const int d, int *nOut, int *mOut, double **F, bool full);
+
+    /** This function is an XLA version of the basis function. */
+    virtual void xla(void *out, void **in);
+
+#ifdef HAS_CUDA
+    /** This function is an XLA version of the basis function that uses a CUDA GPU kernel. */
+    void xlaGpu(CUstream stream, void **buffers, const char *opaque, size_t opaque_len);
+#endif
+
+  protected:
+    /** Dummy empty constructor allows derived classes without calling constructor explicitly. */
+    BasisFunc() {};
+
+    /** Tracks this instance in BasisFuncContainer and sets its identifier. */
+    void Register();
+
+    /** This function creates a PyCapsule object that wraps the XLA verison of the basis function. */
+    PyObject *GetXlaCapsule();
+
+#ifdef HAS_CUDA
+    /** This function creates a PyCapsule object that wraps the XLA verison of the basis function that uses a CUDA GPU
+     * kernel. */
+    PyObject *GetXlaCapsuleGpu();
+#endif
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    virtual void Hint(const int d, const double *x, const int nOut, double *dark) = 0;
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    virtual void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) = 0;
+};
+
+// XLA related declarations:
+// **********************************************************************************************************
+/** Pointer for XLA-type function that can be cast to void* and put in a PyCapsule. */
+typedef void (*xlaFnType)(void *, void **);
+
+#ifdef HAS_CUDA
+/** Pointer for GPU compatible XLA-type function that can be cast to void* and put in a PyCapsule. */
+typedef void (*xlaGpuFnType)(CUstream, void **, const char *, size_t);
+
+/** Function used to wrap BasisFunc->xlaGpu in C-style function that can be cast to void*. */
+void xlaGpuWrapper(CUstream stream, void **buffers, const char *opaque, size_t opaque_len);
+#endif
+
+// CP:
+// ********************************************************************************************************************************
+/** Class for Chebyshev orthogonal polynomials. */
+class CP : virtual public BasisFunc {
+  public:
+    /** CP class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
+    CP(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : BasisFunc(x0, xf, nCin, ncDim0, min, -1., 1.) {};
+
+    /** CP class destructor.*/
+    virtual ~CP() {};
+
+    // Prevent copying
+    CP(const CP &) = delete;
+    CP &operator=(const CP &) = delete;
+
+    // Prevent moving
+    CP(CP &&) = delete;
+    CP &operator=(CP &&) = delete;
+
+  protected:
+    /** Dummy CP class constructor. Used only in n-dimensions. */
+    CP() {};
+
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
+};
+
+// LeP:
+// ********************************************************************************************************************************
+/** Class for Legendre orthogonal polynomials. */
+class LeP : virtual public BasisFunc {
+  public:
+    /** LeP class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
+    LeP(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : BasisFunc(x0, xf, nCin, ncDim0, min, -1., 1.) {};
+
+    /** Dummy LeP class constructor. Used only in n-dimensions. */
+    LeP() {};
+
+    /** LeP class destructor.*/
+    ~LeP() {};
+
+  protected:
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
+};
+
+// LaP:
+// ********************************************************************************************************************************
+/** Class for Laguerre orthogonal polynomials. */
+class LaP : public BasisFunc {
+  public:
+    /** LaP class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
+    LaP(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : BasisFunc(x0, xf, nCin, ncDim0, min) {};
+    /** LaP class destructor.*/
+    ~LaP() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
+};
+
+// HoPpro:
+// ********************************************************************************************************************************
+/** Class for Hermite probablist orthogonal polynomials. */
+class HoPpro : public BasisFunc {
+  public:
+    /** HoPpro class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
+    HoPpro(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : BasisFunc(x0, xf, nCin, ncDim0, min) {};
+    /** HoPpro class destructor.*/
+    ~HoPpro() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
+};
+
+// HoPphy:
+// ********************************************************************************************************************************
+/** Class for Hermite physicist orthogonal polynomials. */
+class HoPphy : public BasisFunc {
+  public:
+    /** HoPphy class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
+    HoPphy(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : BasisFunc(x0, xf, nCin, ncDim0, min) {};
+    /** HoPphy class destructor.*/
+    ~HoPphy() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
+};
+
+// FS:
+// ********************************************************************************************************************************
+/** Class for Fourier Series basis. */
+class FS : virtual public BasisFunc {
+  public:
+    /** FS class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
+    FS(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : BasisFunc(x0, xf, nCin, ncDim0, min, -M_PI, M_PI) {};
+
+    /** Dummy FS class constructor. Used only in n-dimensions. */
+    FS() {};
+
+    /** FS class destructor.*/
+    ~FS() {};
+
+  protected:
+    /** Function used internally to create the basis function matrices and derivatives. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+
+    /** This function is unecessary for FS as it is all handled in Hint. Therefore, this is just an empty function that
+     * returns a warning. */
+    void RecurseDeriv(const int, int, const double *, const int, double *&, const int) {
+        fprintf(stderr,
+                "Warning, this function from FS should never be called. It seems it has been called by accident. "
+                "Please check that this function was intended to be called.\n");
+        printf("Warning, this function from FS should never be called. It seems it has been called by accident. Please "
+               "check that this function was intended to be called.\n");
+    };
+};
+
+// ELM base class:
+// ********************************************************************************************************************************
+/** ELM base class. */
+class ELM : public BasisFunc {
+  public:
+    /** ELM weights. */
+    double *w;
+
+    /** ELM biases. */
+    double *b;
+
+    /** ELM class constructor. Calls BasisFunc class constructor and sets up weights and biases for the ELM. See
+     * BasisFunc class for more details. */
+    ELM(double x0, double xf, const int *nCin, int ncDim0, int min);
+
+    /** ELM class destructor.*/
+    virtual ~ELM();
+
+    /** Python hook to return ELM weights. */
+    void getW(double **arrOut, int *nOut);
+
+    /** Python hook to set ELM weights. */
+    void setW(const double *arrIn, int nIn);
+
+    /** Python hook to return ELM biases. */
+    void getB(double **arrOut, int *nOut);
+
+    /** Python hook to set ELM biases. */
+    void setB(const double *arrIn, int nIn);
+
+  protected:
+    /** Function used internally to create the basis function matrices. */
+    virtual void Hint(const int d, const double *x, const int nOut, double *dark) = 0;
+
+    /** This function is unecessary for ELM as it is all handled in Hint. Therefore, this is just an empty function that
+     * returns a warning. */
+    void RecurseDeriv(const int, int, const double *, const int, double *&, const int) {
+        fprintf(stderr,
+                "Warning, this function from ELM should never be called. It seems it has been called by accident. "
+                "Please check that this function was intended to be called.\n");
+        printf("Warning, this function from ELM should never be called. It seems it has been called by accident. "
+               "Please check that this function was intended to be called.\n");
+    };
+};
+
+// ELM sigmoid:
+// ********************************************************************************************************************************
+/** ELM that uses the sigmoid activation function. */
+class ELMSigmoid : public ELM {
+
+  public:
+    /** ELMSigmoid class constructor. Calls ELM class constructor. See ELM class for more details. */
+    ELMSigmoid(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : ELM(x0, xf, nCin, ncDim0, min) {};
+
+    /** ELMSigmoid class destructor.*/
+    ~ELMSigmoid() {};
+
+  protected:
+    /** Function used internally to create the basis function matrices and derivatives. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+};
+
+// ELM ReLU:
+// ********************************************************************************************************************************
+/** ELM that uses the recitified linear unit activation function. */
+class ELMReLU : public ELM {
+
+  public:
+    /** ELMReLU class constructor. Calls ELM class constructor. See ELM class for more details. */
+    ELMReLU(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : ELM(x0, xf, nCin, ncDim0, min) {};
+
+    /** ELMReLU class destructor.*/
+    ~ELMReLU() {};
+
+  protected:
+    /** Function used internally to create the basis function matrices and derivatives. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+};
+
+// ELM Tanh:
+// ********************************************************************************************************************************
+/** ELM that uses the tanh activation function. */
+class ELMTanh : public ELM {
+
+  public:
+    /** ELMTanh class constructor. Calls ELM class constructor. See ELM class for more details. */
+    ELMTanh(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : ELM(x0, xf, nCin, ncDim0, min) {};
+
+    /** ELMTanh class destructor.*/
+    ~ELMTanh() {};
+
+  private:
+    /** Function used internally to create the basis function matrices and derivatives. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+};
+
+// ELM Sin:
+// ********************************************************************************************************************************
+/** ELM that uses the sin activation function. */
+class ELMSin : public ELM {
+
+  public:
+    /** ELMSin class constructor. Calls ELM class constructor. See ELM class for more details. */
+    ELMSin(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : ELM(x0, xf, nCin, ncDim0, min) {};
+
+    /** ELMSin class destructor.*/
+    ~ELMSin() {};
+
+  private:
+    /** Function used internally to create the basis function matrices and derivatives. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+};
+
+// ELM Swish:
+// ********************************************************************************************************************************
+/** ELM that uses the swish activation function. */
+class ELMSwish : public ELM {
+
+  public:
+    /** ELMSwish class constructor. Calls ELM class constructor. See ELM class for more details. */
+    ELMSwish(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : ELM(x0, xf, nCin, ncDim0, min) {};
+
+    /** ELMSwish class destructor.*/
+    ~ELMSwish() {};
+
+  private:
+    /** Function used internally to create the basis function matrices and derivatives. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+};
+
+// n-D Basis function base class:
+// ***************************************************************************************************
+
+/** Base class for n-dimensional basis functions. This class inherits from BasisFunc, and contains
+ *  methods that are used for all n-dimensional basis fuctions. This is an abstract class.
+ *  Concrete n-dimensional basis functions will inherit from this class and one of the concrete
+ *  1-dimensional basis function classes. */
+class nBasisFunc : virtual public BasisFunc {
+
+  public:
+    /** Beginning of the basis function domain. */
+    double z0;
+
+    /** Beginning of the basis function domain. */
+    double zf;
+
+    /** Multipliers for the linear domain map. */
+    double *c;
+
+    /** Initial value of the domain */
+    double *x0;
+
+    /** Number of dimensions. */
+    int dim;
+
+    /** Number of basis functions in H matrix. */
+    int numBasisFunc;
+
+    /** Number of basis functions in full H matrix. */
+    int numBasisFuncFull;
+
+  public:
+    /** n-D basis function class constructor. */
+    nBasisFunc(const double *x0in,
+               int x0Dim0,
+               const double *xf,
+               int xfDim0,
+               const int *nCin,
+               int ncDim0,
+               int ncDim1,
+               int min,
+               double z0in = 0.,
+               double zfin = 0.);
+
+    /** n-D basis function class destructor. */
+    virtual ~nBasisFunc();
+
+    /** This function is used to create a basis function matrix and its derivatives. */
+    void
+    H(const double *x, int in, int xDim1, const int *d, int dDim0, int *nOut, int *mOut, double **F, const bool full);
+
+    /** This function is an XLA version of the basis function. */
+    void xla(void *out, void **in) override;
+
+    /** Python hook to return domain mapping constants. */
+    void getC(double **arrOut, int *nOut);
+
+  protected:
+    /** Dummy nBasisFunc constructor used by nELM only. */
+    nBasisFunc() {};
+
+  private:
+    /**
+     * Including override of BasisFunc so we don't have issues with hidden virtual overloads.
+     * However, this should never be called from nBasisFunc.
+     * If it is, it will throw an error.
+     */
+    void H(const double *x, int n, const int d, int *nOut, int *mOut, double **F, bool full) override;
+
+    /** Recursive function used to perform the tensor product of univarite basis functions to form multivariate basis
+     * functions. */
+    void RecurseBasis(int dimCurr,
+                      int *vec,
+                      int &count,
+                      const bool full,
+                      const int in,
+                      const int numBasis,
+                      const double *T,
+                      double *out);
+
+    /** Recursive function used to calculate the size of the multivariate basis function matrix. */
+    void NumBasisFunc(int dimCurr, int *vec, int &count, const bool full);
+
+    /** Internal function used to calculate dim sets of univariate basis functions with specified derivatives. Note,
+     * that if dDim0 < dim, then 0's will be used for the tail end.*/
+    virtual void nHint(const double *x, int in, const int *d, int dDim0, int numBasis, double *&F, const bool full);
+
+    /** Function used internally to create the basis function matrices. */
+    virtual void Hint(const int d, const double *x, const int nOut, double *dark) override = 0;
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    virtual void
+    RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) override = 0;
+};
+
+// n-D CP class:
+// ******************************************************************************************************************
+/** Class for n-dimensional Chebyshev orthogonal polynomials. */
+class nCP : public nBasisFunc, public CP {
+
+  public:
+    /** nCP class constructor. Calls nBasisFunc class constructor and dummy constructors of remaining parents. See
+     * nBasisFunc class for more details. */
+    nCP(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int ncDim1, int min)
+        : nBasisFunc(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, ncDim1, min, -1., 1.) {};
+
+    /** nCP class destructor.*/
+    ~nCP() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark) { CP::Hint(d, x, nOut, dark); };
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+        CP::RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    };
+};
+
+// n-D LeP class:
+// ******************************************************************************************************************
+/** Class for n-dimensional Legendre orthogonal polynomials. */
+class nLeP : public nBasisFunc, public LeP {
+
+  public:
+    /** nLeP class constructor. Calls nBasisFunc class constructor and dummy constructors of remaining parents. See
+     * nBasisFunc class for more details. */
+    nLeP(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int ncDim1, int min)
+        : nBasisFunc(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, ncDim1, min, -1., 1.) {};
+
+    /** nLeP class destructor.*/
+    ~nLeP() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark) { LeP::Hint(d, x, nOut, dark); };
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+        LeP::RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    };
+};
+
+// n-D FS class:
+// ******************************************************************************************************************
+/** Class for n-dimensional Fourier Series. */
+class nFS : public nBasisFunc, public FS {
+
+  public:
+    /** nFS class constructor. Calls nBasisFunc class constructor and dummy constructors of remaining parents. See
+     * nBasisFunc class for more details. */
+    nFS(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int ncDim1, int min)
+        : nBasisFunc(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, ncDim1, min, -M_PI, M_PI) {};
+
+    /** nFS class destructor.*/
+    ~nFS() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark) { FS::Hint(d, x, nOut, dark); };
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+        FS::RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    };
+};
+
+// n-D ELM base class:
+// *******************************************************************************************************************************************************
+/** n-D ELM base class. */
+class nELM : public nBasisFunc {
+
+  public:
+    /** Beginning of the basis function domain. */
+    double z0;
+
+    /** Beginning of the basis function domain. */
+    double zf;
+
+    /** nELM weights. */
+    double *w;
+
+    /** nELM biases. */
+    double *b;
+
+    /** n-D ELM class constructor. */
+    nELM(const double *x0in,
+         int x0Dim0,
+         const double *xf,
+         int xfDim0,
+         const int *nCin,
+         int ncDim0,
+         int min,
+         double z0in = 0.,
+         double zfin = 1.);
+
+    /** n-D ELM class destructor. */
+    virtual ~nELM();
+
+    /** Python hook to return nELM weights. */
+    void setW(const double *arrIn, int dimIn, int nIn);
+
+    /** Python hook to set nELM weights. */
+    void getW(int *dimOut, int *nOut, double **arrOut);
+
+    /** Python hook to return nELM biases. */
+    void getB(double **arrOut, int *nOut);
+
+    /** Python hook to set nELM biases. */
+    void setB(const double *arrIn, int nIn);
+
+  private:
+    /** Internal function used to calculate dim sets of univariate basis functions with specified derivatives. Note,
+     * that if dDim0 < dim, then 0's will be used for the tail end.*/
+    void nHint(const double *x, int in, const int *d, int dDim0, int numBasis, double *&F, const bool full) override;
+
+    /** This function handles creating a full matrix of nELM basis functions. */
+    virtual void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) = 0;
+
+    /** This function is unecessary for nELM as it is all handled in nElmHint. Therefore, this is just an empty function
+     * that returns a warning. */
+    void Hint(const int, const double *, const int, double *) override {
+        fprintf(stderr,
+                "Warning, this function from nELM should never be called. It seems it has been called by accident. "
+                "Please check that this function was intended to be called.\n");
+        printf("Warning, this function from nELM should never be called. It seems it has been called by accident. "
+               "Please check that this function was intended to be called.\n");
+    };
+
+    /** This function is unecessary for nELM as it is all handled in nElmHint. Therefore, this is just an empty function
+     * that returns a warning. */
+    void RecurseDeriv(const int, int, const double *, const int, double *&, const int) override {
+        fprintf(stderr,
+                "Warning, this function from nELM should never be called. It seems it has been called by accident. "
+                "Please check that this function was intended to be called.\n");
+        printf("Warning, this function from nELM should never be called. It seems it has been called by accident. "
+               "Please check that this function was intended to be called.\n");
+    };
+};
+
+// n-D ELM sigmoid class:
+// *******************************************************************************************************************************************************
+/** n-D ELM that uses the sigmoid activation function. */
+class nELMSigmoid : public nELM {
+
+  public:
+    /** nELMSigmoid class constructor. Calls nELM class constructor. See nELM class for more details. */
+    nELMSigmoid(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
+        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
+
+    /** nELMSigmoid class destructor.*/
+    ~nELMSigmoid() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
+};
+
+// n-D ELM Tanh class:
+// *******************************************************************************************************************************************************
+/** n-D ELM that uses the tanh activation function. */
+class nELMTanh : public nELM {
+
+  public:
+    /** nELMTanh class constructor. Calls nELM class constructor. See nELM class for more details. */
+    nELMTanh(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
+        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
+
+    /** nELMTanh class destructor.*/
+    ~nELMTanh() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
+};
+
+// n-D ELM Sin class:
+// *******************************************************************************************************************************************************
+/** n-D ELM that uses the sine activation function. */
+class nELMSin : public nELM {
+
+  public:
+    /** nELMSin class constructor. Calls nELM class constructor. See nELM class for more details. */
+    nELMSin(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
+        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
+
+    /** nELMSin class destructor.*/
+    ~nELMSin() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
+};
+
+// n-D ELM Swish class:
+// *******************************************************************************************************************************************************
+/** n-D ELM that uses the swish activation function. */
+class nELMSwish : public nELM {
+
+  public:
+    /** nELMSwish class constructor. Calls nELM class constructor. See nELM class for more details. */
+    nELMSwish(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
+        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
+
+    /** nELMSwish class destructor.*/
+    ~nELMSwish() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
+};
+
+// n-D ELM ReLU class:
+// *******************************************************************************************************************************************************
+/** n-D ELM that uses the rectified linear activation function. */
+class nELMReLU : public nELM {
+
+  public:
+    /** nELMReLU class constructor. Calls nELM class constructor. See nELM class for more details. */
+    nELMReLU(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
+        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
+
+    /** nELMReLU class destructor.*/
+    ~nELMReLU() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
+};
+
+#endif
-- 
2.43.0


From fe6d5da7662ef1610aaf4194863ec141d53ea6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:54 +0000
Subject: [PATCH 18/48] fix: setting ELM weights while compiled code ran could
 evaluate a mix of old and new weights

---
 src/tfc/utils/BF.cc | 5 +++++
 src/tfc/utils/BF.h  | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/tfc/utils/BF.cc b/src/tfc/utils/BF.cc
index 11d3326..104a6a4 100644
--- a/src/tfc/utils/BF.cc
+++ b/src/tfc/utils/BF.cc
@@ -13,6 +13,7 @@ void xlaWrapper(void *out, void **in) {
         std::shared_lock<std::shared_mutex> lock(BasisFunc::containerMutex);
         basisFunc = BasisFunc::BasisFuncContainer[N];
     }
+    std::shared_lock<std::shared_mutex> valueLock(basisFunc->valueMutex);
     basisFunc->xla(out, in);
 }
 
@@ -625,6 +626,7 @@ void ELM::setW(const double *arrIn, int nIn) {
         printf("Failure in setW function. Weight vector is the wrong size. Exiting program.\n");
         exit(EXIT_FAILURE);
     }
+    std::unique_lock<std::shared_mutex> lock(valueMutex);
     for (int k = 0; k < m; k++)
         w[k] = arrIn[k];
 }
@@ -634,6 +636,7 @@ void ELM::setB(const double *arrIn, int nIn) {
         printf("Failure in setB function. Bias vector is the wrong size. Exiting program.\n");
         exit(EXIT_FAILURE);
     }
+    std::unique_lock<std::shared_mutex> lock(valueMutex);
     for (int k = 0; k < m; k++)
         b[k] = arrIn[k];
 }
@@ -1343,6 +1346,7 @@ void nELM::setW(const double *arrIn, int dimIn, int nIn) {
         printf("Failure in setW function. Weight vector is the wrong size. Exiting program.\n");
         exit(EXIT_FAILURE);
     }
+    std::unique_lock<std::shared_mutex> lock(valueMutex);
     for (int k = 0; k < m * dim; k++)
         w[k] = arrIn[k];
 }
@@ -1352,6 +1356,7 @@ void nELM::setB(const double *arrIn, int nIn) {
         printf("Failure in setB function. Bias vector is the wrong size. Exiting program.\n");
         exit(EXIT_FAILURE);
     }
+    std::unique_lock<std::shared_mutex> lock(valueMutex);
     for (int k = 0; k < m; k++)
         b[k] = arrIn[k];
 }
diff --git a/src/tfc/utils/BF.h b/src/tfc/utils/BF.h
index a405577..0be19d6 100644
--- a/src/tfc/utils/BF.h
+++ b/src/tfc/utils/BF.h
@@ -43,6 +43,9 @@ class BasisFunc {
     /** Unique identifier for this instance of BasisFunc. */
     int identifier;
 
+    /** Guards values that Python can change, e.g., ELM weights, while XLA threads evaluate this instance. */
+    std::shared_mutex valueMutex;
+
     /** PyObject that contains the XLA version of the basis function. */
     PyObject *xlaCapsule;
 
-- 
2.43.0


From 159e1160141e1bc731973ed53becc38ddfe90a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:54 +0000
Subject: [PATCH 19/48] fix: assigning ELM weights or biases of the wrong size
 killed the process

---
 src/tfc/utils/BF.cc | 12 ++++--------
 src/tfc/utils/BF.h  |  1 +
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/tfc/utils/BF.cc b/src/tfc/utils/BF.cc
index 104a6a4..aa170f9 100644
--- a/src/tfc/utils/BF.cc
+++ b/src/tfc/utils/BF.cc
@@ -623,8 +623,7 @@ ELM::~ELM() {
 
 void ELM::setW(const double *arrIn, int nIn) {
     if (nIn != m) {
-        printf("Failure in setW function. Weight vector is the wrong size. Exiting program.\n");
-        exit(EXIT_FAILURE);
+        throw std::invalid_argument("Failure in setW function. Weight vector is the wrong size.");
     }
     std::unique_lock<std::shared_mutex> lock(valueMutex);
     for (int k = 0; k < m; k++)
@@ -633,8 +632,7 @@ void ELM::setW(const double *arrIn, int nIn) {
 
 void ELM::setB(const double *arrIn, int nIn) {
     if (nIn != m) {
-        printf("Failure in setB function. Bias vector is the wrong size. Exiting program.\n");
-        exit(EXIT_FAILURE);
+        throw std::invalid_argument("Failure in setB function. Bias vector is the wrong size.");
     }
     std::unique_lock<std::shared_mutex> lock(valueMutex);
     for (int k = 0; k < m; k++)
@@ -1343,8 +1341,7 @@ nELM::~nELM() {
 
 void nELM::setW(const double *arrIn, int dimIn, int nIn) {
     if ((nIn != m) || (dimIn != dim)) {
-        printf("Failure in setW function. Weight vector is the wrong size. Exiting program.\n");
-        exit(EXIT_FAILURE);
+        throw std::invalid_argument("Failure in setW function. Weight vector is the wrong size.");
     }
     std::unique_lock<std::shared_mutex> lock(valueMutex);
     for (int k = 0; k < m * dim; k++)
@@ -1353,8 +1350,7 @@ void nELM::setW(const double *arrIn, int dimIn, int nIn) {
 
 void nELM::setB(const double *arrIn, int nIn) {
     if (nIn != m) {
-        printf("Failure in setB function. Bias vector is the wrong size. Exiting program.\n");
-        exit(EXIT_FAILURE);
+        throw std::invalid_argument("Failure in setB function. Bias vector is the wrong size.");
     }
     std::unique_lock<std::shared_mutex> lock(valueMutex);
     for (int k = 0; k < m; k++)
diff --git a/src/tfc/utils/BF.h b/src/tfc/utils/BF.h
index 0be19d6..d6597e9 100644
--- a/src/tfc/utils/BF.h
+++ b/src/tfc/utils/BF.h
@@ -5,6 +5,7 @@
 #include <math.h>
 #include <mutex>
 #include <shared_mutex>
+#include <stdexcept>
 #include <vector>
 #ifdef HAS_CUDA
 #include <cuda.h>
-- 
2.43.0


From 08917e4cd2e26be5f5bfe8883944ebd2fdaeb86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:13 +0000
Subject: [PATCH 20/48] fix: ELM weights or biases assigned from a strided
 array were read with the wrong layout

---
 src/tfc/utils/BF_Py.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tfc/utils/BF_Py.cc b/src/tfc/utils/BF_Py.cc
index de1a403..54730f0 100644
--- a/src/tfc/utils/BF_Py.cc
+++ b/src/tfc/utils/BF_Py.cc
@@ -175,7 +175,9 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](ELM &self, py::array_t<double> b) { self.setB(b.data(), b.size()); })
+            [](ELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> b) {
+                self.setB(b.data(), b.size());
+            })
         .def_property(
             "w",
             [](ELM &self) {
@@ -189,7 +191,9 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](ELM &self, py::array_t<double> w) { self.setW(w.data(), w.size()); });
+            [](ELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> w) {
+                self.setW(w.data(), w.size());
+            });
 
     auto PyELMSigmoid = py::class_<ELMSigmoid, ELM>(m, "ELMSigmoid");
     add1DInit<ELMSigmoid>(PyELMSigmoid);
@@ -293,7 +297,9 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](nELM &self, py::array_t<double> b) { self.setB(b.data(), b.size()); })
+            [](nELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> b) {
+                self.setB(b.data(), b.size());
+            })
         .def_property(
             "w",
             [](nELM &self) {
-- 
2.43.0


From 6e772a658db05364d40d869285faa873d3c1ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:26 +0000
Subject: [PATCH 21/48] fix: a failed allocation in the C++ basis functions
 crashed the process instead of raising MemoryError

---
 src/tfc/utils/BF.cc | 22 +++++++++++++++-------
 src/tfc/utils/BF.h  |  5 +++--
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/tfc/utils/BF.cc b/src/tfc/utils/BF.cc
index aa170f9..3d6a15d 100644
--- a/src/tfc/utils/BF.cc
+++ b/src/tfc/utils/BF.cc
@@ -5,6 +5,14 @@ int BasisFunc::nIdentifier = 0;
 std::vector<BasisFunc *> BasisFunc::BasisFuncContainer;
 std::shared_mutex BasisFunc::containerMutex;
 
+// Allocates n doubles with malloc: the Python layer releases them with free.
+static double *mallocDoubles(size_t n) {
+    double *arr = (double *)malloc(n * sizeof(double));
+    if (arr == NULL && n > 0)
+        throw std::bad_alloc();
+    return arr;
+}
+
 // xlaWrapper function
 void xlaWrapper(void *out, void **in) {
     int N = (reinterpret_cast<int *>(in[0]))[0];
@@ -78,7 +86,7 @@ void BasisFunc::H(const double *x, int n, const int d, int *nOut, int *mOut, dou
     for (k = 0; k < n; k++)
         z[k] = (x[k] - x0) * c + z0;
 
-    *F = (double *)malloc((*mOut) * n * sizeof(double));
+    *F = mallocDoubles((*mOut) * n);
     Hint(d, z, n, dark);
 
     if (!full) {
@@ -641,7 +649,7 @@ void ELM::setB(const double *arrIn, int nIn) {
 
 void ELM::getW(double **arrOut, int *nOut) {
     *nOut = m;
-    *arrOut = (double *)malloc(m * sizeof(double));
+    *arrOut = mallocDoubles(m);
     for (int k = 0; k < m; k++)
         (*arrOut)[k] = w[k];
     return;
@@ -649,7 +657,7 @@ void ELM::getW(double **arrOut, int *nOut) {
 
 void ELM::getB(double **arrOut, int *nOut) {
     *nOut = m;
-    *arrOut = (double *)malloc(m * sizeof(double));
+    *arrOut = mallocDoubles(m);
     for (int k = 0; k < m; k++)
         (*arrOut)[k] = b[k];
     return;
@@ -1075,7 +1083,7 @@ nBasisFunc::~nBasisFunc() { delete[] c; }
 
 void nBasisFunc::getC(double **arrOut, int *nOut) {
     *nOut = dim;
-    *arrOut = (double *)malloc(dim * sizeof(double));
+    *arrOut = mallocDoubles(dim);
     for (int k = 0; k < dim; k++)
         (*arrOut)[k] = c[k];
     return;
@@ -1093,7 +1101,7 @@ void nBasisFunc::H(const double *x,
     int numBasis = full ? numBasisFuncFull : numBasisFunc;
     *mOut = numBasis;
     *nOut = xDim1;
-    *F = (double *)malloc(numBasis * xDim1 * sizeof(double));
+    *F = mallocDoubles(numBasis * xDim1);
     nHint(x, xDim1, d, dDim0, numBasis, *F, full);
 }
 
@@ -1360,7 +1368,7 @@ void nELM::setB(const double *arrIn, int nIn) {
 void nELM::getW(int *dimOut, int *nOut, double **arrOut) {
     *dimOut = dim;
     *nOut = m;
-    *arrOut = (double *)malloc(m * dim * sizeof(double));
+    *arrOut = mallocDoubles(m * dim);
     for (int k = 0; k < m * dim; k++)
         (*arrOut)[k] = w[k];
     return;
@@ -1368,7 +1376,7 @@ void nELM::getW(int *dimOut, int *nOut, double **arrOut) {
 
 void nELM::getB(double **arrOut, int *nOut) {
     *nOut = m;
-    *arrOut = (double *)malloc(m * sizeof(double));
+    *arrOut = mallocDoubles(m);
     for (int k = 0; k < m; k++)
         (*arrOut)[k] = b[k];
     return;
diff --git a/src/tfc/utils/BF.h b/src/tfc/utils/BF.h
index d6597e9..b98c311 100644
--- a/src/tfc/utils/BF.h
+++ b/src/tfc/utils/BF.h
@@ -4,6 +4,7 @@
 #include <iostream>
 #include <math.h>
 #include <mutex>
+#include <new>
 #include <shared_mutex>
 #include <stdexcept>
 #include <vector>
@@ -33,7 +34,7 @@ class BasisFunc {
     double c;
 
     /** Array that specifies which basis functions to remove. */
-    int *nC;
+    int *nC = nullptr;
 
     /** Number of basis functions to be removed. */
     int numC;
@@ -435,7 +436,7 @@ class nBasisFunc : virtual public BasisFunc {
     double zf;
 
     /** Multipliers for the linear domain map. */
-    double *c;
+    double *c = nullptr;
 
     /** Initial value of the domain */
     double *x0;
-- 
2.43.0


From 4697a3925ea1f93bad5dd30ab3f018e799718792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:44 +0000
Subject: [PATCH 22/48] fix: Python backend ELMReLU returned transposed
 matrices for second and higher derivatives

---
 src/tfc/utils/BF_Py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 8629179..53844db 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -711,7 +711,7 @@ class ELMReLU(ELM):
         elif d == 1:
             return self._w * np.where(self._w * z + self._b > 0.0, 1.0, 0.0)
         else:
-            return np.zeros((self._m, z.size))
+            return np.zeros((z.size, self._m))
 
 
 class ELMSigmoid(ELM):
-- 
2.43.0


From c073187a5d03086e086b95fd1a738d330c8e6944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:44 +0000
Subject: [PATCH 23/48] fix: first derivatives of the Python backend's
 n-dimensional ELMReLU raised IndexError

---
 src/tfc/utils/BF_Py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 53844db..eb50caa 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -1421,7 +1421,7 @@ class nELMReLU(nELM):
         if dorder > 1:
             zeroFlag = True
         elif dorder == 1:
-            ind = np.where(d == 1)[0][0]
+            ind = np.where(np.array(d) == 1)[0][0]
 
         if zeroFlag:
             # Derivative order is high enough that everything is zeros
-- 
2.43.0


From 8ae31ca6788f900f17603b09263f596627eb733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:10 +0000
Subject: [PATCH 24/48] fix: interrupting a weight assignment of the Python
 backend could leave an array of the wrong shape

---
 src/tfc/utils/BF_Py.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index eb50caa..d7fd341 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -660,9 +660,7 @@ class ELM(BasisFunc):
             New weights.
         """
         if val.size == self._m:
-            self._w = np.array(val)
-            if self._w.shape != (1, self._m):
-                self._w = self._w.reshape((1, self._m))
+            self._w = np.array(val).reshape((1, self._m))
         else:
             raise ValueError(
                 f"Input array of size {val.size} was received, but size {self._m} was expected."
@@ -679,9 +677,7 @@ class ELM(BasisFunc):
             New biases.
         """
         if val.size == self._m:
-            self._b = np.array(val)
-            if self._b.shape != (1, self._m):
-                self._b = self._b.reshape((1, self._m))
+            self._b = np.array(val).reshape((1, self._m))
         else:
             raise ValueError(
                 f"Input array of size {val.size} was received, but size {self._m} was expected."
@@ -1306,9 +1302,7 @@ class nELM(nBasisFunc):
             New weights.
         """
         if val.size == self._m * self._dim:
-            self._w = np.array(val)
-            if self._w.shape != (self._dim, self._m):
-                self._w = self._w.reshape((self._dim, self._m))
+            self._w = np.array(val).reshape((self._dim, self._m))
         else:
             raise ValueError(
                 f"Input array of size {val.size} was received, but size {self._m*self._dim} was expected."
@@ -1325,9 +1319,7 @@ class nELM(nBasisFunc):
             New biases.
         """
         if val.size == self._m:
-            self._b = np.array(val)
-            if self._b.shape != (1, self._m):
-                self._b = self._b.reshape((1, self._m))
+            self._b = np.array(val).reshape((1, self._m))
         else:
             raise ValueError(
                 f"Input array of size {val.size} was received, but size {self._m} was expected."
-- 
2.43.0


From babe188c0d4577aa5b13caa2252f8aa5bfe7e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:32 +0000
Subject: [PATCH 25/48] fix: tight png saves of Plotly figures failed when the
 background or a color channel was uniform

---
 src/tfc/utils/PlotlyMakePlot.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tfc/utils/PlotlyMakePlot.py b/src/tfc/utils/PlotlyMakePlot.py
index b820a81..8839e2b 100644
--- a/src/tfc/utils/PlotlyMakePlot.py
+++ b/src/tfc/utils/PlotlyMakePlot.py
@@ -527,12 +527,12 @@ class MakePlot:
             pilImage = Image.open(dark)
             pngArray = np.array(pilImage)
             blankPx = pngArray[0, 0, :]
-            mask = pngArray != blankPx
+            mask = np.any(pngArray != blankPx, axis=2)
             coords = np.argwhere(mask)
-            x0, y0, z0 = coords.min(axis=0)
-            x1, y1, z1 = coords.max(axis=0) + 1
-            croppedBox = pngArray[x0:x1, y0:y1, z0:z1]
-            pilImage = Image.fromarray(croppedBox, "RGBA")
+            x0, y0 = coords.min(axis=0)
+            x1, y1 = coords.max(axis=0) + 1
+            croppedBox = pngArray[x0:x1, y0:y1]
+            pilImage = Image.fromarray(croppedBox)
             pilImage.save(fileNameFull)
         else:
             self.fig.write_image(fileNameFull, **kwargs)
-- 
2.43.0


From 0dc009250a941b0c979c13c8856e54725bd52f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:32 +0000
Subject: [PATCH 26/48] fix: Mayavi animations stopped early when the generator
 yielded -1 and failed on array yields or a folder race

---
 src/tfc/utils/MayaviMakePlot.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tfc/utils/MayaviMakePlot.py b/src/tfc/utils/MayaviMakePlot.py
index e965606..d89117a 100644
--- a/src/tfc/utils/MayaviMakePlot.py
+++ b/src/tfc/utils/MayaviMakePlot.py
@@ -185,12 +185,11 @@ class MakePlot:
         if save:
             import os
 
-            if not os.path.exists(outDir):
-                os.mkdir(outDir)
+            os.makedirs(outDir, exist_ok=True)
             k = 0
 
             iterable = animFunc()
-            while next(iterable, -1) != -1:
+            for _ in iterable:
                 fileNameFull = "{}{:0>6d}".format(fileName, k)
                 self.save(os.path.join(outDir, fileNameFull), fileType="png")
                 k += 1
-- 
2.43.0


From 4dc83dfb78858e65bbc3a0031ff90b67a5a3f65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:30 +0000
Subject: [PATCH 27/48] fix: interrupting an input assignment of CeSolver could
 leave results of the former inputs cached

---
 src/tfc/utils/CeSolver.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index 1c62b52..9c23700 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -123,8 +123,8 @@ class CeSolver:
         ce: Any
             Sympy representation of the constrained expression.
         """
-        self._ce_stale = False
         self._ce = ce
+        self._ce_stale = False
 
     @property
     def phi(self) -> Any:
@@ -152,9 +152,10 @@ class CeSolver:
         phi : Any
             The switching functions.
         """
+        # Mark what depends on the new value as stale first, so that an interrupt cannot leave stale results behind.
+        self._ce_stale = True
         self._phi = phi
         self._phi_stale = False
-        self._ce_stale = True
 
     @property
     def alpha(self) -> sp.Matrix:
@@ -251,11 +252,11 @@ class CeSolver:
             use the constant function x = 1 as a support function, then we would
             use sympy.re(1) in this iterable.
         """
-        self._s = s
         self._S_stale = True
         self._alpha_stale = True
         self._phi_stale = True
         self._ce_stale = True
+        self._s = s
 
     @property
     def kappa(self):
@@ -281,9 +282,9 @@ class CeSolver:
             example u(3) = 0, the kappa portion is simply 0. Note, the standard
             Python 0 should not be used, but rather, sympy.re(0).
         """
-        self._K = kappa
         self._rho_stale = True
         self._ce_stale = True
+        self._K = kappa
 
     @property
     def C(self) -> ConstraintOperators:
@@ -310,12 +311,12 @@ class CeSolver:
             u(3) = 0, then the assocaited constraint operator would be:
             `lambda u: = u.subs(x,3)`.
         """
-        self._C = C
         self._S_stale = True
         self._alpha_stale = True
         self._phi_stale = True
         self._rho_stale = True
         self._ce_stale = True
+        self._C = C
 
     @property
     def g(self) -> AppliedUndef | Any:
@@ -340,9 +341,9 @@ class CeSolver:
             This is the free function used in the constrained expression. For example,
             `g(x)`.
         """
-        self._g = g
         self._ce_stale = True
         self._rho_stale = True
+        self._g = g
 
     def _solveCe(self) -> None:
         """
-- 
2.43.0


From ee5eb4d3f5deb7014db065884c4d1bc6d78c2800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 28/48] fix: a rejected in-place addition or subtraction left a
 TFCDict partly updated

---
 src/tfc/utils/TFCUtils.py | 50 +++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 9a6f409..a556595 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -451,12 +451,14 @@ class TFCDict(OrderedDict):
         """
         self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
-            for key in self._keys:
-                self[key] = self[key] + o[key]
+            new = [self[key] + o[key] for key in self._keys]
+            for key, value in zip(self._keys, new):
+                self[key] = value
         elif isinstance(o, np.ndarray) or isinstance(o, onp.ndarray):
             o = o.flatten()
-            for k in range(self._nKeys):
-                self[self._keys[k]] = self[self._keys[k]] + o[self._slices[k]]
+            new = [self[self._keys[k]] + o[self._slices[k]] for k in range(self._nKeys)]
+            for key, value in zip(self._keys, new):
+                self[key] = value
         return self
 
     def __isub__(self, o: TFCDictAddable) -> "TFCDict":
@@ -475,12 +477,14 @@ class TFCDict(OrderedDict):
         """
         self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
-            for key in self._keys:
-                self[key] = self[key] - o[key]
+            new = [self[key] - o[key] for key in self._keys]
+            for key, value in zip(self._keys, new):
+                self[key] = value
         elif isinstance(o, np.ndarray) or isinstance(o, onp.ndarray):
             o = o.flatten()
-            for k in range(self._nKeys):
-                self[self._keys[k]] = self[self._keys[k]] - o[self._slices[k]]
+            new = [self[self._keys[k]] - o[self._slices[k]] for k in range(self._nKeys)]
+            for key, value in zip(self._keys, new):
+                self[key] = value
         return self
 
     def __add__(self, o: TFCDictAddable) -> "TFCDict":
@@ -671,14 +675,17 @@ class TFCDictRobust(OrderedDict):
         """
         self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
-            for key in self._keys:
-                self[key] = self[key] + o[key]
+            new = [self[key] + o[key] for key in self._keys]
+            for key, value in zip(self._keys, new):
+                self[key] = value
         elif isinstance(o, np.ndarray) or isinstance(o, onp.ndarray):
             o = o.flatten()
-            for k in range(self._nKeys):
-                self[self._keys[k]] = self[self._keys[k]] + o[self._slices[k]].reshape(
-                    self[self._keys[k]].shape
-                )
+            new = [
+                self[self._keys[k]] + o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                for k in range(self._nKeys)
+            ]
+            for key, value in zip(self._keys, new):
+                self[key] = value
         return self
 
     def __isub__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
@@ -697,14 +704,17 @@ class TFCDictRobust(OrderedDict):
         """
         self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
-            for key in self._keys:
-                self[key] = self[key] - o[key]
+            new = [self[key] - o[key] for key in self._keys]
+            for key, value in zip(self._keys, new):
+                self[key] = value
         elif isinstance(o, np.ndarray) or isinstance(o, onp.ndarray):
             o = o.flatten()
-            for k in range(self._nKeys):
-                self[self._keys[k]] = self[self._keys[k]] - o[self._slices[k]].reshape(
-                    self[self._keys[k]].shape
-                )
+            new = [
+                self[self._keys[k]] - o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                for k in range(self._nKeys)
+            ]
+            for key, value in zip(self._keys, new):
+                self[key] = value
         return self
 
     def __add__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
-- 
2.43.0


From b30345698b2e8cbc3afee4077ef34a065380800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:39 +0000
Subject: [PATCH 29/48] fix: TFCDict.block_until_ready waited only for its
 first entry and failed on numpy entries

---
 src/tfc/utils/TFCUtils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index a556595..9b8e66d 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -12,7 +12,7 @@ config.update("jax_enable_x64", True)
 import numpy as onp
 import numpy.typing as npt
 import jax.numpy as np
-from jax import jvp, jit, lax, jacfwd, typeof
+from jax import block_until_ready, jvp, jit, lax, jacfwd, typeof
 from jax.extend import linear_util as lu
 from jax.api_util import debug_info
 from jax.tree_util import register_pytree_node, tree_map
@@ -432,7 +432,7 @@ class TFCDict(OrderedDict):
             This TFCDict.
         """
         self._refresh()
-        self[self._keys[0]].block_until_ready()
+        block_until_ready(list(self.values()))
         return self
 
     def __iadd__(self, o: TFCDictAddable) -> "TFCDict":
@@ -656,7 +656,7 @@ class TFCDictRobust(OrderedDict):
             This TFCDictRobust
         """
         self._refresh()
-        self[self._keys[0]].block_until_ready()
+        block_until_ready(list(self.values()))
         return self
 
     def __iadd__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
-- 
2.43.0


From b88ed2a4c1a9594d2ab4803367de88c8eb19be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:19 +0000
Subject: [PATCH 30/48] fix: concurrent readers of a TFCDict could see
 half-built slices

---
 src/tfc/utils/TFCUtils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 9b8e66d..abc61e7 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -365,7 +365,8 @@ class TFCDict(OrderedDict):
             for value in self.values()
         ):
             arrLen = 0
-            self._slices = [
+            # Filled before it is stored, so that other threads never see a part of it
+            slices = [
                 slice(0, 0, 1),
             ] * self._nKeys
             start = 0
@@ -374,7 +375,8 @@ class TFCDict(OrderedDict):
                 start = stop
                 arrLen = self[self._keys[k]].shape[0]
                 stop = start + arrLen
-                self._slices[k] = slice(start, stop, 1)
+                slices[k] = slice(start, stop, 1)
+            self._slices = slices
         else:
             self._slices = [
                 None,
@@ -581,7 +583,8 @@ class TFCDictRobust(OrderedDict):
             for value in self.values()
         ):
             arrLen = 0
-            self._slices = [
+            # Filled before it is stored, so that other threads never see a part of it
+            slices = [
                 slice(0, 0, 1),
             ] * self._nKeys
             start = 0
@@ -590,7 +593,8 @@ class TFCDictRobust(OrderedDict):
                 start = stop
                 arrLen = self[self._keys[k]].flatten().shape[0]
                 stop = start + arrLen
-                self._slices[k] = slice(start, stop, 1)
+                slices[k] = slice(start, stop, 1)
+            self._slices = slices
         else:
             self._slices = [
                 None,
-- 
2.43.0


From cca60fa9cc9f720482809024fdab50bfc063cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:37 +0000
Subject: [PATCH 31/48] fix: give BF.cc and BF.h their CRLF line endings back

---
 src/tfc/utils/BF.cc | 3928 +++++++++++++++++++++----------------------
 src/tfc/utils/BF.h  | 1504 ++++++++---------
 2 files changed, 2716 insertions(+), 2716 deletions(-)

diff --git a/src/tfc/utils/BF.cc b/src/tfc/utils/BF.cc
index 3d6a15d..9f294a8 100644
--- a/src/tfc/utils/BF.cc
+++ b/src/tfc/utils/BF.cc
@@ -1,1964 +1,1964 @@
-#include "BF.h"
-
-// Initialize static BasisFunc variables
-int BasisFunc::nIdentifier = 0;
-std::vector<BasisFunc *> BasisFunc::BasisFuncContainer;
-std::shared_mutex BasisFunc::containerMutex;
-
-// Allocates n doubles with malloc: the Python layer releases them with free.
-static double *mallocDoubles(size_t n) {
-    double *arr = (double *)malloc(n * sizeof(double));
-    if (arr == NULL && n > 0)
-        throw std::bad_alloc();
-    return arr;
-}
-
-// xlaWrapper function
-void xlaWrapper(void *out, void **in) {
-    int N = (reinterpret_cast<int *>(in[0]))[0];
-    BasisFunc *basisFunc;
-    {
-        std::shared_lock<std::shared_mutex> lock(BasisFunc::containerMutex);
-        basisFunc = BasisFunc::BasisFuncContainer[N];
-    }
-    std::shared_lock<std::shared_mutex> valueLock(basisFunc->valueMutex);
-    basisFunc->xla(out, in);
-}
-
-#ifdef HAS_CUDA
-// xlaGpuWrapper function
-void xlaGpuWrapper(CUstream stream, void **buffers, const char *opaque, size_t opaque_len) {
-    int *N = new int[1];
-    N[0] = 0;
-    // cudaMemcpy(N,reinterpret_cast<int*>(buffers[6]),1*sizeof(int),cudaMemcpyDeviceToHost);
-    BasisFunc::BasisFuncContainer[*N]->xlaGpu(stream, buffers, opaque, opaque_len);
-    delete[] N;
-};
-#endif
-
-// Parent basis function class: **********************************************************************
-BasisFunc::BasisFunc(double x0in, double xf, const int *nCin, int ncDim0, int min, double z0in, double zf) {
-
-    // Initialize internal variables based on user givens
-    nC = new int[ncDim0];
-    memcpy(nC, nCin, ncDim0 * sizeof(int));
-    numC = ncDim0;
-
-    z0 = z0in;
-
-    m = min;
-    if (zf == DBL_MAX) {
-        c = 1.;
-        x0 = 0.;
-    } else {
-        x0 = x0in;
-        c = (zf - z0) / (xf - x0);
-    }
-
-    // Track this instance of BasisFunc
-    Register();
-
-    // Create a PyCapsule with xla function for XLA compilation
-    xlaCapsule = GetXlaCapsule();
-#ifdef HAS_CUDA
-    xlaGpuCapsule = GetXlaCapsuleGpu();
-#endif
-}
-
-BasisFunc::~BasisFunc() { delete[] nC; }
-
-void BasisFunc::Register() {
-    std::unique_lock<std::shared_mutex> lock(containerMutex);
-    BasisFuncContainer.push_back(this);
-    identifier = nIdentifier;
-    nIdentifier++;
-}
-
-void BasisFunc::H(const double *x, int n, const int d, int *nOut, int *mOut, double **F, bool full) {
-    *nOut = n;
-    *mOut = full ? m : m - numC;
-
-    int j, k;
-    double dMult = pow(c, d);
-    double *dark = new double[n * m];
-    double *z = new double[n];
-
-    for (k = 0; k < n; k++)
-        z[k] = (x[k] - x0) * c + z0;
-
-    *F = mallocDoubles((*mOut) * n);
-    Hint(d, z, n, dark);
-
-    if (!full) {
-        int i = -1;
-        bool flag;
-        for (j = 0; j < m; j++) {
-            flag = false;
-            for (k = 0; k < numC; k++) {
-                if (j == nC[k]) {
-                    flag = true;
-                    break;
-                }
-            }
-            if (flag)
-                continue;
-            else
-                i++;
-            for (k = 0; k < n; k++)
-                (*F)[(*mOut) * k + i] = dark[m * k + j] * dMult;
-        }
-    } else {
-        for (j = 0; j < m; j++) {
-            for (k = 0; k < n; k++)
-                (*F)[m * k + j] = dark[m * k + j] * dMult;
-        }
-    }
-    delete[] dark;
-    delete[] z;
-}
-
-void BasisFunc::xla(void *out, void **in) {
-    double *out_buf = reinterpret_cast<double *>(out);
-    double *x = reinterpret_cast<double *>(in[1]);
-    int d = (reinterpret_cast<int *>(in[2]))[0];
-    bool full = (reinterpret_cast<bool *>(in[3]))[0];
-    int n = (reinterpret_cast<int *>(in[4]))[0];
-    int mOut = (reinterpret_cast<int *>(in[5]))[0];
-
-    int j, k;
-    double dMult = pow(c, d);
-    double *dark = new double[n * m];
-    double *z = new double[n];
-
-    for (k = 0; k < n; k++)
-        z[k] = (x[k] - x0) * c + z0;
-
-    Hint(d, z, n, dark);
-
-    if (!full) {
-        int i = -1;
-        bool flag;
-        for (j = 0; j < m; j++) {
-            flag = false;
-            for (k = 0; k < numC; k++) {
-                if (j == nC[k]) {
-                    flag = true;
-                    break;
-                }
-            }
-            if (flag)
-                continue;
-            else
-                i++;
-            for (k = 0; k < n; k++)
-                out_buf[mOut * k + i] = dark[m * k + j] * dMult;
-        }
-    } else {
-        for (j = 0; j < m; j++) {
-            for (k = 0; k < n; k++)
-                out_buf[m * k + j] = dark[m * k + j] * dMult;
-        }
-    }
-    delete[] dark;
-    delete[] z;
-}
-
-#ifdef HAS_CUDA
-void BasisFunc::xlaGpu(CUstream stream, void **buffers, const char *opaque, size_t opaque_len) {
-    printf("Not implemented yet!\n");
-};
-#endif
-
-PyObject *BasisFunc::GetXlaCapsule() {
-    xlaFnType xlaFnPtr = xlaWrapper;
-    const char *name = "xla._CUSTOM_CALL_TARGET";
-    PyObject *capsule;
-    capsule = PyCapsule_New(reinterpret_cast<void *>(xlaFnPtr), name, NULL);
-    return capsule;
-}
-
-#ifdef HAS_CUDA
-PyObject *BasisFunc::GetXlaCapsuleGpu() {
-    xlaGpuFnType xlaFnPtr = xlaGpuWrapper;
-    const char *name = "xla._CUSTOM_CALL_TARGET";
-    PyObject *capsule;
-    capsule = PyCapsule_New(reinterpret_cast<void *>(xlaFnPtr), name, NULL);
-    return capsule;
-};
-#endif
-
-// COP: **********************************************************************
-void CP::Hint(const int d, const double *x, const int nOut, double *dark) {
-
-    int j, k;
-    int deg = m - 1;
-    if (deg == 0) {
-        if (d > 0) {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 0.;
-        } else {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 1.;
-        }
-    } else if (deg == 1) {
-        if (d > 1) {
-            for (k = 0; k < m * nOut; k++)
-                dark[k] = 0.;
-        } else if (d > 0) {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 0.;
-                dark[m * k + 1] = 1.;
-            }
-        } else {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 1;
-                dark[m * k + 1] = x[k];
-            }
-        }
-    } else {
-        for (k = 0; k < nOut; k++) {
-            dark[m * k] = 1;
-            dark[m * k + 1] = x[k];
-        }
-        for (k = 2; k < m; k++) {
-            for (j = 0; j < nOut; j++)
-                dark[m * j + k] = 2. * x[j] * dark[m * j + k - 1] - dark[m * j + k - 2];
-        }
-        RecurseDeriv(d, 0, x, nOut, dark, m);
-    }
-    return;
-}
-
-void CP::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-    if (dCurr != d) {
-        int j, k;
-        double *dark = new double[mOut * nOut];
-        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
-        if (dCurr == 0) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k] = 0.;
-                F[mOut * k + 1] = 1.;
-            }
-        } else if (dCurr == 1) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k + 1] = 0.;
-            }
-        }
-        for (k = 2; k < mOut; k++) {
-            for (j = 0; j < nOut; j++)
-                F[mOut * j + k] =
-                    (2. + 2. * dCurr) * dark[mOut * j + k - 1] + 2. * x[j] * F[mOut * j + k - 1] - F[mOut * j + k - 2];
-        }
-        dCurr++;
-        delete[] dark;
-        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    }
-    return;
-}
-
-// LeP: **********************************************************************
-void LeP::Hint(const int d, const double *x, const int nOut, double *dark) {
-
-    int j, k;
-    int deg = m - 1;
-    if (deg == 0) {
-        if (d > 0) {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 0.;
-        } else {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 1.;
-        }
-    } else if (deg == 1) {
-        if (d > 1) {
-            for (k = 0; k < m * nOut; k++)
-                dark[k] = 0.;
-        } else if (d > 0) {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 0.;
-                dark[m * k + 1] = 1.;
-            }
-        } else {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 1;
-                dark[m * k + 1] = x[k];
-            }
-        }
-    } else {
-        for (k = 0; k < nOut; k++) {
-            dark[m * k] = 1;
-            dark[m * k + 1] = x[k];
-        }
-        for (k = 1; k < m - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                dark[m * j + k + 1] = ((2. * k + 1.) * x[j] * dark[m * j + k] - k * dark[m * j + k - 1]) / (k + 1.);
-        }
-        RecurseDeriv(d, 0, x, nOut, dark, m);
-    }
-    return;
-}
-
-void LeP::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-
-    if (dCurr != d) {
-        int j, k;
-        double *dark = new double[mOut * nOut];
-        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
-        if (dCurr == 0) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k] = 0.;
-                F[mOut * k + 1] = 1.;
-            }
-        } else if (dCurr == 1) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k + 1] = 0.;
-            }
-        }
-        for (k = 1; k < mOut - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                F[m * j + k + 1] =
-                    ((2. * k + 1.) * ((dCurr + 1.) * dark[m * j + k] + x[j] * F[m * j + k]) - k * F[m * j + k - 1]) /
-                    (k + 1.);
-        }
-        dCurr++;
-        delete[] dark;
-        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    }
-    return;
-}
-
-// LaP: **********************************************************************
-void LaP::Hint(const int d, const double *x, const int nOut, double *dark) {
-
-    int j, k;
-    int deg = m - 1;
-    if (deg == 0) {
-        if (d > 0) {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 0.;
-        } else {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 1.;
-        }
-    } else if (deg == 1) {
-        if (d > 1) {
-            for (k = 0; k < m * nOut; k++)
-                dark[k] = 0.;
-        } else if (d > 0) {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 0.;
-                dark[m * k + 1] = -1.;
-            }
-        } else {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 1.;
-                dark[m * k + 1] = 1. - x[k];
-            }
-        }
-    } else {
-        for (k = 0; k < nOut; k++) {
-            dark[m * k] = 1.;
-            dark[m * k + 1] = 1. - x[k];
-        }
-        for (k = 1; k < m - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                dark[m * j + k + 1] = ((2. * k + 1. - x[j]) * dark[m * j + k] - k * dark[m * j + k - 1]) / (k + 1.);
-        }
-        RecurseDeriv(d, 0, x, nOut, dark, m);
-    }
-    return;
-}
-
-void LaP::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-
-    if (dCurr != d) {
-        int j, k;
-        double *dark = new double[mOut * nOut];
-        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
-        if (dCurr == 0) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k] = 0.;
-                F[mOut * k + 1] = -1.;
-            }
-        } else if (dCurr == 1) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k + 1] = 0.;
-            }
-        }
-        for (k = 1; k < mOut - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                F[m * j + k + 1] =
-                    ((2. * k + 1. - x[j]) * F[m * j + k] - (dCurr + 1.) * dark[m * j + k] - k * F[m * j + k - 1]) /
-                    (k + 1.);
-        }
-        dCurr++;
-        delete[] dark;
-        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    }
-    return;
-}
-
-// HoPpro: **********************************************************************
-// Hermite polynomials, probablists
-void HoPpro::Hint(const int d, const double *x, const int nOut, double *dark) {
-
-    int j, k;
-    int deg = m - 1;
-    if (deg == 0) {
-        if (d > 0) {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 0.;
-        } else {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 1.;
-        }
-    } else if (deg == 1) {
-        if (d > 1) {
-            for (k = 0; k < m * nOut; k++)
-                dark[k] = 0.;
-        } else if (d > 0) {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 0.;
-                dark[m * k + 1] = 1.;
-            }
-        } else {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 1.;
-                dark[m * k + 1] = x[k];
-            }
-        }
-    } else {
-        for (k = 0; k < nOut; k++) {
-            dark[m * k] = 1.;
-            dark[m * k + 1] = x[k];
-        }
-        for (k = 1; k < m - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                dark[m * j + k + 1] = x[j] * dark[m * j + k] - k * dark[m * j + k - 1];
-        }
-        RecurseDeriv(d, 0, x, nOut, dark, m);
-    }
-    return;
-}
-
-void HoPpro::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-
-    if (dCurr != d) {
-        int j, k;
-        double *dark = new double[mOut * nOut];
-        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
-        if (dCurr == 0) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k] = 0.;
-                F[mOut * k + 1] = 1.;
-            }
-        } else if (dCurr == 1) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k + 1] = 0.;
-            }
-        }
-        for (k = 1; k < mOut - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                F[m * j + k + 1] = (dCurr + 1.) * dark[m * j + k] + x[j] * F[m * j + k] - k * F[m * j + k - 1];
-        }
-        dCurr++;
-        delete[] dark;
-        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    }
-    return;
-}
-
-// HoPphy: **********************************************************************
-// Hermite polynomials, physicists
-void HoPphy::Hint(const int d, const double *x, const int nOut, double *dark) {
-
-    int j, k;
-    int deg = m - 1;
-    if (deg == 0) {
-        if (d > 0) {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 0.;
-        } else {
-            for (k = 0; k < nOut; k++)
-                dark[k] = 1.;
-        }
-    } else if (deg == 1) {
-        if (d > 1) {
-            for (k = 0; k < m * nOut; k++)
-                dark[k] = 0.;
-        } else if (d > 0) {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 0.;
-                dark[m * k + 1] = 2.;
-            }
-        } else {
-            for (k = 0; k < nOut; k++) {
-                dark[m * k] = 1.;
-                dark[m * k + 1] = 2. * x[k];
-            }
-        }
-    } else {
-        for (k = 0; k < nOut; k++) {
-            dark[m * k] = 1.;
-            dark[m * k + 1] = 2. * x[k];
-        }
-        for (k = 1; k < m - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                dark[m * j + k + 1] = 2. * x[j] * dark[m * j + k] - 2. * k * dark[m * j + k - 1];
-        }
-        RecurseDeriv(d, 0, x, nOut, dark, m);
-    }
-    return;
-}
-
-void HoPphy::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-
-    if (dCurr != d) {
-        int j, k;
-        double *dark = new double[mOut * nOut];
-        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
-        if (dCurr == 0) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k] = 0.;
-                F[mOut * k + 1] = 2.;
-            }
-        } else if (dCurr == 1) {
-            for (k = 0; k < nOut; k++) {
-                F[mOut * k + 1] = 0.;
-            }
-        }
-        for (k = 1; k < mOut - 1; k++) {
-            for (j = 0; j < nOut; j++)
-                F[m * j + k + 1] =
-                    2. * (dCurr + 1.) * dark[m * j + k] + 2. * x[j] * F[m * j + k] - 2. * k * F[m * j + k - 1];
-        }
-        dCurr++;
-        delete[] dark;
-        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    }
-    return;
-}
-
-// FS: **********************************************************************
-// Fourier Series
-void FS::Hint(const int d, const double *x, const int nOut, double *dark) {
-
-    int j, k, g;
-    if (d == 0) {
-        for (k = 0; k < nOut; k++)
-            dark[m * k] = 1;
-        for (j = 1; j < m; j++) {
-            for (k = 0; k < nOut; k++) {
-                g = ceil(j / 2.);
-                if (j % 2 == 0) {
-                    dark[m * k + j] = cos(g * x[k]);
-                } else {
-                    dark[m * k + j] = sin(g * x[k]);
-                }
-            }
-        }
-    } else {
-        for (k = 0; k < nOut; k++)
-            dark[m * k] = 0;
-        if (d % 4 == 0) {
-            for (j = 1; j < m; j++) {
-                for (k = 0; k < nOut; k++) {
-                    g = ceil(j / 2.);
-                    if (j % 2 == 0) {
-                        dark[m * k + j] = pow(g, d) * cos(g * x[k]);
-                    } else {
-                        dark[m * k + j] = pow(g, d) * sin(g * x[k]);
-                    }
-                }
-            }
-        } else if (d % 4 == 1) {
-            for (j = 1; j < m; j++) {
-                for (k = 0; k < nOut; k++) {
-                    g = ceil(j / 2.);
-                    if (j % 2 == 0) {
-                        dark[m * k + j] = -pow(g, d) * sin(g * x[k]);
-                    } else {
-                        dark[m * k + j] = pow(g, d) * cos(g * x[k]);
-                    }
-                }
-            }
-        } else if (d % 4 == 2) {
-            for (j = 1; j < m; j++) {
-                for (k = 0; k < nOut; k++) {
-                    g = ceil(j / 2.);
-                    if (j % 2 == 0) {
-                        dark[m * k + j] = -pow(g, d) * cos(g * x[k]);
-                    } else {
-                        dark[m * k + j] = -pow(g, d) * sin(g * x[k]);
-                    }
-                }
-            }
-        } else {
-            for (j = 1; j < m; j++) {
-                for (k = 0; k < nOut; k++) {
-                    g = ceil(j / 2.);
-                    if (j % 2 == 0) {
-                        dark[m * k + j] = pow(g, d) * sin(g * x[k]);
-                    } else {
-                        dark[m * k + j] = -pow(g, d) * cos(g * x[k]);
-                    }
-                }
-            }
-        }
-    }
-    return;
-}
-
-// ELM: **********************************************************************
-// ELM base class
-ELM::ELM(double x0, double xf, const int *nCin, int ncDim0, int min)
-    : BasisFunc(x0, xf, nCin, ncDim0, min, 0., 1.) {
-
-    int k;
-    w = new double[m];
-    b = new double[m];
-
-    for (k = 0; k < m; k++) {
-        w[k] = 20. * ((double)rand() / (double)RAND_MAX) - 10.;
-        b[k] = 20. * ((double)rand() / (double)RAND_MAX) - 10.;
-    }
-}
-
-ELM::~ELM() {
-    delete[] b;
-    delete[] w;
-}
-
-void ELM::setW(const double *arrIn, int nIn) {
-    if (nIn != m) {
-        throw std::invalid_argument("Failure in setW function. Weight vector is the wrong size.");
-    }
-    std::unique_lock<std::shared_mutex> lock(valueMutex);
-    for (int k = 0; k < m; k++)
-        w[k] = arrIn[k];
-}
-
-void ELM::setB(const double *arrIn, int nIn) {
-    if (nIn != m) {
-        throw std::invalid_argument("Failure in setB function. Bias vector is the wrong size.");
-    }
-    std::unique_lock<std::shared_mutex> lock(valueMutex);
-    for (int k = 0; k < m; k++)
-        b[k] = arrIn[k];
-}
-
-void ELM::getW(double **arrOut, int *nOut) {
-    *nOut = m;
-    *arrOut = mallocDoubles(m);
-    for (int k = 0; k < m; k++)
-        (*arrOut)[k] = w[k];
-    return;
-}
-
-void ELM::getB(double **arrOut, int *nOut) {
-    *nOut = m;
-    *arrOut = mallocDoubles(m);
-    for (int k = 0; k < m; k++)
-        (*arrOut)[k] = b[k];
-    return;
-}
-
-// ELM ReLU: **********************************************************************
-void ELMReLU::Hint(const int d, const double *x, const int nOut, double *dark) {
-    int j, k;
-
-    if (d == 0) {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                dark[m * j + k] = std::max(0., w[k] * x[j] + b[k]);
-            }
-        }
-    } else if (d == 1) {
-        double dark1;
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                dark1 = w[k] * x[j] + b[k];
-                if (dark1 <= 0.) {
-                    dark[m * j + k] = 0.;
-                } else {
-                    dark[m * j + k] = w[k];
-                }
-            }
-        }
-    } else {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                dark[m * j + k] = 0.;
-            }
-        }
-    }
-    return;
-}
-
-// ELM Sigmoid: **********************************************************************
-void ELMSigmoid::Hint(const int d, const double *x, const int nOut, double *dark) {
-    int j, k;
-
-    for (j = 0; j < nOut; j++) {
-        for (k = 0; k < m; k++)
-            dark[m * j + k] = 1. / (1. + exp(-w[k] * x[j] - b[k]));
-    }
-
-    switch (d) {
-    case 0: {
-        break;
-    }
-    case 1: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = w[k] * (dark[m * j + k] - pow(dark[m * j + k], 2));
-        }
-        break;
-    }
-    case 2: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] =
-                    pow(w[k], 2) * (dark[m * j + k] - 3. * pow(dark[m * j + k], 2) + 2. * pow(dark[m * j + k], 3));
-        }
-        break;
-    }
-    case 3: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 3) * (dark[m * j + k] - 7. * pow(dark[m * j + k], 2) +
-                                                  12. * pow(dark[m * j + k], 3) - 6. * pow(dark[m * j + k], 4));
-        }
-        break;
-    }
-    case 4: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] =
-                    pow(w[k], 4) * (dark[m * j + k] - 15. * pow(dark[m * j + k], 2) + 50. * pow(dark[m * j + k], 3) -
-                                    60. * pow(dark[m * j + k], 4) + 24. * pow(dark[m * j + k], 5));
-        }
-        break;
-    }
-    case 5: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 5) * (dark[m * j + k] - 31. * pow(dark[m * j + k], 2) +
-                                                  180. * pow(dark[m * j + k], 3) - 390. * pow(dark[m * j + k], 4) +
-                                                  360. * pow(dark[m * j + k], 5) - 120. * pow(dark[m * j + k], 6));
-        }
-        break;
-    }
-    case 6: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] =
-                    pow(w[k], 6) * (dark[m * j + k] - 63. * pow(dark[m * j + k], 2) + 602. * pow(dark[m * j + k], 3) -
-                                    2100. * pow(dark[m * j + k], 4) + 3360. * pow(dark[m * j + k], 5) -
-                                    2520. * pow(dark[m * j + k], 6) + 720. * pow(dark[m * j + k], 7));
-        }
-        break;
-    }
-    case 7: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 7) * (dark[m * j + k] - 127. * pow(dark[m * j + k], 2) +
-                                                  1932. * pow(dark[m * j + k], 3) - 10206. * pow(dark[m * j + k], 4) +
-                                                  25200. * pow(dark[m * j + k], 5) - 31920. * pow(dark[m * j + k], 6) +
-                                                  20160. * pow(dark[m * j + k], 7) - 5040. * pow(dark[m * j + k], 8));
-        }
-        break;
-    }
-    case 8: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] =
-                    pow(w[k], 8) * (dark[m * j + k] - 255. * pow(dark[m * j + k], 2) + 6050. * pow(dark[m * j + k], 3) -
-                                    46620. * pow(dark[m * j + k], 4) + 166824. * pow(dark[m * j + k], 5) -
-                                    317520. * pow(dark[m * j + k], 6) + 332640. * pow(dark[m * j + k], 7) -
-                                    181440. * pow(dark[m * j + k], 8) + 40320. * pow(dark[m * j + k], 9));
-        }
-        break;
-    }
-    }
-    return;
-}
-
-// ELM Tanh: **********************************************************************
-
-void ELMTanh::Hint(const int d, const double *x, const int nOut, double *dark) {
-    int j, k;
-
-    for (j = 0; j < nOut; j++) {
-        for (k = 0; k < m; k++)
-            dark[m * j + k] = tanh(w[k] * x[j] + b[k]);
-    }
-
-    switch (d) {
-    case 0: {
-        break;
-    }
-    case 1: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = w[k] * (1. - pow(dark[m * j + k], 2));
-        }
-        break;
-    }
-    case 2: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 2) * (-2. * dark[m * j + k] + 2. * pow(dark[m * j + k], 3));
-        }
-        break;
-    }
-    case 3: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 3) * (-2. + 8. * pow(dark[m * j + k], 2) - 6. * pow(dark[m * j + k], 4));
-        }
-        break;
-    }
-    case 4: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 4) * (16. * dark[m * j + k] - 40. * pow(dark[m * j + k], 3) +
-                                                  24. * pow(dark[m * j + k], 5));
-        }
-        break;
-    }
-    case 5: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 5) * (16. - 136. * pow(dark[m * j + k], 2) +
-                                                  240. * pow(dark[m * j + k], 4) - 120. * pow(dark[m * j + k], 6));
-        }
-        break;
-    }
-    case 6: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 6) * (-272. * dark[m * j + k] + 1232. * pow(dark[m * j + k], 3) -
-                                                  1680. * pow(dark[m * j + k], 5) + 720. * pow(dark[m * j + k], 7));
-        }
-        break;
-    }
-    case 7: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] =
-                    pow(w[k], 7) * (-272. + 3968. * pow(dark[m * j + k], 2) - 12096. * pow(dark[m * j + k], 4) +
-                                    13440. * pow(dark[m * j + k], 6) - 5040. * pow(dark[m * j + k], 8));
-        }
-        break;
-    }
-    case 8: {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = pow(w[k], 8) * (7936. * dark[m * j + k] - 56320. * pow(dark[m * j + k], 3) +
-                                                  129024. * pow(dark[m * j + k], 5) -
-                                                  120960. * pow(dark[m * j + k], 7) + 40320. * pow(dark[m * j + k], 9));
-        }
-        break;
-    }
-    }
-    return;
-}
-
-// ELM Sin: **********************************************************************
-
-void ELMSin::Hint(const int d, const double *x, const int nOut, double *dark) {
-    int j, k;
-
-    if (d % 4 == 0) {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                dark[m * j + k] = pow(w[k], d) * sin(w[k] * x[j] + b[k]);
-            }
-        }
-    } else if (d % 4 == 1) {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                dark[m * j + k] = pow(w[k], d) * cos(w[k] * x[j] + b[k]);
-            }
-        }
-    } else if (d % 4 == 2) {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                dark[m * j + k] = -pow(w[k], d) * sin(w[k] * x[j] + b[k]);
-            }
-        }
-    } else {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                dark[m * j + k] = -pow(w[k], d) * cos(w[k] * x[j] + b[k]);
-            }
-        }
-    }
-    return;
-}
-
-// ELM Swish: **********************************************************************
-
-void ELMSwish::Hint(const int d, const double *x, const int nOut, double *dark) {
-    int j, k;
-    double *sig = new double[nOut * m];
-    double *zint = new double[nOut * m];
-
-    if (d == 0) {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++)
-                dark[m * j + k] = (w[k] * x[j] + b[k]) * 1. / (1. + exp(-w[k] * x[j] - b[k]));
-        }
-
-    } else {
-        for (j = 0; j < nOut; j++) {
-            for (k = 0; k < m; k++) {
-                zint[m * j + k] = w[k] * x[j] + b[k];
-                sig[m * j + k] = 1. / (1. + exp(-zint[m * j + k]));
-            }
-        }
-        switch (d) {
-        case 1: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-                    dark[m * j + k] =
-                        w[k] * (sig[m * j + k] + zint[m * j + k] * (sig[m * j + k] - pow(sig[m * j + k], 2)));
-            }
-            break;
-        }
-        case 2: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-                    dark[m * j + k] = pow(w[k], 2) * (2. * (sig[m * j + k] - pow(sig[m * j + k], 2)) +
-                                                      zint[m * j + k] * (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) +
-                                                                         2. * pow(sig[m * j + k], 3)));
-            }
-            break;
-        }
-        case 3: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-                    dark[m * j + k] =
-                        pow(w[k], 3) *
-                        (3. * (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) + 2. * pow(sig[m * j + k], 3)) +
-                         zint[m * j + k] * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) +
-                                            12. * pow(sig[m * j + k], 3) - 6. * pow(sig[m * j + k], 4)));
-            }
-            break;
-        }
-        case 4: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-                    dark[m * j + k] =
-                        pow(w[k], 4) * (4. * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) +
-                                              12. * pow(sig[m * j + k], 3) - 6. * pow(sig[m * j + k], 4)) +
-                                        zint[m * j + k] * (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) +
-                                                           50. * pow(sig[m * j + k], 3) - 60. * pow(sig[m * j + k], 4) +
-                                                           24. * pow(sig[m * j + k], 5)));
-            }
-            break;
-        }
-        case 5: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-
-                    dark[m * j + k] =
-                        pow(w[k], 5) *
-                        (5. * (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) + 50. * pow(sig[m * j + k], 3) -
-                               60. * pow(sig[m * j + k], 4) + 24. * pow(sig[m * j + k], 5)) +
-                         zint[m * j + k] * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) +
-                                            180. * pow(sig[m * j + k], 3) - 390. * pow(sig[m * j + k], 4) +
-                                            360. * pow(sig[m * j + k], 5) - 120. * pow(sig[m * j + k], 6)));
-            }
-            break;
-        }
-        case 6: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-                    dark[m * j + k] =
-                        pow(w[k], 6) *
-                        (6. * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) + 180. * pow(sig[m * j + k], 3) -
-                               390. * pow(sig[m * j + k], 4) + 360. * pow(sig[m * j + k], 5) -
-                               120. * pow(sig[m * j + k], 6)) +
-                         zint[m * j + k] *
-                             (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
-                              2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
-                              2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)));
-            }
-            break;
-        }
-        case 7: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-                    dark[m * j + k] =
-                        pow(w[k], 7) *
-                        (7. * (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
-                               2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
-                               2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)) +
-                         zint[m * j + k] * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) +
-                                            1932. * pow(sig[m * j + k], 3) - 10206. * pow(sig[m * j + k], 4) +
-                                            25200. * pow(sig[m * j + k], 5) - 31920. * pow(sig[m * j + k], 6) +
-                                            20160. * pow(sig[m * j + k], 7) - 5040. * pow(sig[m * j + k], 8)));
-            }
-            break;
-        }
-        case 8: {
-            for (j = 0; j < nOut; j++) {
-                for (k = 0; k < m; k++)
-                    dark[m * j + k] =
-                        pow(w[k], 8) *
-                        (8. * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) + 1932. * pow(sig[m * j + k], 3) -
-                               10206. * pow(sig[m * j + k], 4) + 25200. * pow(sig[m * j + k], 5) -
-                               31920. * pow(sig[m * j + k], 6) + 20160. * pow(sig[m * j + k], 7) -
-                               5040. * pow(sig[m * j + k], 8)) +
-                         zint[m * j + k] *
-                             (sig[m * j + k] - 255. * pow(sig[m * j + k], 2) + 6050. * pow(sig[m * j + k], 3) -
-                              46620. * pow(sig[m * j + k], 4) + 166824. * pow(sig[m * j + k], 5) -
-                              317520. * pow(sig[m * j + k], 6) + 332640. * pow(sig[m * j + k], 7) -
-                              181440. * pow(sig[m * j + k], 8) + 40320. * pow(sig[m * j + k], 9)));
-            }
-            break;
-        }
-        }
-    }
-
-    delete[] sig;
-    delete[] zint;
-
-    return;
-}
-
-// Parent n-dimensional basis function class: **********************************************************************
-nBasisFunc::nBasisFunc(const double *x0in,
-                       int x0Dim0,
-                       const double *xf,
-                       int /*xfDim0*/,
-                       const int *nCin,
-                       int ncDim0,
-                       int ncDim1,
-                       int min,
-                       double z0in,
-                       double zfin) {
-
-    // Initialize internal variables based on user givens
-    dim = x0Dim0;
-    m = min;
-    numC = ncDim1;
-    z0 = z0in;
-    zf = zfin;
-
-    x0 = new double[dim];
-    memcpy(x0, x0in, dim * sizeof(double));
-
-    nC = new int[dim * numC];
-    memcpy(nC, nCin, ncDim0 * ncDim1 * sizeof(int));
-
-    c = new double[dim];
-    for (int k = 0; k < dim; k++)
-        c[k] = (zf - z0) / (xf[k] - x0[k]);
-
-    // Calculate the number of basis functions
-    numBasisFunc = 0;
-    numBasisFuncFull = 0;
-
-    int *vec = new int[dim];
-
-    NumBasisFunc(dim - 1, &vec[0], numBasisFunc, false);
-    NumBasisFunc(dim - 1, &vec[0], numBasisFuncFull, true);
-
-    delete[] vec;
-
-    // Track this instance of BasisFunc
-    Register();
-
-    // Create a PyCapsule with xla function for XLA compilation
-    xlaCapsule = GetXlaCapsule();
-#ifdef HAS_CUDA
-    xlaGpuCapsule = GetXlaCapsuleGpu();
-#endif
-}
-
-nBasisFunc::~nBasisFunc() { delete[] c; }
-
-void nBasisFunc::getC(double **arrOut, int *nOut) {
-    *nOut = dim;
-    *arrOut = mallocDoubles(dim);
-    for (int k = 0; k < dim; k++)
-        (*arrOut)[k] = c[k];
-    return;
-}
-
-void nBasisFunc::H(const double *x,
-                   int /*in*/,
-                   int xDim1,
-                   const int *d,
-                   int dDim0,
-                   int *nOut,
-                   int *mOut,
-                   double **F,
-                   const bool full) {
-    int numBasis = full ? numBasisFuncFull : numBasisFunc;
-    *mOut = numBasis;
-    *nOut = xDim1;
-    *F = mallocDoubles(numBasis * xDim1);
-    nHint(x, xDim1, d, dDim0, numBasis, *F, full);
-}
-
-void nBasisFunc::H(const double *, int, const int, int *, int *, double **, bool) {
-    throw std::runtime_error("This version of \"H\" should never be called from an n-dimensional basis class.");
-}
-
-void nBasisFunc::xla(void *out, void **in) {
-    double *out_buf = reinterpret_cast<double *>(out);
-    double *x = reinterpret_cast<double *>(in[1]);
-    int *d = reinterpret_cast<int *>(in[2]);
-    int dDim0 = (reinterpret_cast<int *>(in[3]))[0];
-    bool full = (reinterpret_cast<bool *>(in[4]))[0];
-    int nOut = (reinterpret_cast<int *>(in[5]))[0];
-    int mOut = (reinterpret_cast<int *>(in[6]))[0];
-
-    nHint(x, nOut, d, dDim0, mOut, out_buf, full);
-}
-
-void nBasisFunc::nHint(const double *x, int n, const int *d, int dDim0, int numBasis, double *&F, const bool full) {
-
-    int j, k;
-    double *dark = new double[n * m];
-    double *T = new double[n * m * dim];
-    double *z = new double[n * dim];
-    double dMult;
-
-    // Calculate the basis function domain points
-    for (j = 0; j < dim; j++) {
-        for (k = 0; k < n; k++)
-            z[j * n + k] = (x[j * n + k] - x0[j]) * c[j] + z0;
-    }
-
-    // Calculate univariate basis functions
-    for (k = 0; k < dim; k++) {
-        if (k >= dDim0) {
-            Hint(0, z + k * n, n, dark);
-            dMult = 1.;
-        } else {
-            Hint(d[k], z + k * n, n, dark);
-            dMult = pow(c[k], d[k]);
-        }
-        for (j = 0; j < n * m; j++)
-            T[j + k * m * n] = dark[j] * dMult;
-    }
-
-    for (k = 0; k < n * numBasis; k++)
-        F[k] = 1.;
-
-    int count = 0;
-
-    int *vec = new int[dim];
-
-    RecurseBasis(dim - 1, vec, count, full, n, numBasis, &T[0], F);
-
-    delete[] vec;
-    delete[] dark;
-    delete[] T;
-    delete[] z;
-}
-
-void nBasisFunc::NumBasisFunc(int dimCurr, int *vec, int &count, const bool full) {
-    int k;
-    if (dimCurr > 0) {
-        for (k = 0; k < m; k++) {
-            vec[dimCurr] = k;
-            NumBasisFunc(dimCurr - 1, vec, count, full);
-        }
-    } else {
-        int j, g;
-        int sum;
-        bool flag, flag1;
-        for (k = 0; k < m; k++) {
-            vec[dimCurr] = k;
-            flag = false;
-            sum = 0;
-            if (full) {
-                for (j = 0; j < dim; j++)
-                    sum += vec[j];
-                if (sum <= m - 1)
-                    count++;
-            } else {
-
-                // If at least one of the dimensions' basis functions is not a constraint, then
-                // set flag = true
-                for (j = 0; j < dim; j++) {
-                    flag1 = true;
-                    for (g = 0; g < numC; g++) {
-                        if (vec[j] == nC[j * numC + g]) {
-                            flag1 = false;
-                            break;
-                        }
-                    }
-                    if (flag1)
-                        flag = true;
-                }
-
-                // If flag is true and the degree of the product of univariate basis
-                // functions is less than the degree specified, add one to count
-                if (flag) {
-                    for (j = 0; j < dim; j++)
-                        sum += vec[j];
-                    if (sum <= m - 1)
-                        count++;
-                }
-            }
-        }
-    }
-    return;
-}
-
-void nBasisFunc::RecurseBasis(int dimCurr,
-                              int *vec,
-                              int &count,
-                              const bool full,
-                              const int in,
-                              const int numBasis,
-                              const double *T,
-                              double *out) {
-    int k;
-    if (dimCurr > 0) {
-        for (k = 0; k < m; k++) {
-            vec[dimCurr] = k;
-            RecurseBasis(dimCurr - 1, vec, count, full, in, numBasis, T, out);
-        }
-    } else {
-        int j, g, h, l;
-        int sum;
-        bool flag, flag1;
-        for (k = 0; k < m; k++) {
-            vec[dimCurr] = k;
-            flag = false;
-            sum = 0;
-            if (full) {
-                for (j = 0; j < dim; j++)
-                    sum += vec[j];
-                if (sum <= m - 1) {
-                    for (h = 0; h < in; h++) {
-                        for (l = 0; l < dim; l++)
-                            out[h * numBasis + count] *= T[m * in * l + vec[l] + h * m];
-                    }
-                    count++;
-                }
-            } else {
-
-                // If at least one of the dimensions' basis functions is not a constraint, then
-                // set flag = true
-                for (j = 0; j < dim; j++) {
-                    flag1 = true;
-                    for (g = 0; g < numC; g++) {
-                        if (vec[j] == nC[j * numC + g]) {
-                            flag1 = false;
-                            break;
-                        }
-                    }
-                    if (flag1)
-                        flag = true;
-                }
-
-                // If flag is true and the degree of the product of univariate basis
-                // functions is less than the degree specified, add one to count
-                if (flag) {
-                    for (j = 0; j < dim; j++)
-                        sum += vec[j];
-                    if (sum <= m - 1) {
-                        for (h = 0; h < in; h++) {
-                            for (l = 0; l < dim; l++)
-                                out[h * numBasis + count] *= T[m * in * l + vec[l] + h * m];
-                        }
-                        count++;
-                    }
-                }
-            }
-        }
-    }
-    return;
-}
-
-// nELM base class: ***********************************************************************************
-nELM::nELM(const double *x0in,
-           int x0Dim0,
-           const double *xf,
-           int /*xfDim0*/,
-           const int *nCin,
-           int ncDim0,
-           int min,
-           double z0in,
-           double zfin) {
-
-    int k;
-    bool flag = true;
-
-    // Initialize internal variables based on user givens
-    dim = x0Dim0;
-    m = min;
-    numC = ncDim0;
-    z0 = z0in;
-    zf = zfin;
-
-    x0 = new double[dim];
-    memcpy(x0, x0in, dim * sizeof(double));
-
-    nC = new int[dim * numC];
-    memcpy(nC, nCin, ncDim0 * sizeof(int));
-
-    c = new double[dim];
-    for (k = 0; k < dim; k++)
-        c[k] = (zf - z0) / (xf[k] - x0[k]);
-
-    for (k = 0; k < ncDim0; k++) {
-        if (nC[k] != -1) {
-            flag = false;
-        }
-    }
-    if (flag)
-        numC = 0;
-
-    m = min;
-
-    // Calculate the number of basis functions
-    numBasisFunc = m - numC;
-    numBasisFuncFull = m;
-
-    // Track this instance of BasisFunc
-    Register();
-
-    // Create a PyCapsule with xla function for XLA compilation
-    xlaCapsule = GetXlaCapsule();
-#ifdef HAS_CUDA
-    xlaGpuCapsule = GetXlaCapsuleGpu();
-#endif
-
-    w = new double[dim * m];
-    b = new double[m];
-    for (k = 0; k < dim * m; k++)
-        w[k] = 2. * ((double)rand() / (double)RAND_MAX) - 1.;
-    for (k = 0; k < m; k++)
-        b[k] = 2. * ((double)rand() / (double)RAND_MAX) - 1.;
-}
-
-nELM::~nELM() {
-    delete[] b;
-    delete[] w;
-}
-
-void nELM::setW(const double *arrIn, int dimIn, int nIn) {
-    if ((nIn != m) || (dimIn != dim)) {
-        throw std::invalid_argument("Failure in setW function. Weight vector is the wrong size.");
-    }
-    std::unique_lock<std::shared_mutex> lock(valueMutex);
-    for (int k = 0; k < m * dim; k++)
-        w[k] = arrIn[k];
-}
-
-void nELM::setB(const double *arrIn, int nIn) {
-    if (nIn != m) {
-        throw std::invalid_argument("Failure in setB function. Bias vector is the wrong size.");
-    }
-    std::unique_lock<std::shared_mutex> lock(valueMutex);
-    for (int k = 0; k < m; k++)
-        b[k] = arrIn[k];
-}
-
-void nELM::getW(int *dimOut, int *nOut, double **arrOut) {
-    *dimOut = dim;
-    *nOut = m;
-    *arrOut = mallocDoubles(m * dim);
-    for (int k = 0; k < m * dim; k++)
-        (*arrOut)[k] = w[k];
-    return;
-}
-
-void nELM::getB(double **arrOut, int *nOut) {
-    *nOut = m;
-    *arrOut = mallocDoubles(m);
-    for (int k = 0; k < m; k++)
-        (*arrOut)[k] = b[k];
-    return;
-}
-
-void nELM::nHint(const double *x, int n, const int *d, int dDim0, int numBasis, double *&F, const bool full) {
-
-    int j, k;
-    double *z = new double[n * dim];
-
-    // Calculate the basis function domain points
-    for (j = 0; j < dim; j++) {
-        for (k = 0; k < n; k++)
-            z[j * n + k] = (x[j * n + k] - x0[j]) * c[j] + z0;
-    }
-
-    if ((numC == 0) || (full)) {
-        nElmHint(d, dDim0, z, n, F);
-    } else {
-        int i = -1;
-        bool flag;
-        double *dark = new double[m * n]; // Allocated on the heap, as allocating on the stack frequently causes
-                                          // segfaults due to size. - CL
-        nElmHint(d, dDim0, z, n, dark);
-
-        for (j = 0; j < m; j++) {
-            flag = false;
-            for (k = 0; k < numC; k++) {
-                if (j == nC[k]) {
-                    flag = true;
-                    break;
-                }
-            }
-            if (flag)
-                continue;
-            else
-                i++;
-            for (k = 0; k < n; k++)
-                F[numBasis * k + i] = dark[m * k + j];
-        }
-
-        delete[] dark;
-    }
-    delete[] z;
-}
-
-// nELM Sigmoid *******************************************************************************************
-void nELMSigmoid::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
-
-    int i, j, k;
-    double dark, dark2 = 1.;
-    int dark1 = 0;
-    for (j = 0; j < in; j++) {
-        for (k = 0; k < m; k++) {
-            dark = 0.;
-            for (i = 0; i < dim; i++)
-                dark += w[i * m + k] * x[i * in + j];
-            F[m * j + k] = 1. / (1. + exp(-dark - b[k]));
-        }
-    }
-
-    for (i = 0; i < dDim0; i++) {
-        dark1 += d[i];
-        dark2 *= pow(c[i], d[i]);
-    }
-
-    switch (dark1) {
-    case 0: {
-        break;
-    }
-    case 1: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark * (F[m * j + k] - pow(F[m * j + k], 2));
-            }
-        }
-        break;
-    }
-    case 2: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark * (F[m * j + k] - 3. * pow(F[m * j + k], 2) + 2. * pow(F[m * j + k], 3));
-            }
-        }
-        break;
-    }
-    case 3: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] =
-                    dark2 * dark *
-                    (F[m * j + k] - 7. * pow(F[m * j + k], 2) + 12. * pow(F[m * j + k], 3) - 6. * pow(F[m * j + k], 4));
-            }
-        }
-        break;
-    }
-    case 4: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark *
-                               (F[m * j + k] - 15. * pow(F[m * j + k], 2) + 50. * pow(F[m * j + k], 3) -
-                                60. * pow(F[m * j + k], 4) + 24. * pow(F[m * j + k], 5));
-            }
-        }
-        break;
-    }
-    case 5: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] =
-                    dark2 * dark *
-                    (F[m * j + k] - 31. * pow(F[m * j + k], 2) + 180. * pow(F[m * j + k], 3) -
-                     390. * pow(F[m * j + k], 4) + 360. * pow(F[m * j + k], 5) - 120. * pow(F[m * j + k], 6));
-            }
-        }
-        break;
-    }
-    case 6: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark *
-                               (F[m * j + k] - 63. * pow(F[m * j + k], 2) + 602. * pow(F[m * j + k], 3) -
-                                2100. * pow(F[m * j + k], 4) + 3360. * pow(F[m * j + k], 5) -
-                                2520. * pow(F[m * j + k], 6) + 720. * pow(F[m * j + k], 7));
-            }
-        }
-        break;
-    }
-    case 7: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] =
-                    dark2 * dark *
-                    (F[m * j + k] - 127. * pow(F[m * j + k], 2) + 1932. * pow(F[m * j + k], 3) -
-                     10206. * pow(F[m * j + k], 4) + 25200. * pow(F[m * j + k], 5) - 31920. * pow(F[m * j + k], 6) +
-                     20160. * pow(F[m * j + k], 7) - 5040. * pow(F[m * j + k], 8));
-            }
-        }
-        break;
-    }
-    case 8: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] =
-                    dark2 * dark *
-                    (F[m * j + k] - 255. * pow(F[m * j + k], 2) + 6050. * pow(F[m * j + k], 3) -
-                     46620. * pow(F[m * j + k], 4) + 166824. * pow(F[m * j + k], 5) - 317520. * pow(F[m * j + k], 6) +
-                     332640. * pow(F[m * j + k], 7) - 181440. * pow(F[m * j + k], 8) + 40320. * pow(F[m * j + k], 9));
-            }
-        }
-        break;
-    }
-    }
-    return;
-}
-
-// nELM Tanh *******************************************************************************************
-void nELMTanh::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
-
-    int i, j, k;
-    double dark, dark2 = 1.;
-    int dark1 = 0;
-    for (j = 0; j < in; j++) {
-        for (k = 0; k < m; k++) {
-            dark = 0.;
-            for (i = 0; i < dim; i++)
-                dark += w[i * m + k] * x[i * in + j];
-            F[m * j + k] = tanh(dark + b[k]);
-        }
-    }
-    for (i = 0; i < dDim0; i++) {
-        dark1 += d[i];
-        dark2 *= pow(c[i], d[i]);
-    }
-
-    switch (dark1) {
-    case 0: {
-        break;
-    }
-    case 1: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark * (1. - pow(F[m * j + k], 2));
-            }
-        }
-        break;
-    }
-    case 2: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark * (-2. * F[m * j + k] + 2. * pow(F[m * j + k], 3));
-            }
-        }
-        break;
-    }
-    case 3: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark * (-2. + 8. * pow(F[m * j + k], 2) - 6. * pow(F[m * j + k], 4));
-            }
-        }
-        break;
-    }
-    case 4: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] =
-                    dark2 * dark * (16. * F[m * j + k] - 40. * pow(F[m * j + k], 3) + 24. * pow(F[m * j + k], 5));
-            }
-        }
-        break;
-    }
-    case 5: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] =
-                    dark2 * dark *
-                    (16. - 136. * pow(F[m * j + k], 2) + 240. * pow(F[m * j + k], 4) - 120. * pow(F[m * j + k], 6));
-            }
-        }
-        break;
-    }
-    case 6: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark *
-                               (-272. * F[m * j + k] + 1232. * pow(F[m * j + k], 3) - 1680. * pow(F[m * j + k], 5) +
-                                720. * pow(F[m * j + k], 7));
-            }
-        }
-        break;
-    }
-    case 7: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark *
-                               (-272. + 3968. * pow(F[m * j + k], 2) - 12096. * pow(F[m * j + k], 4) +
-                                13440. * pow(F[m * j + k], 6) - 5040. * pow(F[m * j + k], 8));
-            }
-        }
-        break;
-    }
-    case 8: {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                F[m * j + k] = dark2 * dark *
-                               (7936. * F[m * j + k] - 56320. * pow(F[m * j + k], 3) + 129024. * pow(F[m * j + k], 5) -
-                                120960. * pow(F[m * j + k], 7) + 40320. * pow(F[m * j + k], 9));
-            }
-        }
-        break;
-    }
-    }
-    return;
-}
-
-// nELM Sin *******************************************************************************************
-void nELMSin::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
-
-    int i, j, k;
-    double dark, darkw, dark2 = 1.;
-    int dark1 = 0;
-
-    for (i = 0; i < dDim0; i++) {
-        dark1 += d[i];
-        dark2 *= pow(c[i], d[i]);
-    }
-
-    if (dark1 % 4 == 0) {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                darkw = 0.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                for (i = 0; i < dim; i++)
-                    darkw += w[i * m + k] * x[i * in + j];
-                F[m * j + k] = dark2 * dark * sin(darkw + b[k]);
-            }
-        }
-    } else if (dark1 % 4 == 1) {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                darkw = 0.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                for (i = 0; i < dim; i++)
-                    darkw += w[i * m + k] * x[i * in + j];
-                F[m * j + k] = dark2 * dark * cos(darkw + b[k]);
-            }
-        }
-    } else if (dark1 % 4 == 2) {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                darkw = 0.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                for (i = 0; i < dim; i++)
-                    darkw += w[i * m + k] * x[i * in + j];
-                F[m * j + k] = -dark2 * dark * sin(darkw + b[k]);
-            }
-        }
-    } else {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 1.;
-                darkw = 0.;
-                for (i = 0; i < dDim0; i++)
-                    dark *= pow(w[i * m + k], d[i]);
-                for (i = 0; i < dim; i++)
-                    darkw += w[i * m + k] * x[i * in + j];
-                F[m * j + k] = -dark2 * dark * cos(darkw + b[k]);
-            }
-        }
-    }
-    return;
-}
-
-// nELM Swish *******************************************************************************************
-void nELMSwish::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
-
-    int i, j, k;
-    int dark1 = 0;
-    double dark, dark2 = 1.;
-    double *sig = new double[in * m];  // Allocated on the heap, as allocating on the stack frequently causes segfaults
-                                       // due to size. - CL
-    double *zint = new double[in * m]; // Allocated on the heap, as allocating on the stack frequently causes segfaults
-                                       // due to size. - CL
-    for (i = 0; i < dDim0; i++) {
-        dark1 += d[i];
-        dark2 *= pow(c[i], d[i]);
-    }
-
-    if (dark1 == 0) {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 0.;
-                for (i = 0; i < dim; i++)
-                    dark += w[i * m + k] * x[i * in + j];
-                F[m * j + k] = (dark + b[k]) * 1. / (1. + exp(-dark - b[k]));
-            }
-        }
-
-    } else {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 0.;
-                for (i = 0; i < dim; i++)
-                    dark += w[i * m + k] * x[i * in + j];
-                zint[m * j + k] = dark + b[k];
-                sig[m * j + k] = 1. / (1. + exp(-zint[m * j + k]));
-            }
-        }
-
-        switch (dark1) {
-        case 1: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] =
-                        dark2 * dark * (sig[m * j + k] + zint[m * j + k] * (sig[m * j + k] - pow(sig[m * j + k], 2)));
-                }
-            }
-            break;
-        }
-        case 2: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] = dark2 * dark *
-                                   (2. * (sig[m * j + k] - pow(sig[m * j + k], 2)) +
-                                    zint[m * j + k] *
-                                        (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) + 2. * pow(sig[m * j + k], 3)));
-                }
-            }
-            break;
-        }
-        case 3: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] = dark2 * dark *
-                                   (3. * (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) + 2. * pow(sig[m * j + k], 3)) +
-                                    zint[m * j + k] * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) +
-                                                       12. * pow(sig[m * j + k], 3) - 6. * pow(sig[m * j + k], 4)));
-                }
-            }
-            break;
-        }
-        case 4: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] = dark2 * dark *
-                                   (4. * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) + 12. * pow(sig[m * j + k], 3) -
-                                          6. * pow(sig[m * j + k], 4)) +
-                                    zint[m * j + k] *
-                                        (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) + 50. * pow(sig[m * j + k], 3) -
-                                         60. * pow(sig[m * j + k], 4) + 24. * pow(sig[m * j + k], 5)));
-                }
-            }
-            break;
-        }
-        case 5: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] = dark2 * dark *
-                                   (5. * (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) + 50. * pow(sig[m * j + k], 3) -
-                                          60. * pow(sig[m * j + k], 4) + 24. * pow(sig[m * j + k], 5)) +
-                                    zint[m * j + k] * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) +
-                                                       180. * pow(sig[m * j + k], 3) - 390. * pow(sig[m * j + k], 4) +
-                                                       360. * pow(sig[m * j + k], 5) - 120. * pow(sig[m * j + k], 6)));
-                }
-            }
-            break;
-        }
-        case 6: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] = dark2 * dark *
-                                   (6. * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) +
-                                          180. * pow(sig[m * j + k], 3) - 390. * pow(sig[m * j + k], 4) +
-                                          360. * pow(sig[m * j + k], 5) - 120. * pow(sig[m * j + k], 6)) +
-                                    zint[m * j + k] *
-                                        (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
-                                         2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
-                                         2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)));
-                }
-            }
-            break;
-        }
-        case 7: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] =
-                        dark2 * dark *
-                        (7. * (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
-                               2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
-                               2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)) +
-                         zint[m * j + k] * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) +
-                                            1932. * pow(sig[m * j + k], 3) - 10206. * pow(sig[m * j + k], 4) +
-                                            25200. * pow(sig[m * j + k], 5) - 31920. * pow(sig[m * j + k], 6) +
-                                            20160. * pow(sig[m * j + k], 7) - 5040. * pow(sig[m * j + k], 8)));
-                }
-            }
-            break;
-        }
-        case 8: {
-            for (j = 0; j < in; j++) {
-                for (k = 0; k < m; k++) {
-                    dark = 1.;
-                    for (i = 0; i < dDim0; i++)
-                        dark *= pow(w[i * m + k], d[i]);
-                    F[m * j + k] =
-                        dark2 * dark *
-                        (8. * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) + 1932. * pow(sig[m * j + k], 3) -
-                               10206. * pow(sig[m * j + k], 4) + 25200. * pow(sig[m * j + k], 5) -
-                               31920. * pow(sig[m * j + k], 6) + 20160. * pow(sig[m * j + k], 7) -
-                               5040. * pow(sig[m * j + k], 8)) +
-                         zint[m * j + k] *
-                             (sig[m * j + k] - 255. * pow(sig[m * j + k], 2) + 6050. * pow(sig[m * j + k], 3) -
-                              46620. * pow(sig[m * j + k], 4) + 166824. * pow(sig[m * j + k], 5) -
-                              317520. * pow(sig[m * j + k], 6) + 332640. * pow(sig[m * j + k], 7) -
-                              181440. * pow(sig[m * j + k], 8) + 40320. * pow(sig[m * j + k], 9)));
-                }
-            }
-            break;
-        }
-        }
-    }
-    delete[] sig;
-    delete[] zint;
-    return;
-}
-
-// nELM Swish *******************************************************************************************
-void nELMReLU::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
-
-    int i, j, k, h = -1;
-    double dark, dark1;
-    bool zeroFlag = false;
-    for (i = 0; i < dDim0; i++) {
-        if (d[i] > 1 || ((d[i] == 1) && (h != -1))) {
-            zeroFlag = true;
-            break;
-        } else if (d[i] == 1) {
-            h = i;
-            dark1 = c[i];
-        }
-    }
-
-    if (zeroFlag) {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++)
-                F[m * j + k] = 0.;
-        }
-    } else {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                dark = 0.;
-                for (i = 0; i < dim; i++)
-                    dark += w[i * m + k] * x[i * in + j];
-                F[m * j + k] = std::max(0., dark + b[k]);
-            }
-        }
-    }
-
-    if (h != -1) {
-        for (j = 0; j < in; j++) {
-            for (k = 0; k < m; k++) {
-                if (F[m * j + k] != 0.) {
-                    F[m * j + k] = dark1 * w[h * m + k];
-                }
-            }
-        }
-    }
-    return;
-}
+#include "BF.h"
+
+// Initialize static BasisFunc variables
+int BasisFunc::nIdentifier = 0;
+std::vector<BasisFunc *> BasisFunc::BasisFuncContainer;
+std::shared_mutex BasisFunc::containerMutex;
+
+// Allocates n doubles with malloc: the Python layer releases them with free.
+static double *mallocDoubles(size_t n) {
+    double *arr = (double *)malloc(n * sizeof(double));
+    if (arr == NULL && n > 0)
+        throw std::bad_alloc();
+    return arr;
+}
+
+// xlaWrapper function
+void xlaWrapper(void *out, void **in) {
+    int N = (reinterpret_cast<int *>(in[0]))[0];
+    BasisFunc *basisFunc;
+    {
+        std::shared_lock<std::shared_mutex> lock(BasisFunc::containerMutex);
+        basisFunc = BasisFunc::BasisFuncContainer[N];
+    }
+    std::shared_lock<std::shared_mutex> valueLock(basisFunc->valueMutex);
+    basisFunc->xla(out, in);
+}
+
+#ifdef HAS_CUDA
+// xlaGpuWrapper function
+void xlaGpuWrapper(CUstream stream, void **buffers, const char *opaque, size_t opaque_len) {
+    int *N = new int[1];
+    N[0] = 0;
+    // cudaMemcpy(N,reinterpret_cast<int*>(buffers[6]),1*sizeof(int),cudaMemcpyDeviceToHost);
+    BasisFunc::BasisFuncContainer[*N]->xlaGpu(stream, buffers, opaque, opaque_len);
+    delete[] N;
+};
+#endif
+
+// Parent basis function class: **********************************************************************
+BasisFunc::BasisFunc(double x0in, double xf, const int *nCin, int ncDim0, int min, double z0in, double zf) {
+
+    // Initialize internal variables based on user givens
+    nC = new int[ncDim0];
+    memcpy(nC, nCin, ncDim0 * sizeof(int));
+    numC = ncDim0;
+
+    z0 = z0in;
+
+    m = min;
+    if (zf == DBL_MAX) {
+        c = 1.;
+        x0 = 0.;
+    } else {
+        x0 = x0in;
+        c = (zf - z0) / (xf - x0);
+    }
+
+    // Track this instance of BasisFunc
+    Register();
+
+    // Create a PyCapsule with xla function for XLA compilation
+    xlaCapsule = GetXlaCapsule();
+#ifdef HAS_CUDA
+    xlaGpuCapsule = GetXlaCapsuleGpu();
+#endif
+}
+
+BasisFunc::~BasisFunc() { delete[] nC; }
+
+void BasisFunc::Register() {
+    std::unique_lock<std::shared_mutex> lock(containerMutex);
+    BasisFuncContainer.push_back(this);
+    identifier = nIdentifier;
+    nIdentifier++;
+}
+
+void BasisFunc::H(const double *x, int n, const int d, int *nOut, int *mOut, double **F, bool full) {
+    *nOut = n;
+    *mOut = full ? m : m - numC;
+
+    int j, k;
+    double dMult = pow(c, d);
+    double *dark = new double[n * m];
+    double *z = new double[n];
+
+    for (k = 0; k < n; k++)
+        z[k] = (x[k] - x0) * c + z0;
+
+    *F = mallocDoubles((*mOut) * n);
+    Hint(d, z, n, dark);
+
+    if (!full) {
+        int i = -1;
+        bool flag;
+        for (j = 0; j < m; j++) {
+            flag = false;
+            for (k = 0; k < numC; k++) {
+                if (j == nC[k]) {
+                    flag = true;
+                    break;
+                }
+            }
+            if (flag)
+                continue;
+            else
+                i++;
+            for (k = 0; k < n; k++)
+                (*F)[(*mOut) * k + i] = dark[m * k + j] * dMult;
+        }
+    } else {
+        for (j = 0; j < m; j++) {
+            for (k = 0; k < n; k++)
+                (*F)[m * k + j] = dark[m * k + j] * dMult;
+        }
+    }
+    delete[] dark;
+    delete[] z;
+}
+
+void BasisFunc::xla(void *out, void **in) {
+    double *out_buf = reinterpret_cast<double *>(out);
+    double *x = reinterpret_cast<double *>(in[1]);
+    int d = (reinterpret_cast<int *>(in[2]))[0];
+    bool full = (reinterpret_cast<bool *>(in[3]))[0];
+    int n = (reinterpret_cast<int *>(in[4]))[0];
+    int mOut = (reinterpret_cast<int *>(in[5]))[0];
+
+    int j, k;
+    double dMult = pow(c, d);
+    double *dark = new double[n * m];
+    double *z = new double[n];
+
+    for (k = 0; k < n; k++)
+        z[k] = (x[k] - x0) * c + z0;
+
+    Hint(d, z, n, dark);
+
+    if (!full) {
+        int i = -1;
+        bool flag;
+        for (j = 0; j < m; j++) {
+            flag = false;
+            for (k = 0; k < numC; k++) {
+                if (j == nC[k]) {
+                    flag = true;
+                    break;
+                }
+            }
+            if (flag)
+                continue;
+            else
+                i++;
+            for (k = 0; k < n; k++)
+                out_buf[mOut * k + i] = dark[m * k + j] * dMult;
+        }
+    } else {
+        for (j = 0; j < m; j++) {
+            for (k = 0; k < n; k++)
+                out_buf[m * k + j] = dark[m * k + j] * dMult;
+        }
+    }
+    delete[] dark;
+    delete[] z;
+}
+
+#ifdef HAS_CUDA
+void BasisFunc::xlaGpu(CUstream stream, void **buffers, const char *opaque, size_t opaque_len) {
+    printf("Not implemented yet!\n");
+};
+#endif
+
+PyObject *BasisFunc::GetXlaCapsule() {
+    xlaFnType xlaFnPtr = xlaWrapper;
+    const char *name = "xla._CUSTOM_CALL_TARGET";
+    PyObject *capsule;
+    capsule = PyCapsule_New(reinterpret_cast<void *>(xlaFnPtr), name, NULL);
+    return capsule;
+}
+
+#ifdef HAS_CUDA
+PyObject *BasisFunc::GetXlaCapsuleGpu() {
+    xlaGpuFnType xlaFnPtr = xlaGpuWrapper;
+    const char *name = "xla._CUSTOM_CALL_TARGET";
+    PyObject *capsule;
+    capsule = PyCapsule_New(reinterpret_cast<void *>(xlaFnPtr), name, NULL);
+    return capsule;
+};
+#endif
+
+// COP: **********************************************************************
+void CP::Hint(const int d, const double *x, const int nOut, double *dark) {
+
+    int j, k;
+    int deg = m - 1;
+    if (deg == 0) {
+        if (d > 0) {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 0.;
+        } else {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 1.;
+        }
+    } else if (deg == 1) {
+        if (d > 1) {
+            for (k = 0; k < m * nOut; k++)
+                dark[k] = 0.;
+        } else if (d > 0) {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 0.;
+                dark[m * k + 1] = 1.;
+            }
+        } else {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 1;
+                dark[m * k + 1] = x[k];
+            }
+        }
+    } else {
+        for (k = 0; k < nOut; k++) {
+            dark[m * k] = 1;
+            dark[m * k + 1] = x[k];
+        }
+        for (k = 2; k < m; k++) {
+            for (j = 0; j < nOut; j++)
+                dark[m * j + k] = 2. * x[j] * dark[m * j + k - 1] - dark[m * j + k - 2];
+        }
+        RecurseDeriv(d, 0, x, nOut, dark, m);
+    }
+    return;
+}
+
+void CP::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+    if (dCurr != d) {
+        int j, k;
+        double *dark = new double[mOut * nOut];
+        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
+        if (dCurr == 0) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k] = 0.;
+                F[mOut * k + 1] = 1.;
+            }
+        } else if (dCurr == 1) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k + 1] = 0.;
+            }
+        }
+        for (k = 2; k < mOut; k++) {
+            for (j = 0; j < nOut; j++)
+                F[mOut * j + k] =
+                    (2. + 2. * dCurr) * dark[mOut * j + k - 1] + 2. * x[j] * F[mOut * j + k - 1] - F[mOut * j + k - 2];
+        }
+        dCurr++;
+        delete[] dark;
+        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    }
+    return;
+}
+
+// LeP: **********************************************************************
+void LeP::Hint(const int d, const double *x, const int nOut, double *dark) {
+
+    int j, k;
+    int deg = m - 1;
+    if (deg == 0) {
+        if (d > 0) {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 0.;
+        } else {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 1.;
+        }
+    } else if (deg == 1) {
+        if (d > 1) {
+            for (k = 0; k < m * nOut; k++)
+                dark[k] = 0.;
+        } else if (d > 0) {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 0.;
+                dark[m * k + 1] = 1.;
+            }
+        } else {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 1;
+                dark[m * k + 1] = x[k];
+            }
+        }
+    } else {
+        for (k = 0; k < nOut; k++) {
+            dark[m * k] = 1;
+            dark[m * k + 1] = x[k];
+        }
+        for (k = 1; k < m - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                dark[m * j + k + 1] = ((2. * k + 1.) * x[j] * dark[m * j + k] - k * dark[m * j + k - 1]) / (k + 1.);
+        }
+        RecurseDeriv(d, 0, x, nOut, dark, m);
+    }
+    return;
+}
+
+void LeP::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+
+    if (dCurr != d) {
+        int j, k;
+        double *dark = new double[mOut * nOut];
+        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
+        if (dCurr == 0) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k] = 0.;
+                F[mOut * k + 1] = 1.;
+            }
+        } else if (dCurr == 1) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k + 1] = 0.;
+            }
+        }
+        for (k = 1; k < mOut - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                F[m * j + k + 1] =
+                    ((2. * k + 1.) * ((dCurr + 1.) * dark[m * j + k] + x[j] * F[m * j + k]) - k * F[m * j + k - 1]) /
+                    (k + 1.);
+        }
+        dCurr++;
+        delete[] dark;
+        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    }
+    return;
+}
+
+// LaP: **********************************************************************
+void LaP::Hint(const int d, const double *x, const int nOut, double *dark) {
+
+    int j, k;
+    int deg = m - 1;
+    if (deg == 0) {
+        if (d > 0) {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 0.;
+        } else {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 1.;
+        }
+    } else if (deg == 1) {
+        if (d > 1) {
+            for (k = 0; k < m * nOut; k++)
+                dark[k] = 0.;
+        } else if (d > 0) {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 0.;
+                dark[m * k + 1] = -1.;
+            }
+        } else {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 1.;
+                dark[m * k + 1] = 1. - x[k];
+            }
+        }
+    } else {
+        for (k = 0; k < nOut; k++) {
+            dark[m * k] = 1.;
+            dark[m * k + 1] = 1. - x[k];
+        }
+        for (k = 1; k < m - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                dark[m * j + k + 1] = ((2. * k + 1. - x[j]) * dark[m * j + k] - k * dark[m * j + k - 1]) / (k + 1.);
+        }
+        RecurseDeriv(d, 0, x, nOut, dark, m);
+    }
+    return;
+}
+
+void LaP::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+
+    if (dCurr != d) {
+        int j, k;
+        double *dark = new double[mOut * nOut];
+        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
+        if (dCurr == 0) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k] = 0.;
+                F[mOut * k + 1] = -1.;
+            }
+        } else if (dCurr == 1) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k + 1] = 0.;
+            }
+        }
+        for (k = 1; k < mOut - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                F[m * j + k + 1] =
+                    ((2. * k + 1. - x[j]) * F[m * j + k] - (dCurr + 1.) * dark[m * j + k] - k * F[m * j + k - 1]) /
+                    (k + 1.);
+        }
+        dCurr++;
+        delete[] dark;
+        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    }
+    return;
+}
+
+// HoPpro: **********************************************************************
+// Hermite polynomials, probablists
+void HoPpro::Hint(const int d, const double *x, const int nOut, double *dark) {
+
+    int j, k;
+    int deg = m - 1;
+    if (deg == 0) {
+        if (d > 0) {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 0.;
+        } else {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 1.;
+        }
+    } else if (deg == 1) {
+        if (d > 1) {
+            for (k = 0; k < m * nOut; k++)
+                dark[k] = 0.;
+        } else if (d > 0) {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 0.;
+                dark[m * k + 1] = 1.;
+            }
+        } else {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 1.;
+                dark[m * k + 1] = x[k];
+            }
+        }
+    } else {
+        for (k = 0; k < nOut; k++) {
+            dark[m * k] = 1.;
+            dark[m * k + 1] = x[k];
+        }
+        for (k = 1; k < m - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                dark[m * j + k + 1] = x[j] * dark[m * j + k] - k * dark[m * j + k - 1];
+        }
+        RecurseDeriv(d, 0, x, nOut, dark, m);
+    }
+    return;
+}
+
+void HoPpro::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+
+    if (dCurr != d) {
+        int j, k;
+        double *dark = new double[mOut * nOut];
+        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
+        if (dCurr == 0) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k] = 0.;
+                F[mOut * k + 1] = 1.;
+            }
+        } else if (dCurr == 1) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k + 1] = 0.;
+            }
+        }
+        for (k = 1; k < mOut - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                F[m * j + k + 1] = (dCurr + 1.) * dark[m * j + k] + x[j] * F[m * j + k] - k * F[m * j + k - 1];
+        }
+        dCurr++;
+        delete[] dark;
+        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    }
+    return;
+}
+
+// HoPphy: **********************************************************************
+// Hermite polynomials, physicists
+void HoPphy::Hint(const int d, const double *x, const int nOut, double *dark) {
+
+    int j, k;
+    int deg = m - 1;
+    if (deg == 0) {
+        if (d > 0) {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 0.;
+        } else {
+            for (k = 0; k < nOut; k++)
+                dark[k] = 1.;
+        }
+    } else if (deg == 1) {
+        if (d > 1) {
+            for (k = 0; k < m * nOut; k++)
+                dark[k] = 0.;
+        } else if (d > 0) {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 0.;
+                dark[m * k + 1] = 2.;
+            }
+        } else {
+            for (k = 0; k < nOut; k++) {
+                dark[m * k] = 1.;
+                dark[m * k + 1] = 2. * x[k];
+            }
+        }
+    } else {
+        for (k = 0; k < nOut; k++) {
+            dark[m * k] = 1.;
+            dark[m * k + 1] = 2. * x[k];
+        }
+        for (k = 1; k < m - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                dark[m * j + k + 1] = 2. * x[j] * dark[m * j + k] - 2. * k * dark[m * j + k - 1];
+        }
+        RecurseDeriv(d, 0, x, nOut, dark, m);
+    }
+    return;
+}
+
+void HoPphy::RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+
+    if (dCurr != d) {
+        int j, k;
+        double *dark = new double[mOut * nOut];
+        memcpy(&dark[0], F, mOut * nOut * sizeof(double));
+        if (dCurr == 0) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k] = 0.;
+                F[mOut * k + 1] = 2.;
+            }
+        } else if (dCurr == 1) {
+            for (k = 0; k < nOut; k++) {
+                F[mOut * k + 1] = 0.;
+            }
+        }
+        for (k = 1; k < mOut - 1; k++) {
+            for (j = 0; j < nOut; j++)
+                F[m * j + k + 1] =
+                    2. * (dCurr + 1.) * dark[m * j + k] + 2. * x[j] * F[m * j + k] - 2. * k * F[m * j + k - 1];
+        }
+        dCurr++;
+        delete[] dark;
+        RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    }
+    return;
+}
+
+// FS: **********************************************************************
+// Fourier Series
+void FS::Hint(const int d, const double *x, const int nOut, double *dark) {
+
+    int j, k, g;
+    if (d == 0) {
+        for (k = 0; k < nOut; k++)
+            dark[m * k] = 1;
+        for (j = 1; j < m; j++) {
+            for (k = 0; k < nOut; k++) {
+                g = ceil(j / 2.);
+                if (j % 2 == 0) {
+                    dark[m * k + j] = cos(g * x[k]);
+                } else {
+                    dark[m * k + j] = sin(g * x[k]);
+                }
+            }
+        }
+    } else {
+        for (k = 0; k < nOut; k++)
+            dark[m * k] = 0;
+        if (d % 4 == 0) {
+            for (j = 1; j < m; j++) {
+                for (k = 0; k < nOut; k++) {
+                    g = ceil(j / 2.);
+                    if (j % 2 == 0) {
+                        dark[m * k + j] = pow(g, d) * cos(g * x[k]);
+                    } else {
+                        dark[m * k + j] = pow(g, d) * sin(g * x[k]);
+                    }
+                }
+            }
+        } else if (d % 4 == 1) {
+            for (j = 1; j < m; j++) {
+                for (k = 0; k < nOut; k++) {
+                    g = ceil(j / 2.);
+                    if (j % 2 == 0) {
+                        dark[m * k + j] = -pow(g, d) * sin(g * x[k]);
+                    } else {
+                        dark[m * k + j] = pow(g, d) * cos(g * x[k]);
+                    }
+                }
+            }
+        } else if (d % 4 == 2) {
+            for (j = 1; j < m; j++) {
+                for (k = 0; k < nOut; k++) {
+                    g = ceil(j / 2.);
+                    if (j % 2 == 0) {
+                        dark[m * k + j] = -pow(g, d) * cos(g * x[k]);
+                    } else {
+                        dark[m * k + j] = -pow(g, d) * sin(g * x[k]);
+                    }
+                }
+            }
+        } else {
+            for (j = 1; j < m; j++) {
+                for (k = 0; k < nOut; k++) {
+                    g = ceil(j / 2.);
+                    if (j % 2 == 0) {
+                        dark[m * k + j] = pow(g, d) * sin(g * x[k]);
+                    } else {
+                        dark[m * k + j] = -pow(g, d) * cos(g * x[k]);
+                    }
+                }
+            }
+        }
+    }
+    return;
+}
+
+// ELM: **********************************************************************
+// ELM base class
+ELM::ELM(double x0, double xf, const int *nCin, int ncDim0, int min)
+    : BasisFunc(x0, xf, nCin, ncDim0, min, 0., 1.) {
+
+    int k;
+    w = new double[m];
+    b = new double[m];
+
+    for (k = 0; k < m; k++) {
+        w[k] = 20. * ((double)rand() / (double)RAND_MAX) - 10.;
+        b[k] = 20. * ((double)rand() / (double)RAND_MAX) - 10.;
+    }
+}
+
+ELM::~ELM() {
+    delete[] b;
+    delete[] w;
+}
+
+void ELM::setW(const double *arrIn, int nIn) {
+    if (nIn != m) {
+        throw std::invalid_argument("Failure in setW function. Weight vector is the wrong size.");
+    }
+    std::unique_lock<std::shared_mutex> lock(valueMutex);
+    for (int k = 0; k < m; k++)
+        w[k] = arrIn[k];
+}
+
+void ELM::setB(const double *arrIn, int nIn) {
+    if (nIn != m) {
+        throw std::invalid_argument("Failure in setB function. Bias vector is the wrong size.");
+    }
+    std::unique_lock<std::shared_mutex> lock(valueMutex);
+    for (int k = 0; k < m; k++)
+        b[k] = arrIn[k];
+}
+
+void ELM::getW(double **arrOut, int *nOut) {
+    *nOut = m;
+    *arrOut = mallocDoubles(m);
+    for (int k = 0; k < m; k++)
+        (*arrOut)[k] = w[k];
+    return;
+}
+
+void ELM::getB(double **arrOut, int *nOut) {
+    *nOut = m;
+    *arrOut = mallocDoubles(m);
+    for (int k = 0; k < m; k++)
+        (*arrOut)[k] = b[k];
+    return;
+}
+
+// ELM ReLU: **********************************************************************
+void ELMReLU::Hint(const int d, const double *x, const int nOut, double *dark) {
+    int j, k;
+
+    if (d == 0) {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                dark[m * j + k] = std::max(0., w[k] * x[j] + b[k]);
+            }
+        }
+    } else if (d == 1) {
+        double dark1;
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                dark1 = w[k] * x[j] + b[k];
+                if (dark1 <= 0.) {
+                    dark[m * j + k] = 0.;
+                } else {
+                    dark[m * j + k] = w[k];
+                }
+            }
+        }
+    } else {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                dark[m * j + k] = 0.;
+            }
+        }
+    }
+    return;
+}
+
+// ELM Sigmoid: **********************************************************************
+void ELMSigmoid::Hint(const int d, const double *x, const int nOut, double *dark) {
+    int j, k;
+
+    for (j = 0; j < nOut; j++) {
+        for (k = 0; k < m; k++)
+            dark[m * j + k] = 1. / (1. + exp(-w[k] * x[j] - b[k]));
+    }
+
+    switch (d) {
+    case 0: {
+        break;
+    }
+    case 1: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = w[k] * (dark[m * j + k] - pow(dark[m * j + k], 2));
+        }
+        break;
+    }
+    case 2: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] =
+                    pow(w[k], 2) * (dark[m * j + k] - 3. * pow(dark[m * j + k], 2) + 2. * pow(dark[m * j + k], 3));
+        }
+        break;
+    }
+    case 3: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 3) * (dark[m * j + k] - 7. * pow(dark[m * j + k], 2) +
+                                                  12. * pow(dark[m * j + k], 3) - 6. * pow(dark[m * j + k], 4));
+        }
+        break;
+    }
+    case 4: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] =
+                    pow(w[k], 4) * (dark[m * j + k] - 15. * pow(dark[m * j + k], 2) + 50. * pow(dark[m * j + k], 3) -
+                                    60. * pow(dark[m * j + k], 4) + 24. * pow(dark[m * j + k], 5));
+        }
+        break;
+    }
+    case 5: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 5) * (dark[m * j + k] - 31. * pow(dark[m * j + k], 2) +
+                                                  180. * pow(dark[m * j + k], 3) - 390. * pow(dark[m * j + k], 4) +
+                                                  360. * pow(dark[m * j + k], 5) - 120. * pow(dark[m * j + k], 6));
+        }
+        break;
+    }
+    case 6: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] =
+                    pow(w[k], 6) * (dark[m * j + k] - 63. * pow(dark[m * j + k], 2) + 602. * pow(dark[m * j + k], 3) -
+                                    2100. * pow(dark[m * j + k], 4) + 3360. * pow(dark[m * j + k], 5) -
+                                    2520. * pow(dark[m * j + k], 6) + 720. * pow(dark[m * j + k], 7));
+        }
+        break;
+    }
+    case 7: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 7) * (dark[m * j + k] - 127. * pow(dark[m * j + k], 2) +
+                                                  1932. * pow(dark[m * j + k], 3) - 10206. * pow(dark[m * j + k], 4) +
+                                                  25200. * pow(dark[m * j + k], 5) - 31920. * pow(dark[m * j + k], 6) +
+                                                  20160. * pow(dark[m * j + k], 7) - 5040. * pow(dark[m * j + k], 8));
+        }
+        break;
+    }
+    case 8: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] =
+                    pow(w[k], 8) * (dark[m * j + k] - 255. * pow(dark[m * j + k], 2) + 6050. * pow(dark[m * j + k], 3) -
+                                    46620. * pow(dark[m * j + k], 4) + 166824. * pow(dark[m * j + k], 5) -
+                                    317520. * pow(dark[m * j + k], 6) + 332640. * pow(dark[m * j + k], 7) -
+                                    181440. * pow(dark[m * j + k], 8) + 40320. * pow(dark[m * j + k], 9));
+        }
+        break;
+    }
+    }
+    return;
+}
+
+// ELM Tanh: **********************************************************************
+
+void ELMTanh::Hint(const int d, const double *x, const int nOut, double *dark) {
+    int j, k;
+
+    for (j = 0; j < nOut; j++) {
+        for (k = 0; k < m; k++)
+            dark[m * j + k] = tanh(w[k] * x[j] + b[k]);
+    }
+
+    switch (d) {
+    case 0: {
+        break;
+    }
+    case 1: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = w[k] * (1. - pow(dark[m * j + k], 2));
+        }
+        break;
+    }
+    case 2: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 2) * (-2. * dark[m * j + k] + 2. * pow(dark[m * j + k], 3));
+        }
+        break;
+    }
+    case 3: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 3) * (-2. + 8. * pow(dark[m * j + k], 2) - 6. * pow(dark[m * j + k], 4));
+        }
+        break;
+    }
+    case 4: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 4) * (16. * dark[m * j + k] - 40. * pow(dark[m * j + k], 3) +
+                                                  24. * pow(dark[m * j + k], 5));
+        }
+        break;
+    }
+    case 5: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 5) * (16. - 136. * pow(dark[m * j + k], 2) +
+                                                  240. * pow(dark[m * j + k], 4) - 120. * pow(dark[m * j + k], 6));
+        }
+        break;
+    }
+    case 6: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 6) * (-272. * dark[m * j + k] + 1232. * pow(dark[m * j + k], 3) -
+                                                  1680. * pow(dark[m * j + k], 5) + 720. * pow(dark[m * j + k], 7));
+        }
+        break;
+    }
+    case 7: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] =
+                    pow(w[k], 7) * (-272. + 3968. * pow(dark[m * j + k], 2) - 12096. * pow(dark[m * j + k], 4) +
+                                    13440. * pow(dark[m * j + k], 6) - 5040. * pow(dark[m * j + k], 8));
+        }
+        break;
+    }
+    case 8: {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], 8) * (7936. * dark[m * j + k] - 56320. * pow(dark[m * j + k], 3) +
+                                                  129024. * pow(dark[m * j + k], 5) -
+                                                  120960. * pow(dark[m * j + k], 7) + 40320. * pow(dark[m * j + k], 9));
+        }
+        break;
+    }
+    }
+    return;
+}
+
+// ELM Sin: **********************************************************************
+
+void ELMSin::Hint(const int d, const double *x, const int nOut, double *dark) {
+    int j, k;
+
+    if (d % 4 == 0) {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                dark[m * j + k] = pow(w[k], d) * sin(w[k] * x[j] + b[k]);
+            }
+        }
+    } else if (d % 4 == 1) {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                dark[m * j + k] = pow(w[k], d) * cos(w[k] * x[j] + b[k]);
+            }
+        }
+    } else if (d % 4 == 2) {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                dark[m * j + k] = -pow(w[k], d) * sin(w[k] * x[j] + b[k]);
+            }
+        }
+    } else {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                dark[m * j + k] = -pow(w[k], d) * cos(w[k] * x[j] + b[k]);
+            }
+        }
+    }
+    return;
+}
+
+// ELM Swish: **********************************************************************
+
+void ELMSwish::Hint(const int d, const double *x, const int nOut, double *dark) {
+    int j, k;
+    double *sig = new double[nOut * m];
+    double *zint = new double[nOut * m];
+
+    if (d == 0) {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = (w[k] * x[j] + b[k]) * 1. / (1. + exp(-w[k] * x[j] - b[k]));
+        }
+
+    } else {
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++) {
+                zint[m * j + k] = w[k] * x[j] + b[k];
+                sig[m * j + k] = 1. / (1. + exp(-zint[m * j + k]));
+            }
+        }
+        switch (d) {
+        case 1: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] =
+                        w[k] * (sig[m * j + k] + zint[m * j + k] * (sig[m * j + k] - pow(sig[m * j + k], 2)));
+            }
+            break;
+        }
+        case 2: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] = pow(w[k], 2) * (2. * (sig[m * j + k] - pow(sig[m * j + k], 2)) +
+                                                      zint[m * j + k] * (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) +
+                                                                         2. * pow(sig[m * j + k], 3)));
+            }
+            break;
+        }
+        case 3: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] =
+                        pow(w[k], 3) *
+                        (3. * (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) + 2. * pow(sig[m * j + k], 3)) +
+                         zint[m * j + k] * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) +
+                                            12. * pow(sig[m * j + k], 3) - 6. * pow(sig[m * j + k], 4)));
+            }
+            break;
+        }
+        case 4: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] =
+                        pow(w[k], 4) * (4. * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) +
+                                              12. * pow(sig[m * j + k], 3) - 6. * pow(sig[m * j + k], 4)) +
+                                        zint[m * j + k] * (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) +
+                                                           50. * pow(sig[m * j + k], 3) - 60. * pow(sig[m * j + k], 4) +
+                                                           24. * pow(sig[m * j + k], 5)));
+            }
+            break;
+        }
+        case 5: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+
+                    dark[m * j + k] =
+                        pow(w[k], 5) *
+                        (5. * (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) + 50. * pow(sig[m * j + k], 3) -
+                               60. * pow(sig[m * j + k], 4) + 24. * pow(sig[m * j + k], 5)) +
+                         zint[m * j + k] * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) +
+                                            180. * pow(sig[m * j + k], 3) - 390. * pow(sig[m * j + k], 4) +
+                                            360. * pow(sig[m * j + k], 5) - 120. * pow(sig[m * j + k], 6)));
+            }
+            break;
+        }
+        case 6: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] =
+                        pow(w[k], 6) *
+                        (6. * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) + 180. * pow(sig[m * j + k], 3) -
+                               390. * pow(sig[m * j + k], 4) + 360. * pow(sig[m * j + k], 5) -
+                               120. * pow(sig[m * j + k], 6)) +
+                         zint[m * j + k] *
+                             (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
+                              2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
+                              2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)));
+            }
+            break;
+        }
+        case 7: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] =
+                        pow(w[k], 7) *
+                        (7. * (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
+                               2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
+                               2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)) +
+                         zint[m * j + k] * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) +
+                                            1932. * pow(sig[m * j + k], 3) - 10206. * pow(sig[m * j + k], 4) +
+                                            25200. * pow(sig[m * j + k], 5) - 31920. * pow(sig[m * j + k], 6) +
+                                            20160. * pow(sig[m * j + k], 7) - 5040. * pow(sig[m * j + k], 8)));
+            }
+            break;
+        }
+        case 8: {
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] =
+                        pow(w[k], 8) *
+                        (8. * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) + 1932. * pow(sig[m * j + k], 3) -
+                               10206. * pow(sig[m * j + k], 4) + 25200. * pow(sig[m * j + k], 5) -
+                               31920. * pow(sig[m * j + k], 6) + 20160. * pow(sig[m * j + k], 7) -
+                               5040. * pow(sig[m * j + k], 8)) +
+                         zint[m * j + k] *
+                             (sig[m * j + k] - 255. * pow(sig[m * j + k], 2) + 6050. * pow(sig[m * j + k], 3) -
+                              46620. * pow(sig[m * j + k], 4) + 166824. * pow(sig[m * j + k], 5) -
+                              317520. * pow(sig[m * j + k], 6) + 332640. * pow(sig[m * j + k], 7) -
+                              181440. * pow(sig[m * j + k], 8) + 40320. * pow(sig[m * j + k], 9)));
+            }
+            break;
+        }
+        }
+    }
+
+    delete[] sig;
+    delete[] zint;
+
+    return;
+}
+
+// Parent n-dimensional basis function class: **********************************************************************
+nBasisFunc::nBasisFunc(const double *x0in,
+                       int x0Dim0,
+                       const double *xf,
+                       int /*xfDim0*/,
+                       const int *nCin,
+                       int ncDim0,
+                       int ncDim1,
+                       int min,
+                       double z0in,
+                       double zfin) {
+
+    // Initialize internal variables based on user givens
+    dim = x0Dim0;
+    m = min;
+    numC = ncDim1;
+    z0 = z0in;
+    zf = zfin;
+
+    x0 = new double[dim];
+    memcpy(x0, x0in, dim * sizeof(double));
+
+    nC = new int[dim * numC];
+    memcpy(nC, nCin, ncDim0 * ncDim1 * sizeof(int));
+
+    c = new double[dim];
+    for (int k = 0; k < dim; k++)
+        c[k] = (zf - z0) / (xf[k] - x0[k]);
+
+    // Calculate the number of basis functions
+    numBasisFunc = 0;
+    numBasisFuncFull = 0;
+
+    int *vec = new int[dim];
+
+    NumBasisFunc(dim - 1, &vec[0], numBasisFunc, false);
+    NumBasisFunc(dim - 1, &vec[0], numBasisFuncFull, true);
+
+    delete[] vec;
+
+    // Track this instance of BasisFunc
+    Register();
+
+    // Create a PyCapsule with xla function for XLA compilation
+    xlaCapsule = GetXlaCapsule();
+#ifdef HAS_CUDA
+    xlaGpuCapsule = GetXlaCapsuleGpu();
+#endif
+}
+
+nBasisFunc::~nBasisFunc() { delete[] c; }
+
+void nBasisFunc::getC(double **arrOut, int *nOut) {
+    *nOut = dim;
+    *arrOut = mallocDoubles(dim);
+    for (int k = 0; k < dim; k++)
+        (*arrOut)[k] = c[k];
+    return;
+}
+
+void nBasisFunc::H(const double *x,
+                   int /*in*/,
+                   int xDim1,
+                   const int *d,
+                   int dDim0,
+                   int *nOut,
+                   int *mOut,
+                   double **F,
+                   const bool full) {
+    int numBasis = full ? numBasisFuncFull : numBasisFunc;
+    *mOut = numBasis;
+    *nOut = xDim1;
+    *F = mallocDoubles(numBasis * xDim1);
+    nHint(x, xDim1, d, dDim0, numBasis, *F, full);
+}
+
+void nBasisFunc::H(const double *, int, const int, int *, int *, double **, bool) {
+    throw std::runtime_error("This version of \"H\" should never be called from an n-dimensional basis class.");
+}
+
+void nBasisFunc::xla(void *out, void **in) {
+    double *out_buf = reinterpret_cast<double *>(out);
+    double *x = reinterpret_cast<double *>(in[1]);
+    int *d = reinterpret_cast<int *>(in[2]);
+    int dDim0 = (reinterpret_cast<int *>(in[3]))[0];
+    bool full = (reinterpret_cast<bool *>(in[4]))[0];
+    int nOut = (reinterpret_cast<int *>(in[5]))[0];
+    int mOut = (reinterpret_cast<int *>(in[6]))[0];
+
+    nHint(x, nOut, d, dDim0, mOut, out_buf, full);
+}
+
+void nBasisFunc::nHint(const double *x, int n, const int *d, int dDim0, int numBasis, double *&F, const bool full) {
+
+    int j, k;
+    double *dark = new double[n * m];
+    double *T = new double[n * m * dim];
+    double *z = new double[n * dim];
+    double dMult;
+
+    // Calculate the basis function domain points
+    for (j = 0; j < dim; j++) {
+        for (k = 0; k < n; k++)
+            z[j * n + k] = (x[j * n + k] - x0[j]) * c[j] + z0;
+    }
+
+    // Calculate univariate basis functions
+    for (k = 0; k < dim; k++) {
+        if (k >= dDim0) {
+            Hint(0, z + k * n, n, dark);
+            dMult = 1.;
+        } else {
+            Hint(d[k], z + k * n, n, dark);
+            dMult = pow(c[k], d[k]);
+        }
+        for (j = 0; j < n * m; j++)
+            T[j + k * m * n] = dark[j] * dMult;
+    }
+
+    for (k = 0; k < n * numBasis; k++)
+        F[k] = 1.;
+
+    int count = 0;
+
+    int *vec = new int[dim];
+
+    RecurseBasis(dim - 1, vec, count, full, n, numBasis, &T[0], F);
+
+    delete[] vec;
+    delete[] dark;
+    delete[] T;
+    delete[] z;
+}
+
+void nBasisFunc::NumBasisFunc(int dimCurr, int *vec, int &count, const bool full) {
+    int k;
+    if (dimCurr > 0) {
+        for (k = 0; k < m; k++) {
+            vec[dimCurr] = k;
+            NumBasisFunc(dimCurr - 1, vec, count, full);
+        }
+    } else {
+        int j, g;
+        int sum;
+        bool flag, flag1;
+        for (k = 0; k < m; k++) {
+            vec[dimCurr] = k;
+            flag = false;
+            sum = 0;
+            if (full) {
+                for (j = 0; j < dim; j++)
+                    sum += vec[j];
+                if (sum <= m - 1)
+                    count++;
+            } else {
+
+                // If at least one of the dimensions' basis functions is not a constraint, then
+                // set flag = true
+                for (j = 0; j < dim; j++) {
+                    flag1 = true;
+                    for (g = 0; g < numC; g++) {
+                        if (vec[j] == nC[j * numC + g]) {
+                            flag1 = false;
+                            break;
+                        }
+                    }
+                    if (flag1)
+                        flag = true;
+                }
+
+                // If flag is true and the degree of the product of univariate basis
+                // functions is less than the degree specified, add one to count
+                if (flag) {
+                    for (j = 0; j < dim; j++)
+                        sum += vec[j];
+                    if (sum <= m - 1)
+                        count++;
+                }
+            }
+        }
+    }
+    return;
+}
+
+void nBasisFunc::RecurseBasis(int dimCurr,
+                              int *vec,
+                              int &count,
+                              const bool full,
+                              const int in,
+                              const int numBasis,
+                              const double *T,
+                              double *out) {
+    int k;
+    if (dimCurr > 0) {
+        for (k = 0; k < m; k++) {
+            vec[dimCurr] = k;
+            RecurseBasis(dimCurr - 1, vec, count, full, in, numBasis, T, out);
+        }
+    } else {
+        int j, g, h, l;
+        int sum;
+        bool flag, flag1;
+        for (k = 0; k < m; k++) {
+            vec[dimCurr] = k;
+            flag = false;
+            sum = 0;
+            if (full) {
+                for (j = 0; j < dim; j++)
+                    sum += vec[j];
+                if (sum <= m - 1) {
+                    for (h = 0; h < in; h++) {
+                        for (l = 0; l < dim; l++)
+                            out[h * numBasis + count] *= T[m * in * l + vec[l] + h * m];
+                    }
+                    count++;
+                }
+            } else {
+
+                // If at least one of the dimensions' basis functions is not a constraint, then
+                // set flag = true
+                for (j = 0; j < dim; j++) {
+                    flag1 = true;
+                    for (g = 0; g < numC; g++) {
+                        if (vec[j] == nC[j * numC + g]) {
+                            flag1 = false;
+                            break;
+                        }
+                    }
+                    if (flag1)
+                        flag = true;
+                }
+
+                // If flag is true and the degree of the product of univariate basis
+                // functions is less than the degree specified, add one to count
+                if (flag) {
+                    for (j = 0; j < dim; j++)
+                        sum += vec[j];
+                    if (sum <= m - 1) {
+                        for (h = 0; h < in; h++) {
+                            for (l = 0; l < dim; l++)
+                                out[h * numBasis + count] *= T[m * in * l + vec[l] + h * m];
+                        }
+                        count++;
+                    }
+                }
+            }
+        }
+    }
+    return;
+}
+
+// nELM base class: ***********************************************************************************
+nELM::nELM(const double *x0in,
+           int x0Dim0,
+           const double *xf,
+           int /*xfDim0*/,
+           const int *nCin,
+           int ncDim0,
+           int min,
+           double z0in,
+           double zfin) {
+
+    int k;
+    bool flag = true;
+
+    // Initialize internal variables based on user givens
+    dim = x0Dim0;
+    m = min;
+    numC = ncDim0;
+    z0 = z0in;
+    zf = zfin;
+
+    x0 = new double[dim];
+    memcpy(x0, x0in, dim * sizeof(double));
+
+    nC = new int[dim * numC];
+    memcpy(nC, nCin, ncDim0 * sizeof(int));
+
+    c = new double[dim];
+    for (k = 0; k < dim; k++)
+        c[k] = (zf - z0) / (xf[k] - x0[k]);
+
+    for (k = 0; k < ncDim0; k++) {
+        if (nC[k] != -1) {
+            flag = false;
+        }
+    }
+    if (flag)
+        numC = 0;
+
+    m = min;
+
+    // Calculate the number of basis functions
+    numBasisFunc = m - numC;
+    numBasisFuncFull = m;
+
+    // Track this instance of BasisFunc
+    Register();
+
+    // Create a PyCapsule with xla function for XLA compilation
+    xlaCapsule = GetXlaCapsule();
+#ifdef HAS_CUDA
+    xlaGpuCapsule = GetXlaCapsuleGpu();
+#endif
+
+    w = new double[dim * m];
+    b = new double[m];
+    for (k = 0; k < dim * m; k++)
+        w[k] = 2. * ((double)rand() / (double)RAND_MAX) - 1.;
+    for (k = 0; k < m; k++)
+        b[k] = 2. * ((double)rand() / (double)RAND_MAX) - 1.;
+}
+
+nELM::~nELM() {
+    delete[] b;
+    delete[] w;
+}
+
+void nELM::setW(const double *arrIn, int dimIn, int nIn) {
+    if ((nIn != m) || (dimIn != dim)) {
+        throw std::invalid_argument("Failure in setW function. Weight vector is the wrong size.");
+    }
+    std::unique_lock<std::shared_mutex> lock(valueMutex);
+    for (int k = 0; k < m * dim; k++)
+        w[k] = arrIn[k];
+}
+
+void nELM::setB(const double *arrIn, int nIn) {
+    if (nIn != m) {
+        throw std::invalid_argument("Failure in setB function. Bias vector is the wrong size.");
+    }
+    std::unique_lock<std::shared_mutex> lock(valueMutex);
+    for (int k = 0; k < m; k++)
+        b[k] = arrIn[k];
+}
+
+void nELM::getW(int *dimOut, int *nOut, double **arrOut) {
+    *dimOut = dim;
+    *nOut = m;
+    *arrOut = mallocDoubles(m * dim);
+    for (int k = 0; k < m * dim; k++)
+        (*arrOut)[k] = w[k];
+    return;
+}
+
+void nELM::getB(double **arrOut, int *nOut) {
+    *nOut = m;
+    *arrOut = mallocDoubles(m);
+    for (int k = 0; k < m; k++)
+        (*arrOut)[k] = b[k];
+    return;
+}
+
+void nELM::nHint(const double *x, int n, const int *d, int dDim0, int numBasis, double *&F, const bool full) {
+
+    int j, k;
+    double *z = new double[n * dim];
+
+    // Calculate the basis function domain points
+    for (j = 0; j < dim; j++) {
+        for (k = 0; k < n; k++)
+            z[j * n + k] = (x[j * n + k] - x0[j]) * c[j] + z0;
+    }
+
+    if ((numC == 0) || (full)) {
+        nElmHint(d, dDim0, z, n, F);
+    } else {
+        int i = -1;
+        bool flag;
+        double *dark = new double[m * n]; // Allocated on the heap, as allocating on the stack frequently causes
+                                          // segfaults due to size. - CL
+        nElmHint(d, dDim0, z, n, dark);
+
+        for (j = 0; j < m; j++) {
+            flag = false;
+            for (k = 0; k < numC; k++) {
+                if (j == nC[k]) {
+                    flag = true;
+                    break;
+                }
+            }
+            if (flag)
+                continue;
+            else
+                i++;
+            for (k = 0; k < n; k++)
+                F[numBasis * k + i] = dark[m * k + j];
+        }
+
+        delete[] dark;
+    }
+    delete[] z;
+}
+
+// nELM Sigmoid *******************************************************************************************
+void nELMSigmoid::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
+
+    int i, j, k;
+    double dark, dark2 = 1.;
+    int dark1 = 0;
+    for (j = 0; j < in; j++) {
+        for (k = 0; k < m; k++) {
+            dark = 0.;
+            for (i = 0; i < dim; i++)
+                dark += w[i * m + k] * x[i * in + j];
+            F[m * j + k] = 1. / (1. + exp(-dark - b[k]));
+        }
+    }
+
+    for (i = 0; i < dDim0; i++) {
+        dark1 += d[i];
+        dark2 *= pow(c[i], d[i]);
+    }
+
+    switch (dark1) {
+    case 0: {
+        break;
+    }
+    case 1: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark * (F[m * j + k] - pow(F[m * j + k], 2));
+            }
+        }
+        break;
+    }
+    case 2: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark * (F[m * j + k] - 3. * pow(F[m * j + k], 2) + 2. * pow(F[m * j + k], 3));
+            }
+        }
+        break;
+    }
+    case 3: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] =
+                    dark2 * dark *
+                    (F[m * j + k] - 7. * pow(F[m * j + k], 2) + 12. * pow(F[m * j + k], 3) - 6. * pow(F[m * j + k], 4));
+            }
+        }
+        break;
+    }
+    case 4: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark *
+                               (F[m * j + k] - 15. * pow(F[m * j + k], 2) + 50. * pow(F[m * j + k], 3) -
+                                60. * pow(F[m * j + k], 4) + 24. * pow(F[m * j + k], 5));
+            }
+        }
+        break;
+    }
+    case 5: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] =
+                    dark2 * dark *
+                    (F[m * j + k] - 31. * pow(F[m * j + k], 2) + 180. * pow(F[m * j + k], 3) -
+                     390. * pow(F[m * j + k], 4) + 360. * pow(F[m * j + k], 5) - 120. * pow(F[m * j + k], 6));
+            }
+        }
+        break;
+    }
+    case 6: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark *
+                               (F[m * j + k] - 63. * pow(F[m * j + k], 2) + 602. * pow(F[m * j + k], 3) -
+                                2100. * pow(F[m * j + k], 4) + 3360. * pow(F[m * j + k], 5) -
+                                2520. * pow(F[m * j + k], 6) + 720. * pow(F[m * j + k], 7));
+            }
+        }
+        break;
+    }
+    case 7: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] =
+                    dark2 * dark *
+                    (F[m * j + k] - 127. * pow(F[m * j + k], 2) + 1932. * pow(F[m * j + k], 3) -
+                     10206. * pow(F[m * j + k], 4) + 25200. * pow(F[m * j + k], 5) - 31920. * pow(F[m * j + k], 6) +
+                     20160. * pow(F[m * j + k], 7) - 5040. * pow(F[m * j + k], 8));
+            }
+        }
+        break;
+    }
+    case 8: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] =
+                    dark2 * dark *
+                    (F[m * j + k] - 255. * pow(F[m * j + k], 2) + 6050. * pow(F[m * j + k], 3) -
+                     46620. * pow(F[m * j + k], 4) + 166824. * pow(F[m * j + k], 5) - 317520. * pow(F[m * j + k], 6) +
+                     332640. * pow(F[m * j + k], 7) - 181440. * pow(F[m * j + k], 8) + 40320. * pow(F[m * j + k], 9));
+            }
+        }
+        break;
+    }
+    }
+    return;
+}
+
+// nELM Tanh *******************************************************************************************
+void nELMTanh::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
+
+    int i, j, k;
+    double dark, dark2 = 1.;
+    int dark1 = 0;
+    for (j = 0; j < in; j++) {
+        for (k = 0; k < m; k++) {
+            dark = 0.;
+            for (i = 0; i < dim; i++)
+                dark += w[i * m + k] * x[i * in + j];
+            F[m * j + k] = tanh(dark + b[k]);
+        }
+    }
+    for (i = 0; i < dDim0; i++) {
+        dark1 += d[i];
+        dark2 *= pow(c[i], d[i]);
+    }
+
+    switch (dark1) {
+    case 0: {
+        break;
+    }
+    case 1: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark * (1. - pow(F[m * j + k], 2));
+            }
+        }
+        break;
+    }
+    case 2: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark * (-2. * F[m * j + k] + 2. * pow(F[m * j + k], 3));
+            }
+        }
+        break;
+    }
+    case 3: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark * (-2. + 8. * pow(F[m * j + k], 2) - 6. * pow(F[m * j + k], 4));
+            }
+        }
+        break;
+    }
+    case 4: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] =
+                    dark2 * dark * (16. * F[m * j + k] - 40. * pow(F[m * j + k], 3) + 24. * pow(F[m * j + k], 5));
+            }
+        }
+        break;
+    }
+    case 5: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] =
+                    dark2 * dark *
+                    (16. - 136. * pow(F[m * j + k], 2) + 240. * pow(F[m * j + k], 4) - 120. * pow(F[m * j + k], 6));
+            }
+        }
+        break;
+    }
+    case 6: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark *
+                               (-272. * F[m * j + k] + 1232. * pow(F[m * j + k], 3) - 1680. * pow(F[m * j + k], 5) +
+                                720. * pow(F[m * j + k], 7));
+            }
+        }
+        break;
+    }
+    case 7: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark *
+                               (-272. + 3968. * pow(F[m * j + k], 2) - 12096. * pow(F[m * j + k], 4) +
+                                13440. * pow(F[m * j + k], 6) - 5040. * pow(F[m * j + k], 8));
+            }
+        }
+        break;
+    }
+    case 8: {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark *
+                               (7936. * F[m * j + k] - 56320. * pow(F[m * j + k], 3) + 129024. * pow(F[m * j + k], 5) -
+                                120960. * pow(F[m * j + k], 7) + 40320. * pow(F[m * j + k], 9));
+            }
+        }
+        break;
+    }
+    }
+    return;
+}
+
+// nELM Sin *******************************************************************************************
+void nELMSin::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
+
+    int i, j, k;
+    double dark, darkw, dark2 = 1.;
+    int dark1 = 0;
+
+    for (i = 0; i < dDim0; i++) {
+        dark1 += d[i];
+        dark2 *= pow(c[i], d[i]);
+    }
+
+    if (dark1 % 4 == 0) {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                darkw = 0.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                for (i = 0; i < dim; i++)
+                    darkw += w[i * m + k] * x[i * in + j];
+                F[m * j + k] = dark2 * dark * sin(darkw + b[k]);
+            }
+        }
+    } else if (dark1 % 4 == 1) {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                darkw = 0.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                for (i = 0; i < dim; i++)
+                    darkw += w[i * m + k] * x[i * in + j];
+                F[m * j + k] = dark2 * dark * cos(darkw + b[k]);
+            }
+        }
+    } else if (dark1 % 4 == 2) {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                darkw = 0.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                for (i = 0; i < dim; i++)
+                    darkw += w[i * m + k] * x[i * in + j];
+                F[m * j + k] = -dark2 * dark * sin(darkw + b[k]);
+            }
+        }
+    } else {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                darkw = 0.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                for (i = 0; i < dim; i++)
+                    darkw += w[i * m + k] * x[i * in + j];
+                F[m * j + k] = -dark2 * dark * cos(darkw + b[k]);
+            }
+        }
+    }
+    return;
+}
+
+// nELM Swish *******************************************************************************************
+void nELMSwish::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
+
+    int i, j, k;
+    int dark1 = 0;
+    double dark, dark2 = 1.;
+    double *sig = new double[in * m];  // Allocated on the heap, as allocating on the stack frequently causes segfaults
+                                       // due to size. - CL
+    double *zint = new double[in * m]; // Allocated on the heap, as allocating on the stack frequently causes segfaults
+                                       // due to size. - CL
+    for (i = 0; i < dDim0; i++) {
+        dark1 += d[i];
+        dark2 *= pow(c[i], d[i]);
+    }
+
+    if (dark1 == 0) {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 0.;
+                for (i = 0; i < dim; i++)
+                    dark += w[i * m + k] * x[i * in + j];
+                F[m * j + k] = (dark + b[k]) * 1. / (1. + exp(-dark - b[k]));
+            }
+        }
+
+    } else {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 0.;
+                for (i = 0; i < dim; i++)
+                    dark += w[i * m + k] * x[i * in + j];
+                zint[m * j + k] = dark + b[k];
+                sig[m * j + k] = 1. / (1. + exp(-zint[m * j + k]));
+            }
+        }
+
+        switch (dark1) {
+        case 1: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] =
+                        dark2 * dark * (sig[m * j + k] + zint[m * j + k] * (sig[m * j + k] - pow(sig[m * j + k], 2)));
+                }
+            }
+            break;
+        }
+        case 2: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] = dark2 * dark *
+                                   (2. * (sig[m * j + k] - pow(sig[m * j + k], 2)) +
+                                    zint[m * j + k] *
+                                        (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) + 2. * pow(sig[m * j + k], 3)));
+                }
+            }
+            break;
+        }
+        case 3: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] = dark2 * dark *
+                                   (3. * (sig[m * j + k] - 3. * pow(sig[m * j + k], 2) + 2. * pow(sig[m * j + k], 3)) +
+                                    zint[m * j + k] * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) +
+                                                       12. * pow(sig[m * j + k], 3) - 6. * pow(sig[m * j + k], 4)));
+                }
+            }
+            break;
+        }
+        case 4: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] = dark2 * dark *
+                                   (4. * (sig[m * j + k] - 7. * pow(sig[m * j + k], 2) + 12. * pow(sig[m * j + k], 3) -
+                                          6. * pow(sig[m * j + k], 4)) +
+                                    zint[m * j + k] *
+                                        (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) + 50. * pow(sig[m * j + k], 3) -
+                                         60. * pow(sig[m * j + k], 4) + 24. * pow(sig[m * j + k], 5)));
+                }
+            }
+            break;
+        }
+        case 5: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] = dark2 * dark *
+                                   (5. * (sig[m * j + k] - 15. * pow(sig[m * j + k], 2) + 50. * pow(sig[m * j + k], 3) -
+                                          60. * pow(sig[m * j + k], 4) + 24. * pow(sig[m * j + k], 5)) +
+                                    zint[m * j + k] * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) +
+                                                       180. * pow(sig[m * j + k], 3) - 390. * pow(sig[m * j + k], 4) +
+                                                       360. * pow(sig[m * j + k], 5) - 120. * pow(sig[m * j + k], 6)));
+                }
+            }
+            break;
+        }
+        case 6: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] = dark2 * dark *
+                                   (6. * (sig[m * j + k] - 31. * pow(sig[m * j + k], 2) +
+                                          180. * pow(sig[m * j + k], 3) - 390. * pow(sig[m * j + k], 4) +
+                                          360. * pow(sig[m * j + k], 5) - 120. * pow(sig[m * j + k], 6)) +
+                                    zint[m * j + k] *
+                                        (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
+                                         2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
+                                         2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)));
+                }
+            }
+            break;
+        }
+        case 7: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] =
+                        dark2 * dark *
+                        (7. * (sig[m * j + k] - 63. * pow(sig[m * j + k], 2) + 602. * pow(sig[m * j + k], 3) -
+                               2100. * pow(sig[m * j + k], 4) + 3360. * pow(sig[m * j + k], 5) -
+                               2520. * pow(sig[m * j + k], 6) + 720. * pow(sig[m * j + k], 7)) +
+                         zint[m * j + k] * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) +
+                                            1932. * pow(sig[m * j + k], 3) - 10206. * pow(sig[m * j + k], 4) +
+                                            25200. * pow(sig[m * j + k], 5) - 31920. * pow(sig[m * j + k], 6) +
+                                            20160. * pow(sig[m * j + k], 7) - 5040. * pow(sig[m * j + k], 8)));
+                }
+            }
+            break;
+        }
+        case 8: {
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] =
+                        dark2 * dark *
+                        (8. * (sig[m * j + k] - 127. * pow(sig[m * j + k], 2) + 1932. * pow(sig[m * j + k], 3) -
+                               10206. * pow(sig[m * j + k], 4) + 25200. * pow(sig[m * j + k], 5) -
+                               31920. * pow(sig[m * j + k], 6) + 20160. * pow(sig[m * j + k], 7) -
+                               5040. * pow(sig[m * j + k], 8)) +
+                         zint[m * j + k] *
+                             (sig[m * j + k] - 255. * pow(sig[m * j + k], 2) + 6050. * pow(sig[m * j + k], 3) -
+                              46620. * pow(sig[m * j + k], 4) + 166824. * pow(sig[m * j + k], 5) -
+                              317520. * pow(sig[m * j + k], 6) + 332640. * pow(sig[m * j + k], 7) -
+                              181440. * pow(sig[m * j + k], 8) + 40320. * pow(sig[m * j + k], 9)));
+                }
+            }
+            break;
+        }
+        }
+    }
+    delete[] sig;
+    delete[] zint;
+    return;
+}
+
+// nELM Swish *******************************************************************************************
+void nELMReLU::nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) {
+
+    int i, j, k, h = -1;
+    double dark, dark1;
+    bool zeroFlag = false;
+    for (i = 0; i < dDim0; i++) {
+        if (d[i] > 1 || ((d[i] == 1) && (h != -1))) {
+            zeroFlag = true;
+            break;
+        } else if (d[i] == 1) {
+            h = i;
+            dark1 = c[i];
+        }
+    }
+
+    if (zeroFlag) {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++)
+                F[m * j + k] = 0.;
+        }
+    } else {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 0.;
+                for (i = 0; i < dim; i++)
+                    dark += w[i * m + k] * x[i * in + j];
+                F[m * j + k] = std::max(0., dark + b[k]);
+            }
+        }
+    }
+
+    if (h != -1) {
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                if (F[m * j + k] != 0.) {
+                    F[m * j + k] = dark1 * w[h * m + k];
+                }
+            }
+        }
+    }
+    return;
+}
diff --git a/src/tfc/utils/BF.h b/src/tfc/utils/BF.h
index b98c311..b01fd2f 100644
--- a/src/tfc/utils/BF.h
+++ b/src/tfc/utils/BF.h
@@ -1,752 +1,752 @@
-#define _USE_MATH_DEFINES // Needed by Windows
-#include <Python.h>
-#include <float.h>
-#include <iostream>
-#include <math.h>
-#include <mutex>
-#include <new>
-#include <shared_mutex>
-#include <stdexcept>
-#include <vector>
-#ifdef HAS_CUDA
-#include <cuda.h>
-#include <cuda_runtime.h>
-#include <cuda_runtime_api.h>
-#endif
-
-#ifndef BF_H
-#define BF_H
-
-// BasisFunc
-// **************************************************************************************************************************
-/** This class is an abstract class used to create all other basis function classes. It defines standard methods to call
- * the basis function and its derivatives, as well as provides wrappers for XLA computation. */
-class BasisFunc {
-
-  public:
-    /** Beginning of the basis function domain. */
-    double z0;
-
-    /** Start of the problem domain. */
-    double x0;
-
-    /** Multiplier in the linear domain map. */
-    double c;
-
-    /** Array that specifies which basis functions to remove. */
-    int *nC = nullptr;
-
-    /** Number of basis functions to be removed. */
-    int numC;
-
-    /** Number of basis functions to use. */
-    int m;
-
-    /** Unique identifier for this instance of BasisFunc. */
-    int identifier;
-
-    /** Guards values that Python can change, e.g., ELM weights, while XLA threads evaluate this instance. */
-    std::shared_mutex valueMutex;
-
-    /** PyObject that contains the XLA version of the basis function. */
-    PyObject *xlaCapsule;
-
-#ifdef HAS_CUDA
-    /** PyObject that contains the XLA version of the basis function that uses a CUDA GPU kernel. */
-    PyObject *xlaGpuCapsule;
-#else
-    const char *xlaGpuCapsule = "CUDA NOT FOUND, GPU NOT IMPLEMENTED.";
-#endif
-
-    /** Counter that increments each time a new instance of BasisFunc is created. */
-    static int nIdentifier;
-
-    /** Vector that contains pointers to all BasisFunc classes. */
-    static std::vector<BasisFunc *> BasisFuncContainer;
-
-    /** Guards BasisFuncContainer and nIdentifier: XLA threads look instances up without holding the GIL. */
-    static std::shared_mutex containerMutex;
-
-  public:
-    /** Basis function class constructor.
-     * 		- Stores variables based on user supplied givens
-     * 		- Stores a pointer to itself using static variables
-     * 		- Creates PyCapsule for xla function. */
-    BasisFunc(double x0in, double xf, const int *nCin, int ncDim0, int min, double z0in = 0., double zf = DBL_MAX);
-
-    /** Basis function class destructor. Removes memory used by the basis function class. */
-    virtual ~BasisFunc();
-
-    // Prevent copying
-    BasisFunc(const BasisFunc &) = delete;
-    BasisFunc &operator=(const BasisFunc &) = delete;
-
-    // Prevent moving
-    BasisFunc(BasisFunc &&) = delete;
-    BasisFunc &operator=(BasisFunc &&) = delete;
-
-    /** Function is used to create a basis function matrix and its derivatives. This matrix is is an m x N matrix where:
-     *  	- m is the number of basis functions
-     *  	- N = in is the number of points in x
-     *  	- d is used to specify the derivative
-     *  	- full is a bool that specifies:
-     *  		- If true, full matrix with no basis functions removed is returned
-     *  		- If false, matrix columns corresponding to the values in nC are removed
-     *  	- useVal is a bool that specifies:
-     *  		- If true, uses the x values given
-     *  		- If false, uses the z values from the class
-     *  Note that this function is used to hook into Python, thus the extra arguments. */
-    virtual void H(const double *x, int n, const int d, int *nOut, int *mOut, double **F, bool full);
-
-    /** This function is an XLA version of the basis function. */
-    virtual void xla(void *out, void **in);
-
-#ifdef HAS_CUDA
-    /** This function is an XLA version of the basis function that uses a CUDA GPU kernel. */
-    void xlaGpu(CUstream stream, void **buffers, const char *opaque, size_t opaque_len);
-#endif
-
-  protected:
-    /** Dummy empty constructor allows derived classes without calling constructor explicitly. */
-    BasisFunc() {};
-
-    /** Tracks this instance in BasisFuncContainer and sets its identifier. */
-    void Register();
-
-    /** This function creates a PyCapsule object that wraps the XLA verison of the basis function. */
-    PyObject *GetXlaCapsule();
-
-#ifdef HAS_CUDA
-    /** This function creates a PyCapsule object that wraps the XLA verison of the basis function that uses a CUDA GPU
-     * kernel. */
-    PyObject *GetXlaCapsuleGpu();
-#endif
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    virtual void Hint(const int d, const double *x, const int nOut, double *dark) = 0;
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    virtual void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) = 0;
-};
-
-// XLA related declarations:
-// **********************************************************************************************************
-/** Pointer for XLA-type function that can be cast to void* and put in a PyCapsule. */
-typedef void (*xlaFnType)(void *, void **);
-
-#ifdef HAS_CUDA
-/** Pointer for GPU compatible XLA-type function that can be cast to void* and put in a PyCapsule. */
-typedef void (*xlaGpuFnType)(CUstream, void **, const char *, size_t);
-
-/** Function used to wrap BasisFunc->xlaGpu in C-style function that can be cast to void*. */
-void xlaGpuWrapper(CUstream stream, void **buffers, const char *opaque, size_t opaque_len);
-#endif
-
-// CP:
-// ********************************************************************************************************************************
-/** Class for Chebyshev orthogonal polynomials. */
-class CP : virtual public BasisFunc {
-  public:
-    /** CP class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
-    CP(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : BasisFunc(x0, xf, nCin, ncDim0, min, -1., 1.) {};
-
-    /** CP class destructor.*/
-    virtual ~CP() {};
-
-    // Prevent copying
-    CP(const CP &) = delete;
-    CP &operator=(const CP &) = delete;
-
-    // Prevent moving
-    CP(CP &&) = delete;
-    CP &operator=(CP &&) = delete;
-
-  protected:
-    /** Dummy CP class constructor. Used only in n-dimensions. */
-    CP() {};
-
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
-};
-
-// LeP:
-// ********************************************************************************************************************************
-/** Class for Legendre orthogonal polynomials. */
-class LeP : virtual public BasisFunc {
-  public:
-    /** LeP class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
-    LeP(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : BasisFunc(x0, xf, nCin, ncDim0, min, -1., 1.) {};
-
-    /** Dummy LeP class constructor. Used only in n-dimensions. */
-    LeP() {};
-
-    /** LeP class destructor.*/
-    ~LeP() {};
-
-  protected:
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
-};
-
-// LaP:
-// ********************************************************************************************************************************
-/** Class for Laguerre orthogonal polynomials. */
-class LaP : public BasisFunc {
-  public:
-    /** LaP class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
-    LaP(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : BasisFunc(x0, xf, nCin, ncDim0, min) {};
-    /** LaP class destructor.*/
-    ~LaP() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
-};
-
-// HoPpro:
-// ********************************************************************************************************************************
-/** Class for Hermite probablist orthogonal polynomials. */
-class HoPpro : public BasisFunc {
-  public:
-    /** HoPpro class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
-    HoPpro(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : BasisFunc(x0, xf, nCin, ncDim0, min) {};
-    /** HoPpro class destructor.*/
-    ~HoPpro() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
-};
-
-// HoPphy:
-// ********************************************************************************************************************************
-/** Class for Hermite physicist orthogonal polynomials. */
-class HoPphy : public BasisFunc {
-  public:
-    /** HoPphy class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
-    HoPphy(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : BasisFunc(x0, xf, nCin, ncDim0, min) {};
-    /** HoPphy class destructor.*/
-    ~HoPphy() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
-};
-
-// FS:
-// ********************************************************************************************************************************
-/** Class for Fourier Series basis. */
-class FS : virtual public BasisFunc {
-  public:
-    /** FS class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
-    FS(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : BasisFunc(x0, xf, nCin, ncDim0, min, -M_PI, M_PI) {};
-
-    /** Dummy FS class constructor. Used only in n-dimensions. */
-    FS() {};
-
-    /** FS class destructor.*/
-    ~FS() {};
-
-  protected:
-    /** Function used internally to create the basis function matrices and derivatives. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-
-    /** This function is unecessary for FS as it is all handled in Hint. Therefore, this is just an empty function that
-     * returns a warning. */
-    void RecurseDeriv(const int, int, const double *, const int, double *&, const int) {
-        fprintf(stderr,
-                "Warning, this function from FS should never be called. It seems it has been called by accident. "
-                "Please check that this function was intended to be called.\n");
-        printf("Warning, this function from FS should never be called. It seems it has been called by accident. Please "
-               "check that this function was intended to be called.\n");
-    };
-};
-
-// ELM base class:
-// ********************************************************************************************************************************
-/** ELM base class. */
-class ELM : public BasisFunc {
-  public:
-    /** ELM weights. */
-    double *w;
-
-    /** ELM biases. */
-    double *b;
-
-    /** ELM class constructor. Calls BasisFunc class constructor and sets up weights and biases for the ELM. See
-     * BasisFunc class for more details. */
-    ELM(double x0, double xf, const int *nCin, int ncDim0, int min);
-
-    /** ELM class destructor.*/
-    virtual ~ELM();
-
-    /** Python hook to return ELM weights. */
-    void getW(double **arrOut, int *nOut);
-
-    /** Python hook to set ELM weights. */
-    void setW(const double *arrIn, int nIn);
-
-    /** Python hook to return ELM biases. */
-    void getB(double **arrOut, int *nOut);
-
-    /** Python hook to set ELM biases. */
-    void setB(const double *arrIn, int nIn);
-
-  protected:
-    /** Function used internally to create the basis function matrices. */
-    virtual void Hint(const int d, const double *x, const int nOut, double *dark) = 0;
-
-    /** This function is unecessary for ELM as it is all handled in Hint. Therefore, this is just an empty function that
-     * returns a warning. */
-    void RecurseDeriv(const int, int, const double *, const int, double *&, const int) {
-        fprintf(stderr,
-                "Warning, this function from ELM should never be called. It seems it has been called by accident. "
-                "Please check that this function was intended to be called.\n");
-        printf("Warning, this function from ELM should never be called. It seems it has been called by accident. "
-               "Please check that this function was intended to be called.\n");
-    };
-};
-
-// ELM sigmoid:
-// ********************************************************************************************************************************
-/** ELM that uses the sigmoid activation function. */
-class ELMSigmoid : public ELM {
-
-  public:
-    /** ELMSigmoid class constructor. Calls ELM class constructor. See ELM class for more details. */
-    ELMSigmoid(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : ELM(x0, xf, nCin, ncDim0, min) {};
-
-    /** ELMSigmoid class destructor.*/
-    ~ELMSigmoid() {};
-
-  protected:
-    /** Function used internally to create the basis function matrices and derivatives. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-};
-
-// ELM ReLU:
-// ********************************************************************************************************************************
-/** ELM that uses the recitified linear unit activation function. */
-class ELMReLU : public ELM {
-
-  public:
-    /** ELMReLU class constructor. Calls ELM class constructor. See ELM class for more details. */
-    ELMReLU(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : ELM(x0, xf, nCin, ncDim0, min) {};
-
-    /** ELMReLU class destructor.*/
-    ~ELMReLU() {};
-
-  protected:
-    /** Function used internally to create the basis function matrices and derivatives. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-};
-
-// ELM Tanh:
-// ********************************************************************************************************************************
-/** ELM that uses the tanh activation function. */
-class ELMTanh : public ELM {
-
-  public:
-    /** ELMTanh class constructor. Calls ELM class constructor. See ELM class for more details. */
-    ELMTanh(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : ELM(x0, xf, nCin, ncDim0, min) {};
-
-    /** ELMTanh class destructor.*/
-    ~ELMTanh() {};
-
-  private:
-    /** Function used internally to create the basis function matrices and derivatives. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-};
-
-// ELM Sin:
-// ********************************************************************************************************************************
-/** ELM that uses the sin activation function. */
-class ELMSin : public ELM {
-
-  public:
-    /** ELMSin class constructor. Calls ELM class constructor. See ELM class for more details. */
-    ELMSin(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : ELM(x0, xf, nCin, ncDim0, min) {};
-
-    /** ELMSin class destructor.*/
-    ~ELMSin() {};
-
-  private:
-    /** Function used internally to create the basis function matrices and derivatives. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-};
-
-// ELM Swish:
-// ********************************************************************************************************************************
-/** ELM that uses the swish activation function. */
-class ELMSwish : public ELM {
-
-  public:
-    /** ELMSwish class constructor. Calls ELM class constructor. See ELM class for more details. */
-    ELMSwish(double x0, double xf, const int *nCin, int ncDim0, int min)
-        : ELM(x0, xf, nCin, ncDim0, min) {};
-
-    /** ELMSwish class destructor.*/
-    ~ELMSwish() {};
-
-  private:
-    /** Function used internally to create the basis function matrices and derivatives. */
-    void Hint(const int d, const double *x, const int nOut, double *dark);
-};
-
-// n-D Basis function base class:
-// ***************************************************************************************************
-
-/** Base class for n-dimensional basis functions. This class inherits from BasisFunc, and contains
- *  methods that are used for all n-dimensional basis fuctions. This is an abstract class.
- *  Concrete n-dimensional basis functions will inherit from this class and one of the concrete
- *  1-dimensional basis function classes. */
-class nBasisFunc : virtual public BasisFunc {
-
-  public:
-    /** Beginning of the basis function domain. */
-    double z0;
-
-    /** Beginning of the basis function domain. */
-    double zf;
-
-    /** Multipliers for the linear domain map. */
-    double *c = nullptr;
-
-    /** Initial value of the domain */
-    double *x0;
-
-    /** Number of dimensions. */
-    int dim;
-
-    /** Number of basis functions in H matrix. */
-    int numBasisFunc;
-
-    /** Number of basis functions in full H matrix. */
-    int numBasisFuncFull;
-
-  public:
-    /** n-D basis function class constructor. */
-    nBasisFunc(const double *x0in,
-               int x0Dim0,
-               const double *xf,
-               int xfDim0,
-               const int *nCin,
-               int ncDim0,
-               int ncDim1,
-               int min,
-               double z0in = 0.,
-               double zfin = 0.);
-
-    /** n-D basis function class destructor. */
-    virtual ~nBasisFunc();
-
-    /** This function is used to create a basis function matrix and its derivatives. */
-    void
-    H(const double *x, int in, int xDim1, const int *d, int dDim0, int *nOut, int *mOut, double **F, const bool full);
-
-    /** This function is an XLA version of the basis function. */
-    void xla(void *out, void **in) override;
-
-    /** Python hook to return domain mapping constants. */
-    void getC(double **arrOut, int *nOut);
-
-  protected:
-    /** Dummy nBasisFunc constructor used by nELM only. */
-    nBasisFunc() {};
-
-  private:
-    /**
-     * Including override of BasisFunc so we don't have issues with hidden virtual overloads.
-     * However, this should never be called from nBasisFunc.
-     * If it is, it will throw an error.
-     */
-    void H(const double *x, int n, const int d, int *nOut, int *mOut, double **F, bool full) override;
-
-    /** Recursive function used to perform the tensor product of univarite basis functions to form multivariate basis
-     * functions. */
-    void RecurseBasis(int dimCurr,
-                      int *vec,
-                      int &count,
-                      const bool full,
-                      const int in,
-                      const int numBasis,
-                      const double *T,
-                      double *out);
-
-    /** Recursive function used to calculate the size of the multivariate basis function matrix. */
-    void NumBasisFunc(int dimCurr, int *vec, int &count, const bool full);
-
-    /** Internal function used to calculate dim sets of univariate basis functions with specified derivatives. Note,
-     * that if dDim0 < dim, then 0's will be used for the tail end.*/
-    virtual void nHint(const double *x, int in, const int *d, int dDim0, int numBasis, double *&F, const bool full);
-
-    /** Function used internally to create the basis function matrices. */
-    virtual void Hint(const int d, const double *x, const int nOut, double *dark) override = 0;
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    virtual void
-    RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) override = 0;
-};
-
-// n-D CP class:
-// ******************************************************************************************************************
-/** Class for n-dimensional Chebyshev orthogonal polynomials. */
-class nCP : public nBasisFunc, public CP {
-
-  public:
-    /** nCP class constructor. Calls nBasisFunc class constructor and dummy constructors of remaining parents. See
-     * nBasisFunc class for more details. */
-    nCP(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int ncDim1, int min)
-        : nBasisFunc(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, ncDim1, min, -1., 1.) {};
-
-    /** nCP class destructor.*/
-    ~nCP() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark) { CP::Hint(d, x, nOut, dark); };
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-        CP::RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    };
-};
-
-// n-D LeP class:
-// ******************************************************************************************************************
-/** Class for n-dimensional Legendre orthogonal polynomials. */
-class nLeP : public nBasisFunc, public LeP {
-
-  public:
-    /** nLeP class constructor. Calls nBasisFunc class constructor and dummy constructors of remaining parents. See
-     * nBasisFunc class for more details. */
-    nLeP(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int ncDim1, int min)
-        : nBasisFunc(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, ncDim1, min, -1., 1.) {};
-
-    /** nLeP class destructor.*/
-    ~nLeP() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark) { LeP::Hint(d, x, nOut, dark); };
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-        LeP::RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    };
-};
-
-// n-D FS class:
-// ******************************************************************************************************************
-/** Class for n-dimensional Fourier Series. */
-class nFS : public nBasisFunc, public FS {
-
-  public:
-    /** nFS class constructor. Calls nBasisFunc class constructor and dummy constructors of remaining parents. See
-     * nBasisFunc class for more details. */
-    nFS(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int ncDim1, int min)
-        : nBasisFunc(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, ncDim1, min, -M_PI, M_PI) {};
-
-    /** nFS class destructor.*/
-    ~nFS() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void Hint(const int d, const double *x, const int nOut, double *dark) { FS::Hint(d, x, nOut, dark); };
-
-    /** Function used internally to create derivatives of the basis function matrices. */
-    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
-        FS::RecurseDeriv(d, dCurr, x, nOut, F, mOut);
-    };
-};
-
-// n-D ELM base class:
-// *******************************************************************************************************************************************************
-/** n-D ELM base class. */
-class nELM : public nBasisFunc {
-
-  public:
-    /** Beginning of the basis function domain. */
-    double z0;
-
-    /** Beginning of the basis function domain. */
-    double zf;
-
-    /** nELM weights. */
-    double *w;
-
-    /** nELM biases. */
-    double *b;
-
-    /** n-D ELM class constructor. */
-    nELM(const double *x0in,
-         int x0Dim0,
-         const double *xf,
-         int xfDim0,
-         const int *nCin,
-         int ncDim0,
-         int min,
-         double z0in = 0.,
-         double zfin = 1.);
-
-    /** n-D ELM class destructor. */
-    virtual ~nELM();
-
-    /** Python hook to return nELM weights. */
-    void setW(const double *arrIn, int dimIn, int nIn);
-
-    /** Python hook to set nELM weights. */
-    void getW(int *dimOut, int *nOut, double **arrOut);
-
-    /** Python hook to return nELM biases. */
-    void getB(double **arrOut, int *nOut);
-
-    /** Python hook to set nELM biases. */
-    void setB(const double *arrIn, int nIn);
-
-  private:
-    /** Internal function used to calculate dim sets of univariate basis functions with specified derivatives. Note,
-     * that if dDim0 < dim, then 0's will be used for the tail end.*/
-    void nHint(const double *x, int in, const int *d, int dDim0, int numBasis, double *&F, const bool full) override;
-
-    /** This function handles creating a full matrix of nELM basis functions. */
-    virtual void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) = 0;
-
-    /** This function is unecessary for nELM as it is all handled in nElmHint. Therefore, this is just an empty function
-     * that returns a warning. */
-    void Hint(const int, const double *, const int, double *) override {
-        fprintf(stderr,
-                "Warning, this function from nELM should never be called. It seems it has been called by accident. "
-                "Please check that this function was intended to be called.\n");
-        printf("Warning, this function from nELM should never be called. It seems it has been called by accident. "
-               "Please check that this function was intended to be called.\n");
-    };
-
-    /** This function is unecessary for nELM as it is all handled in nElmHint. Therefore, this is just an empty function
-     * that returns a warning. */
-    void RecurseDeriv(const int, int, const double *, const int, double *&, const int) override {
-        fprintf(stderr,
-                "Warning, this function from nELM should never be called. It seems it has been called by accident. "
-                "Please check that this function was intended to be called.\n");
-        printf("Warning, this function from nELM should never be called. It seems it has been called by accident. "
-               "Please check that this function was intended to be called.\n");
-    };
-};
-
-// n-D ELM sigmoid class:
-// *******************************************************************************************************************************************************
-/** n-D ELM that uses the sigmoid activation function. */
-class nELMSigmoid : public nELM {
-
-  public:
-    /** nELMSigmoid class constructor. Calls nELM class constructor. See nELM class for more details. */
-    nELMSigmoid(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
-        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
-
-    /** nELMSigmoid class destructor.*/
-    ~nELMSigmoid() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
-};
-
-// n-D ELM Tanh class:
-// *******************************************************************************************************************************************************
-/** n-D ELM that uses the tanh activation function. */
-class nELMTanh : public nELM {
-
-  public:
-    /** nELMTanh class constructor. Calls nELM class constructor. See nELM class for more details. */
-    nELMTanh(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
-        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
-
-    /** nELMTanh class destructor.*/
-    ~nELMTanh() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
-};
-
-// n-D ELM Sin class:
-// *******************************************************************************************************************************************************
-/** n-D ELM that uses the sine activation function. */
-class nELMSin : public nELM {
-
-  public:
-    /** nELMSin class constructor. Calls nELM class constructor. See nELM class for more details. */
-    nELMSin(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
-        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
-
-    /** nELMSin class destructor.*/
-    ~nELMSin() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
-};
-
-// n-D ELM Swish class:
-// *******************************************************************************************************************************************************
-/** n-D ELM that uses the swish activation function. */
-class nELMSwish : public nELM {
-
-  public:
-    /** nELMSwish class constructor. Calls nELM class constructor. See nELM class for more details. */
-    nELMSwish(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
-        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
-
-    /** nELMSwish class destructor.*/
-    ~nELMSwish() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
-};
-
-// n-D ELM ReLU class:
-// *******************************************************************************************************************************************************
-/** n-D ELM that uses the rectified linear activation function. */
-class nELMReLU : public nELM {
-
-  public:
-    /** nELMReLU class constructor. Calls nELM class constructor. See nELM class for more details. */
-    nELMReLU(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
-        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
-
-    /** nELMReLU class destructor.*/
-    ~nELMReLU() {};
-
-  private:
-    /** Function used internally to create the basis function matrices. */
-    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
-};
-
-#endif
+#define _USE_MATH_DEFINES // Needed by Windows
+#include <Python.h>
+#include <float.h>
+#include <iostream>
+#include <math.h>
+#include <mutex>
+#include <new>
+#include <shared_mutex>
+#include <stdexcept>
+#include <vector>
+#ifdef HAS_CUDA
+#include <cuda.h>
+#include <cuda_runtime.h>
+#include <cuda_runtime_api.h>
+#endif
+
+#ifndef BF_H
+#define BF_H
+
+// BasisFunc
+// **************************************************************************************************************************
+/** This class is an abstract class used to create all other basis function classes. It defines standard methods to call
+ * the basis function and its derivatives, as well as provides wrappers for XLA computation. */
+class BasisFunc {
+
+  public:
+    /** Beginning of the basis function domain. */
+    double z0;
+
+    /** Start of the problem domain. */
+    double x0;
+
+    /** Multiplier in the linear domain map. */
+    double c;
+
+    /** Array that specifies which basis functions to remove. */
+    int *nC = nullptr;
+
+    /** Number of basis functions to be removed. */
+    int numC;
+
+    /** Number of basis functions to use. */
+    int m;
+
+    /** Unique identifier for this instance of BasisFunc. */
+    int identifier;
+
+    /** Guards values that Python can change, e.g., ELM weights, while XLA threads evaluate this instance. */
+    std::shared_mutex valueMutex;
+
+    /** PyObject that contains the XLA version of the basis function. */
+    PyObject *xlaCapsule;
+
+#ifdef HAS_CUDA
+    /** PyObject that contains the XLA version of the basis function that uses a CUDA GPU kernel. */
+    PyObject *xlaGpuCapsule;
+#else
+    const char *xlaGpuCapsule = "CUDA NOT FOUND, GPU NOT IMPLEMENTED.";
+#endif
+
+    /** Counter that increments each time a new instance of BasisFunc is created. */
+    static int nIdentifier;
+
+    /** Vector that contains pointers to all BasisFunc classes. */
+    static std::vector<BasisFunc *> BasisFuncContainer;
+
+    /** Guards BasisFuncContainer and nIdentifier: XLA threads look instances up without holding the GIL. */
+    static std::shared_mutex containerMutex;
+
+  public:
+    /** Basis function class constructor.
+     * 		- Stores variables based on user supplied givens
+     * 		- Stores a pointer to itself using static variables
+     * 		- Creates PyCapsule for xla function. */
+    BasisFunc(double x0in, double xf, const int *nCin, int ncDim0, int min, double z0in = 0., double zf = DBL_MAX);
+
+    /** Basis function class destructor. Removes memory used by the basis function class. */
+    virtual ~BasisFunc();
+
+    // Prevent copying
+    BasisFunc(const BasisFunc &) = delete;
+    BasisFunc &operator=(const BasisFunc &) = delete;
+
+    // Prevent moving
+    BasisFunc(BasisFunc &&) = delete;
+    BasisFunc &operator=(BasisFunc &&) = delete;
+
+    /** Function is used to create a basis function matrix and its derivatives. This matrix is is an m x N matrix where:
+     *  	- m is the number of basis functions
+     *  	- N = in is the number of points in x
+     *  	- d is used to specify the derivative
+     *  	- full is a bool that specifies:
+     *  		- If true, full matrix with no basis functions removed is returned
+     *  		- If false, matrix columns corresponding to the values in nC are removed
+     *  	- useVal is a bool that specifies:
+     *  		- If true, uses the x values given
+     *  		- If false, uses the z values from the class
+     *  Note that this function is used to hook into Python, thus the extra arguments. */
+    virtual void H(const double *x, int n, const int d, int *nOut, int *mOut, double **F, bool full);
+
+    /** This function is an XLA version of the basis function. */
+    virtual void xla(void *out, void **in);
+
+#ifdef HAS_CUDA
+    /** This function is an XLA version of the basis function that uses a CUDA GPU kernel. */
+    void xlaGpu(CUstream stream, void **buffers, const char *opaque, size_t opaque_len);
+#endif
+
+  protected:
+    /** Dummy empty constructor allows derived classes without calling constructor explicitly. */
+    BasisFunc() {};
+
+    /** Tracks this instance in BasisFuncContainer and sets its identifier. */
+    void Register();
+
+    /** This function creates a PyCapsule object that wraps the XLA verison of the basis function. */
+    PyObject *GetXlaCapsule();
+
+#ifdef HAS_CUDA
+    /** This function creates a PyCapsule object that wraps the XLA verison of the basis function that uses a CUDA GPU
+     * kernel. */
+    PyObject *GetXlaCapsuleGpu();
+#endif
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    virtual void Hint(const int d, const double *x, const int nOut, double *dark) = 0;
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    virtual void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) = 0;
+};
+
+// XLA related declarations:
+// **********************************************************************************************************
+/** Pointer for XLA-type function that can be cast to void* and put in a PyCapsule. */
+typedef void (*xlaFnType)(void *, void **);
+
+#ifdef HAS_CUDA
+/** Pointer for GPU compatible XLA-type function that can be cast to void* and put in a PyCapsule. */
+typedef void (*xlaGpuFnType)(CUstream, void **, const char *, size_t);
+
+/** Function used to wrap BasisFunc->xlaGpu in C-style function that can be cast to void*. */
+void xlaGpuWrapper(CUstream stream, void **buffers, const char *opaque, size_t opaque_len);
+#endif
+
+// CP:
+// ********************************************************************************************************************************
+/** Class for Chebyshev orthogonal polynomials. */
+class CP : virtual public BasisFunc {
+  public:
+    /** CP class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
+    CP(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : BasisFunc(x0, xf, nCin, ncDim0, min, -1., 1.) {};
+
+    /** CP class destructor.*/
+    virtual ~CP() {};
+
+    // Prevent copying
+    CP(const CP &) = delete;
+    CP &operator=(const CP &) = delete;
+
+    // Prevent moving
+    CP(CP &&) = delete;
+    CP &operator=(CP &&) = delete;
+
+  protected:
+    /** Dummy CP class constructor. Used only in n-dimensions. */
+    CP() {};
+
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
+};
+
+// LeP:
+// ********************************************************************************************************************************
+/** Class for Legendre orthogonal polynomials. */
+class LeP : virtual public BasisFunc {
+  public:
+    /** LeP class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
+    LeP(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : BasisFunc(x0, xf, nCin, ncDim0, min, -1., 1.) {};
+
+    /** Dummy LeP class constructor. Used only in n-dimensions. */
+    LeP() {};
+
+    /** LeP class destructor.*/
+    ~LeP() {};
+
+  protected:
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
+};
+
+// LaP:
+// ********************************************************************************************************************************
+/** Class for Laguerre orthogonal polynomials. */
+class LaP : public BasisFunc {
+  public:
+    /** LaP class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
+    LaP(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : BasisFunc(x0, xf, nCin, ncDim0, min) {};
+    /** LaP class destructor.*/
+    ~LaP() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
+};
+
+// HoPpro:
+// ********************************************************************************************************************************
+/** Class for Hermite probablist orthogonal polynomials. */
+class HoPpro : public BasisFunc {
+  public:
+    /** HoPpro class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
+    HoPpro(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : BasisFunc(x0, xf, nCin, ncDim0, min) {};
+    /** HoPpro class destructor.*/
+    ~HoPpro() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
+};
+
+// HoPphy:
+// ********************************************************************************************************************************
+/** Class for Hermite physicist orthogonal polynomials. */
+class HoPphy : public BasisFunc {
+  public:
+    /** HoPphy class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
+    HoPphy(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : BasisFunc(x0, xf, nCin, ncDim0, min) {};
+    /** HoPphy class destructor.*/
+    ~HoPphy() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut);
+};
+
+// FS:
+// ********************************************************************************************************************************
+/** Class for Fourier Series basis. */
+class FS : virtual public BasisFunc {
+  public:
+    /** FS class constructor. Calls BasisFunc class constructor. See BasisFunc class for more details. */
+    FS(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : BasisFunc(x0, xf, nCin, ncDim0, min, -M_PI, M_PI) {};
+
+    /** Dummy FS class constructor. Used only in n-dimensions. */
+    FS() {};
+
+    /** FS class destructor.*/
+    ~FS() {};
+
+  protected:
+    /** Function used internally to create the basis function matrices and derivatives. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+
+    /** This function is unecessary for FS as it is all handled in Hint. Therefore, this is just an empty function that
+     * returns a warning. */
+    void RecurseDeriv(const int, int, const double *, const int, double *&, const int) {
+        fprintf(stderr,
+                "Warning, this function from FS should never be called. It seems it has been called by accident. "
+                "Please check that this function was intended to be called.\n");
+        printf("Warning, this function from FS should never be called. It seems it has been called by accident. Please "
+               "check that this function was intended to be called.\n");
+    };
+};
+
+// ELM base class:
+// ********************************************************************************************************************************
+/** ELM base class. */
+class ELM : public BasisFunc {
+  public:
+    /** ELM weights. */
+    double *w;
+
+    /** ELM biases. */
+    double *b;
+
+    /** ELM class constructor. Calls BasisFunc class constructor and sets up weights and biases for the ELM. See
+     * BasisFunc class for more details. */
+    ELM(double x0, double xf, const int *nCin, int ncDim0, int min);
+
+    /** ELM class destructor.*/
+    virtual ~ELM();
+
+    /** Python hook to return ELM weights. */
+    void getW(double **arrOut, int *nOut);
+
+    /** Python hook to set ELM weights. */
+    void setW(const double *arrIn, int nIn);
+
+    /** Python hook to return ELM biases. */
+    void getB(double **arrOut, int *nOut);
+
+    /** Python hook to set ELM biases. */
+    void setB(const double *arrIn, int nIn);
+
+  protected:
+    /** Function used internally to create the basis function matrices. */
+    virtual void Hint(const int d, const double *x, const int nOut, double *dark) = 0;
+
+    /** This function is unecessary for ELM as it is all handled in Hint. Therefore, this is just an empty function that
+     * returns a warning. */
+    void RecurseDeriv(const int, int, const double *, const int, double *&, const int) {
+        fprintf(stderr,
+                "Warning, this function from ELM should never be called. It seems it has been called by accident. "
+                "Please check that this function was intended to be called.\n");
+        printf("Warning, this function from ELM should never be called. It seems it has been called by accident. "
+               "Please check that this function was intended to be called.\n");
+    };
+};
+
+// ELM sigmoid:
+// ********************************************************************************************************************************
+/** ELM that uses the sigmoid activation function. */
+class ELMSigmoid : public ELM {
+
+  public:
+    /** ELMSigmoid class constructor. Calls ELM class constructor. See ELM class for more details. */
+    ELMSigmoid(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : ELM(x0, xf, nCin, ncDim0, min) {};
+
+    /** ELMSigmoid class destructor.*/
+    ~ELMSigmoid() {};
+
+  protected:
+    /** Function used internally to create the basis function matrices and derivatives. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+};
+
+// ELM ReLU:
+// ********************************************************************************************************************************
+/** ELM that uses the recitified linear unit activation function. */
+class ELMReLU : public ELM {
+
+  public:
+    /** ELMReLU class constructor. Calls ELM class constructor. See ELM class for more details. */
+    ELMReLU(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : ELM(x0, xf, nCin, ncDim0, min) {};
+
+    /** ELMReLU class destructor.*/
+    ~ELMReLU() {};
+
+  protected:
+    /** Function used internally to create the basis function matrices and derivatives. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+};
+
+// ELM Tanh:
+// ********************************************************************************************************************************
+/** ELM that uses the tanh activation function. */
+class ELMTanh : public ELM {
+
+  public:
+    /** ELMTanh class constructor. Calls ELM class constructor. See ELM class for more details. */
+    ELMTanh(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : ELM(x0, xf, nCin, ncDim0, min) {};
+
+    /** ELMTanh class destructor.*/
+    ~ELMTanh() {};
+
+  private:
+    /** Function used internally to create the basis function matrices and derivatives. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+};
+
+// ELM Sin:
+// ********************************************************************************************************************************
+/** ELM that uses the sin activation function. */
+class ELMSin : public ELM {
+
+  public:
+    /** ELMSin class constructor. Calls ELM class constructor. See ELM class for more details. */
+    ELMSin(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : ELM(x0, xf, nCin, ncDim0, min) {};
+
+    /** ELMSin class destructor.*/
+    ~ELMSin() {};
+
+  private:
+    /** Function used internally to create the basis function matrices and derivatives. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+};
+
+// ELM Swish:
+// ********************************************************************************************************************************
+/** ELM that uses the swish activation function. */
+class ELMSwish : public ELM {
+
+  public:
+    /** ELMSwish class constructor. Calls ELM class constructor. See ELM class for more details. */
+    ELMSwish(double x0, double xf, const int *nCin, int ncDim0, int min)
+        : ELM(x0, xf, nCin, ncDim0, min) {};
+
+    /** ELMSwish class destructor.*/
+    ~ELMSwish() {};
+
+  private:
+    /** Function used internally to create the basis function matrices and derivatives. */
+    void Hint(const int d, const double *x, const int nOut, double *dark);
+};
+
+// n-D Basis function base class:
+// ***************************************************************************************************
+
+/** Base class for n-dimensional basis functions. This class inherits from BasisFunc, and contains
+ *  methods that are used for all n-dimensional basis fuctions. This is an abstract class.
+ *  Concrete n-dimensional basis functions will inherit from this class and one of the concrete
+ *  1-dimensional basis function classes. */
+class nBasisFunc : virtual public BasisFunc {
+
+  public:
+    /** Beginning of the basis function domain. */
+    double z0;
+
+    /** Beginning of the basis function domain. */
+    double zf;
+
+    /** Multipliers for the linear domain map. */
+    double *c = nullptr;
+
+    /** Initial value of the domain */
+    double *x0;
+
+    /** Number of dimensions. */
+    int dim;
+
+    /** Number of basis functions in H matrix. */
+    int numBasisFunc;
+
+    /** Number of basis functions in full H matrix. */
+    int numBasisFuncFull;
+
+  public:
+    /** n-D basis function class constructor. */
+    nBasisFunc(const double *x0in,
+               int x0Dim0,
+               const double *xf,
+               int xfDim0,
+               const int *nCin,
+               int ncDim0,
+               int ncDim1,
+               int min,
+               double z0in = 0.,
+               double zfin = 0.);
+
+    /** n-D basis function class destructor. */
+    virtual ~nBasisFunc();
+
+    /** This function is used to create a basis function matrix and its derivatives. */
+    void
+    H(const double *x, int in, int xDim1, const int *d, int dDim0, int *nOut, int *mOut, double **F, const bool full);
+
+    /** This function is an XLA version of the basis function. */
+    void xla(void *out, void **in) override;
+
+    /** Python hook to return domain mapping constants. */
+    void getC(double **arrOut, int *nOut);
+
+  protected:
+    /** Dummy nBasisFunc constructor used by nELM only. */
+    nBasisFunc() {};
+
+  private:
+    /**
+     * Including override of BasisFunc so we don't have issues with hidden virtual overloads.
+     * However, this should never be called from nBasisFunc.
+     * If it is, it will throw an error.
+     */
+    void H(const double *x, int n, const int d, int *nOut, int *mOut, double **F, bool full) override;
+
+    /** Recursive function used to perform the tensor product of univarite basis functions to form multivariate basis
+     * functions. */
+    void RecurseBasis(int dimCurr,
+                      int *vec,
+                      int &count,
+                      const bool full,
+                      const int in,
+                      const int numBasis,
+                      const double *T,
+                      double *out);
+
+    /** Recursive function used to calculate the size of the multivariate basis function matrix. */
+    void NumBasisFunc(int dimCurr, int *vec, int &count, const bool full);
+
+    /** Internal function used to calculate dim sets of univariate basis functions with specified derivatives. Note,
+     * that if dDim0 < dim, then 0's will be used for the tail end.*/
+    virtual void nHint(const double *x, int in, const int *d, int dDim0, int numBasis, double *&F, const bool full);
+
+    /** Function used internally to create the basis function matrices. */
+    virtual void Hint(const int d, const double *x, const int nOut, double *dark) override = 0;
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    virtual void
+    RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) override = 0;
+};
+
+// n-D CP class:
+// ******************************************************************************************************************
+/** Class for n-dimensional Chebyshev orthogonal polynomials. */
+class nCP : public nBasisFunc, public CP {
+
+  public:
+    /** nCP class constructor. Calls nBasisFunc class constructor and dummy constructors of remaining parents. See
+     * nBasisFunc class for more details. */
+    nCP(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int ncDim1, int min)
+        : nBasisFunc(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, ncDim1, min, -1., 1.) {};
+
+    /** nCP class destructor.*/
+    ~nCP() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark) { CP::Hint(d, x, nOut, dark); };
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+        CP::RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    };
+};
+
+// n-D LeP class:
+// ******************************************************************************************************************
+/** Class for n-dimensional Legendre orthogonal polynomials. */
+class nLeP : public nBasisFunc, public LeP {
+
+  public:
+    /** nLeP class constructor. Calls nBasisFunc class constructor and dummy constructors of remaining parents. See
+     * nBasisFunc class for more details. */
+    nLeP(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int ncDim1, int min)
+        : nBasisFunc(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, ncDim1, min, -1., 1.) {};
+
+    /** nLeP class destructor.*/
+    ~nLeP() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark) { LeP::Hint(d, x, nOut, dark); };
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+        LeP::RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    };
+};
+
+// n-D FS class:
+// ******************************************************************************************************************
+/** Class for n-dimensional Fourier Series. */
+class nFS : public nBasisFunc, public FS {
+
+  public:
+    /** nFS class constructor. Calls nBasisFunc class constructor and dummy constructors of remaining parents. See
+     * nBasisFunc class for more details. */
+    nFS(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int ncDim1, int min)
+        : nBasisFunc(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, ncDim1, min, -M_PI, M_PI) {};
+
+    /** nFS class destructor.*/
+    ~nFS() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void Hint(const int d, const double *x, const int nOut, double *dark) { FS::Hint(d, x, nOut, dark); };
+
+    /** Function used internally to create derivatives of the basis function matrices. */
+    void RecurseDeriv(const int d, int dCurr, const double *x, const int nOut, double *&F, const int mOut) {
+        FS::RecurseDeriv(d, dCurr, x, nOut, F, mOut);
+    };
+};
+
+// n-D ELM base class:
+// *******************************************************************************************************************************************************
+/** n-D ELM base class. */
+class nELM : public nBasisFunc {
+
+  public:
+    /** Beginning of the basis function domain. */
+    double z0;
+
+    /** Beginning of the basis function domain. */
+    double zf;
+
+    /** nELM weights. */
+    double *w;
+
+    /** nELM biases. */
+    double *b;
+
+    /** n-D ELM class constructor. */
+    nELM(const double *x0in,
+         int x0Dim0,
+         const double *xf,
+         int xfDim0,
+         const int *nCin,
+         int ncDim0,
+         int min,
+         double z0in = 0.,
+         double zfin = 1.);
+
+    /** n-D ELM class destructor. */
+    virtual ~nELM();
+
+    /** Python hook to return nELM weights. */
+    void setW(const double *arrIn, int dimIn, int nIn);
+
+    /** Python hook to set nELM weights. */
+    void getW(int *dimOut, int *nOut, double **arrOut);
+
+    /** Python hook to return nELM biases. */
+    void getB(double **arrOut, int *nOut);
+
+    /** Python hook to set nELM biases. */
+    void setB(const double *arrIn, int nIn);
+
+  private:
+    /** Internal function used to calculate dim sets of univariate basis functions with specified derivatives. Note,
+     * that if dDim0 < dim, then 0's will be used for the tail end.*/
+    void nHint(const double *x, int in, const int *d, int dDim0, int numBasis, double *&F, const bool full) override;
+
+    /** This function handles creating a full matrix of nELM basis functions. */
+    virtual void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) = 0;
+
+    /** This function is unecessary for nELM as it is all handled in nElmHint. Therefore, this is just an empty function
+     * that returns a warning. */
+    void Hint(const int, const double *, const int, double *) override {
+        fprintf(stderr,
+                "Warning, this function from nELM should never be called. It seems it has been called by accident. "
+                "Please check that this function was intended to be called.\n");
+        printf("Warning, this function from nELM should never be called. It seems it has been called by accident. "
+               "Please check that this function was intended to be called.\n");
+    };
+
+    /** This function is unecessary for nELM as it is all handled in nElmHint. Therefore, this is just an empty function
+     * that returns a warning. */
+    void RecurseDeriv(const int, int, const double *, const int, double *&, const int) override {
+        fprintf(stderr,
+                "Warning, this function from nELM should never be called. It seems it has been called by accident. "
+                "Please check that this function was intended to be called.\n");
+        printf("Warning, this function from nELM should never be called. It seems it has been called by accident. "
+               "Please check that this function was intended to be called.\n");
+    };
+};
+
+// n-D ELM sigmoid class:
+// *******************************************************************************************************************************************************
+/** n-D ELM that uses the sigmoid activation function. */
+class nELMSigmoid : public nELM {
+
+  public:
+    /** nELMSigmoid class constructor. Calls nELM class constructor. See nELM class for more details. */
+    nELMSigmoid(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
+        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
+
+    /** nELMSigmoid class destructor.*/
+    ~nELMSigmoid() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
+};
+
+// n-D ELM Tanh class:
+// *******************************************************************************************************************************************************
+/** n-D ELM that uses the tanh activation function. */
+class nELMTanh : public nELM {
+
+  public:
+    /** nELMTanh class constructor. Calls nELM class constructor. See nELM class for more details. */
+    nELMTanh(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
+        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
+
+    /** nELMTanh class destructor.*/
+    ~nELMTanh() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
+};
+
+// n-D ELM Sin class:
+// *******************************************************************************************************************************************************
+/** n-D ELM that uses the sine activation function. */
+class nELMSin : public nELM {
+
+  public:
+    /** nELMSin class constructor. Calls nELM class constructor. See nELM class for more details. */
+    nELMSin(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
+        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
+
+    /** nELMSin class destructor.*/
+    ~nELMSin() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
+};
+
+// n-D ELM Swish class:
+// *******************************************************************************************************************************************************
+/** n-D ELM that uses the swish activation function. */
+class nELMSwish : public nELM {
+
+  public:
+    /** nELMSwish class constructor. Calls nELM class constructor. See nELM class for more details. */
+    nELMSwish(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
+        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
+
+    /** nELMSwish class destructor.*/
+    ~nELMSwish() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
+};
+
+// n-D ELM ReLU class:
+// *******************************************************************************************************************************************************
+/** n-D ELM that uses the rectified linear activation function. */
+class nELMReLU : public nELM {
+
+  public:
+    /** nELMReLU class constructor. Calls nELM class constructor. See nELM class for more details. */
+    nELMReLU(const double *x0in, int x0Dim0, const double *xf, int xfDim0, const int *nCin, int ncDim0, int min)
+        : nELM(x0in, x0Dim0, xf, xfDim0, nCin, ncDim0, min) {};
+
+    /** nELMReLU class destructor.*/
+    ~nELMReLU() {};
+
+  private:
+    /** Function used internally to create the basis function matrices. */
+    void nElmHint(const int *d, int dDim0, const double *x, const int in, double *F) override;
+};
+
+#endif
-- 
2.43.0


From ebffd2f6a23c2e53b9aa7a214a5ea19e30a35edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:58 +0000
Subject: [PATCH 32/48] fix: automatic derivatives of basis evaluations failed
 for zero, traced or scalar tangents

---
 src/tfc/mtfc.py | 13 +++++--------
 src/tfc/utfc.py | 18 +++++++-----------
 2 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 910dbe3..83263de 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -615,15 +615,12 @@ class mtfc:
         def H_jvp(arg_vals, arg_tans, d: tuple[int, ...] = d0, full: bool = False):
             n = len(arg_vals)
             flat = len(arg_vals[0].shape) == 1
-            dim0 = arg_vals[0].shape[0]
-            if full:
-                dim1 = self.basisClass.numBasisFuncFull
-            else:
-                dim1 = self.basisClass.numBasisFunc
-            out_tans = np.zeros((dim0, dim1))
+            out = Hjax(*arg_vals, d=d, full=full)
+            out_tans = np.zeros_like(out)
             for k in range(n):
                 if not (type(arg_tans[k]) is ad.Zero):
-                    flag = onp.any(arg_tans[k] != 0)
+                    # The value of a tangent that is being traced is not known yet, so it may be nonzero
+                    flag = isinstance(arg_tans[k], core.Tracer) or onp.any(arg_tans[k] != 0)
                     if flag:
                         dark = tuple(d[j] + 1 if k == j else d[j] for j in range(len(d)))
                         if flat:
@@ -632,7 +629,7 @@ class mtfc:
                             )
                         else:
                             out_tans += Hjax(*arg_vals, d=dark, full=full) * arg_tans[k]
-            return (Hjax(*arg_vals, d=d, full=full), out_tans)
+            return (out, out_tans)
 
         ad.primitive_jvps[H_p] = H_jvp
 
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index b00afda..80135d2 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -361,21 +361,17 @@ class utfc:
         def H_jvp(arg_vals, arg_tans, d: uint = 0, full: bool = False):
             x = arg_vals[0]
             dx = arg_tans[0]
-            if not (dx is ad.Zero):
-                flag = onp.any(dx != 0)
+            out = Hjax(x, d=d, full=full)
+            out_tans = np.zeros_like(out)
+            if not (type(dx) is ad.Zero):
+                # The value of a tangent that is being traced is not known yet, so it may be nonzero
+                flag = isinstance(dx, core.Tracer) or onp.any(dx != 0)
                 if flag:
                     if len(dx.shape) == 1:
-                        out_tans = Hjax(x, d=d + 1, full=full) * onp.expand_dims(dx, 1)
+                        out_tans = Hjax(x, d=d + 1, full=full) * np.expand_dims(dx, 1)
                     else:
                         out_tans = Hjax(x, d=d + 1, full=full) * dx
-            else:
-                dim0 = x.shape[0]
-                if full:
-                    dim1 = self.basisClass.m
-                else:
-                    dim1 = self.basisClass.m - self.basisClass.numC
-                out_tans = np.zeros((dim0, dim1))
-            return (Hjax(x, d=d, full=full), out_tans)
+            return (out, out_tans)
 
         ad.primitive_jvps[H_p] = H_jvp
 
-- 
2.43.0


From 5c648af33f191b4d77a1ff8d04b0c99961673d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:58 +0000
Subject: [PATCH 33/48] fix: Fourier series of the Python backend dropped the
 imaginary part of complex points

---
 src/tfc/utils/BF_Py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index d7fd341..5ea29ab 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -547,7 +547,7 @@ class FS(BasisFunc):
             Basis function values.
         """
         N = np.size(z)
-        F = np.zeros((N, self._m))
+        F = np.zeros((N, self._m), dtype=z.dtype)
         if d == 0:
             F[:, 0] = 1.0
             for k in range(1, self._m):
-- 
2.43.0


From 8cb4b29fca0424a82859a04fcc8aaa7a46f02e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:58 +0000
Subject: [PATCH 34/48] fix: checkpoints failed in nested folders or when
 somebody else made the folder first

---
 src/tfc/utils/TFCUtils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index abc61e7..23e1b32 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1809,8 +1809,7 @@ def criuCheckpoint(dir: str = "criu_checkpoint", user_mode: bool = False):
     pid = os.getpid()
 
     # Create path if it does not exist
-    if not os.path.exists(path):
-        os.mkdir(path)
+    os.makedirs(path, exist_ok=True)
 
     # Run the command and print how to restart
     if user_mode:
-- 
2.43.0


From 2154719e34faecb0a8e192c74ed3ae5a0527c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:58 +0000
Subject: [PATCH 35/48] fix: the user mode of checkpoints passed an option that
 does not exist

---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 23e1b32..a510f82 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1814,7 +1814,7 @@ def criuCheckpoint(dir: str = "criu_checkpoint", user_mode: bool = False):
     # Run the command and print how to restart
     if user_mode:
         os.system(
-            f"(criu dump --unpriviledged -t {pid} -D {str(path.absolute())} --shell-job --leave-running &) &"
+            f"(criu dump --unprivileged -t {pid} -D {str(path.absolute())} --shell-job --leave-running &) &"
         )
         print(
             f"Creating a checkpoint. To restart run: sudo criu restore -D {str(path.absolute())} --shell-job"
-- 
2.43.0


From 5f1130606abf25c96d8614a0ec6d4dc9065a6813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:58 +0000
Subject: [PATCH 36/48] fix: checkpoint folders whose names hold blanks or
 shell characters were dumped elsewhere or executed

---
 src/tfc/utils/TFCUtils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index a510f82..bac2f05 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1803,10 +1803,12 @@ def criuCheckpoint(dir: str = "criu_checkpoint", user_mode: bool = False):
     """
 
     import os
+    import shlex
     from pathlib import Path
 
     path = Path(dir)
     pid = os.getpid()
+    quotedPath = shlex.quote(str(path.absolute()))
 
     # Create path if it does not exist
     os.makedirs(path, exist_ok=True)
@@ -1814,15 +1816,15 @@ def criuCheckpoint(dir: str = "criu_checkpoint", user_mode: bool = False):
     # Run the command and print how to restart
     if user_mode:
         os.system(
-            f"(criu dump --unprivileged -t {pid} -D {str(path.absolute())} --shell-job --leave-running &) &"
+            f"(criu dump --unprivileged -t {pid} -D {quotedPath} --shell-job --leave-running &) &"
         )
         print(
-            f"Creating a checkpoint. To restart run: sudo criu restore -D {str(path.absolute())} --shell-job"
+            f"Creating a checkpoint. To restart run: sudo criu restore -D {quotedPath} --shell-job"
         )
     else:
         os.system(
-            f"(sudo criu dump -t {pid} -D {str(path.absolute())} --shell-job --leave-running &) &"
+            f"(sudo criu dump -t {pid} -D {quotedPath} --shell-job --leave-running &) &"
         )
         print(
-            f"Creating a checkpoint. To restart run: sudo criu restore -D {str(path.absolute())} --shell-job"
+            f"Creating a checkpoint. To restart run: sudo criu restore -D {quotedPath} --shell-job"
         )
-- 
2.43.0


From 7a31a165243e9f70b27a7e7de4b0086c2b134244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:07 +0000
Subject: [PATCH 37/48] fix: pe keeps outputs that depend only on the constant
 arguments

---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index bac2f05..dbe67b7 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -276,7 +276,7 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
             wrap = lu.wrap_init(f, debug_info=debug_info(f.__name__, f, [], {}))
             _, in_tree = tree_flatten((dark, {}))
             wrap_flat, out_tree = flatten_fun(wrap, in_tree)
-            jaxpr, _, const = trace_to_jaxpr_nounits(wrap_flat, part_args)
+            jaxpr, _, const = trace_to_jaxpr_nounits(wrap_flat, part_args, instantiate=True)
 
             # Create new, partially evaluated function
             if out_tree().num_leaves == 1 and out_tree().num_nodes == 1:
-- 
2.43.0


From 15c0109108aae93466c2e8a1132569b595b335a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:07 +0000
Subject: [PATCH 38/48] fix: pe accepts containers as constant arguments

---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index dbe67b7..2fa26d7 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -261,7 +261,7 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
                         )
                     )[0]
                 else:
-                    return PartialVal.known(a)
+                    return [PartialVal.known(x) for x in tree_flatten(a)[0]]
 
             part_args = []
             for k, a in enumerate(dark):
-- 
2.43.0


From c86a77839a19ca3f71c02b292d0c5cc04bd217ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:07 +0000
Subject: [PATCH 39/48] fix: pe keeps the dtype of integer arguments that are
 not constant

---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 2fa26d7..f148061 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -256,7 +256,7 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
                 if unknown:
                     return tree_flatten(
                         (
-                            tree_map(lambda x: PartialVal.unknown(typeof(x).at_least_vspace()), a),
+                            tree_map(lambda x: PartialVal.unknown(typeof(x)), a),
                             {},
                         )
                     )[0]
-- 
2.43.0


From bcd93c84bab982c94b333fca70eb568394a04c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:44 +0000
Subject: [PATCH 40/48] fix: compiled evaluations of single precision or
 integer points corrupted memory

---
 src/tfc/mtfc.py | 8 +++++++-
 src/tfc/utfc.py | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 83263de..bce0911 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -16,7 +16,7 @@ from .utils.tfc_types import (
     IntArrayLike,
     Array,
 )
-from jax import core
+from jax import core, lax
 from jax.extend.core import Primitive
 from jax.interpreters import ad, batching, mlir
 from jax.ffi import register_ffi_target
@@ -540,6 +540,12 @@ class mtfc:
         H_p = Primitive("H")
 
         def Hjax(*x: JaxOrNumpyArray, d: tuple[int, ...] = d0, full: bool = False):
+            if self._backend == "C++":
+                # The C++ code reads and writes doubles
+                x = tuple(
+                    k if np.result_type(k) == np.float64 else lax.convert_element_type(k, np.float64)
+                    for k in x
+                )
             return cast(npt.NDArray, H_p.bind(*x, d=d, full=full))
 
         # Implicit translations
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index 80135d2..926c43c 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -7,7 +7,7 @@ import jax.numpy as np
 import numpy.typing as npt
 from typing import Optional, cast
 from .utils.tfc_types import Literal, uint, IntArrayLike, JaxOrNumpyArray
-from jax import core
+from jax import core, lax
 from jax.extend.core import Primitive
 from jax.interpreters import ad, batching, mlir
 from jax.ffi import register_ffi_target
@@ -292,6 +292,9 @@ class utfc:
         H_p = Primitive("H")
 
         def Hjax(x: JaxOrNumpyArray, d: uint = 0, full: bool = False) -> npt.NDArray:
+            if self._backend == "C++" and np.result_type(x) != np.float64:
+                # The C++ code reads and writes doubles
+                x = lax.convert_element_type(x, np.float64)
             return cast(npt.NDArray, H_p.bind(x, d=d, full=full))
 
         # Implicit translation
-- 
2.43.0


From 72efda339b1615cfb739f6da2ab158f7bbd7d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:58 +0000
Subject: [PATCH 41/48] fix: vmap of basis evaluations over vectors of points
 or with unmapped inputs gave wrong results

---
 src/tfc/mtfc.py | 9 ++++++++-
 src/tfc/utfc.py | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index bce0911..57f4b7e 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -613,7 +613,14 @@ class mtfc:
 
         # Batching translation
         def H_batch(vec, batch, d: tuple[int, ...] = d0, full: bool = False):
-            return Hjax(*vec, d=d, full=full), batch[0]
+            # Evaluate all points of the batch at once. Inputs that are not batched are the same for each element.
+            size = next(x.shape[b] for x, b in zip(vec, batch) if b is not None)
+            x = [
+                np.broadcast_to(x, (size,) + x.shape) if b is None else np.moveaxis(x, b, 0)
+                for x, b in zip(vec, batch)
+            ]
+            out = Hjax(*[k.reshape(-1) for k in x], d=d, full=full)
+            return out.reshape(x[0].shape + out.shape[1:]), 0
 
         batching.primitive_batchers[H_p] = H_batch
 
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index 926c43c..ce151dd 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -356,7 +356,10 @@ class utfc:
 
         # Define batching translation
         def H_batch(vec, batch, d: uint = 0, full: bool = False):
-            return Hjax(*vec, d=d, full=full), batch[0]
+            # Evaluate all points of the batch at once
+            x = np.moveaxis(vec[0], batch[0], 0)
+            out = Hjax(x.reshape(-1), d=d, full=full)
+            return out.reshape(x.shape + out.shape[1:]), 0
 
         batching.primitive_batchers[H_p] = H_batch
 
-- 
2.43.0


From 35e28c9e7cefc7b1145b0bc49af1d14cfd1a93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:48 +0000
Subject: [PATCH 42/48] fix: mtfc took a list with a single basis function to
 remove for a number of functions

---
 src/tfc/mtfc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 57f4b7e..9719930 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -244,7 +244,7 @@ class mtfc:
                         nCk = np.array(cast(IntListOrArray, nC)[k]).flatten()
                     else:
                         nCk = np.array([cast(IntListOrArray, nC)[k]]).flatten()
-                    if nCk.shape[0] == 1:
+                    if onp.ndim(cast(IntListOrArray, nC)[k]) == 0:
                         maxk = nCk[0]
                     else:
                         maxk = nCk.shape[0]
@@ -263,7 +263,7 @@ class mtfc:
                     else:
                         nCk = onp.array([cast(IntListOrArray, nC)[k]]).flatten()
                     j = nCk.shape[0]
-                    if j == 1:
+                    if onp.ndim(cast(IntListOrArray, nC)[k]) == 0:
                         nCk = onp.arange(nCk[0])
                         j = nCk.shape[0]
                     if j < nCmax:
-- 
2.43.0


From 41633a769595d1684ce7929785b14e25bc9d5b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:48 +0000
Subject: [PATCH 43/48] fix: numpy arrays and tuples of basis functions to
 remove raised AttributeError

---
 src/tfc/mtfc.py | 2 +-
 src/tfc/utfc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 9719930..14ef08d 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -203,7 +203,7 @@ class mtfc:
                 self.nC = onp.arange(nC, dtype=onp.int32)
             elif isinstance(nC, np.ndarray):
                 self.nC = cast(onp.ndarray, nC.astype(onp.int32))
-            elif isinstance(nC, list):
+            else:
                 self.nC = onp.array(nC, dtype=np.int32)
             if self.nC.shape[0] > self.deg:
                 TFCPrint.Error("Number of basis functions is less than number of constraints!")
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index ce151dd..eef63f8 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -99,7 +99,7 @@ class utfc:
             self.nC: npt.NDArray = onp.arange(nC, dtype=onp.int32)
         elif isinstance(nC, np.ndarray):
             self.nC: npt.NDArray = cast(npt.NDArray, nC.astype(onp.int32))
-        elif isinstance(nC, list):
+        else:
             self.nC: npt.NDArray = np.array(nC, dtype=np.int32)
         if self.nC.shape[0] > self.deg:
             TFCPrint.Error("Number of basis functions is less than number of constraints!")
-- 
2.43.0


From f466ce789e4f21d96041a504f63e19e7cea2f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:16 +0000
Subject: [PATCH 44/48] fix: removing a basis function twice or one that does
 not exist made evaluations write past their buffers

---
 src/tfc/mtfc.py | 4 ++++
 src/tfc/utfc.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 14ef08d..6eba084 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -211,6 +211,10 @@ class mtfc:
                 TFCPrint.Error(
                     "To set nC to -1 (no constraints) either use nC = -1 or nC = 0 (i.e., use an integer not a list or array). Do not put only -1 in a list or array, this will cause issues in the C++ layer."
                 )
+            if np.any(self.nC > self.deg) or len(set(self.nC.tolist())) < self.nC.shape[0]:
+                TFCPrint.Error(
+                    "The basis functions to remove must be different from each other, and none can be greater than the degree."
+                )
         else:
             if isinstance(nC, int):
                 TFCPrint.Error(
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index eef63f8..328127f 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -107,6 +107,10 @@ class utfc:
             TFCPrint.Error(
                 "To set nC to -1 (no constraints) either use nC = -1 or nC = 0 (i.e., use an integer not a list or array). Do not put only -1 in a list or array, this will cause issues in the C++ layer."
             )
+        if np.any(self.nC > self.deg) or len(set(self.nC.tolist())) < self.nC.shape[0]:
+            TFCPrint.Error(
+                "The basis functions to remove must be different from each other, and none can be greater than the degree."
+            )
 
         self.basis = basis
 
-- 
2.43.0


From 32af927f5ffd0d7056c78de6f0532d78e7df8867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:45 +0000
Subject: [PATCH 45/48] fix: read strided arrays in the C++ basis constructors

The constructors took nC, x0 and xf as arrays of any memory layout but read
their data as if it were contiguous, so a strided or Fortran-ordered array
removed the wrong basis functions or set the wrong domain.
---
 src/tfc/utils/BF_Py.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tfc/utils/BF_Py.cc b/src/tfc/utils/BF_Py.cc
index 54730f0..954eb3f 100644
--- a/src/tfc/utils/BF_Py.cc
+++ b/src/tfc/utils/BF_Py.cc
@@ -6,7 +6,7 @@
 namespace py = pybind11;
 
 template <typename T> void add1DInit(auto &c) {
-    c.def(py::init([](double x0, double xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](double x0, double xf, py::array_t<int, py::array::c_style | py::array::forcecast> nC, int min) {
               if (nC.ndim() != 1) {
                   throw py::value_error("The \"nC\" input array must be 1-dimensional.");
               }
@@ -28,7 +28,10 @@ template <typename T> void add1DInit(auto &c) {
 }
 
 template <typename T> void addNdInit(auto &c) {
-    c.def(py::init([](py::array_t<double> x0, py::array_t<double> xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](py::array_t<double, py::array::c_style | py::array::forcecast> x0,
+                       py::array_t<double, py::array::c_style | py::array::forcecast> xf,
+                       py::array_t<int, py::array::c_style | py::array::forcecast> nC,
+                       int min) {
               if (x0.ndim() != 1) {
                   throw py::value_error("The \"x0\" input array must be 1-dimensional.");
               }
@@ -57,7 +60,10 @@ template <typename T> void addNdInit(auto &c) {
 }
 
 template <typename T> void addNdElmInit(auto &c) {
-    c.def(py::init([](py::array_t<double> x0, py::array_t<double> xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](py::array_t<double, py::array::c_style | py::array::forcecast> x0,
+                       py::array_t<double, py::array::c_style | py::array::forcecast> xf,
+                       py::array_t<int, py::array::c_style | py::array::forcecast> nC,
+                       int min) {
               if (x0.ndim() != 1) {
                   throw py::value_error("The \"x0\" input array must be 1-dimensional.");
               }
-- 
2.43.0


From dec0ddb4765552afdfac8db92533bad85061a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:11 +0000
Subject: [PATCH 46/48] fix: do not use a partially evaluated function for
 arguments of another structure

pe flattened the arguments of a later call and fed the leaves to the jaxpr
traced for the first ones, so a dictionary of unknowns whose keys came in
another order was silently evaluated with its entries exchanged, and other
shapes or types failed. Such calls now evaluate the function itself with the
constants filled in. NllsClass keeps the original residual apart from the
partially evaluated one, which its least-squares step would call otherwise.
---
 src/tfc/utils/TFCUtils.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index f148061..739df56 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -233,8 +233,9 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
     """
 
     # Reorder to put knowns first, then unknowns
+    removed = sorted(constant_arg_nums)
     order = [k for k in range(len(args))]
-    for k in sorted(constant_arg_nums):
+    for k in removed:
         order.insert(0, order.pop(k))
     reorder = np.argsort(np.array(order))
     dark = tuple(args[k] for k in order)
@@ -279,15 +280,26 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
             jaxpr, _, const = trace_to_jaxpr_nounits(wrap_flat, part_args, instantiate=True)
 
             # Create new, partially evaluated function
-            if out_tree().num_leaves == 1 and out_tree().num_nodes == 1:
-                # out_tree() is PyTreeDef(*), so just return the value. Since eval_jaxpr returns a list,
-                # this is just value [0]
-                f_removed = lambda *args: eval_jaxpr(jaxpr, const, *tree_flatten((*args, {}))[0])[0]
-            else:
-                # Use out_tree() to reshape the args correctly.
-                f_removed = lambda *args: out_tree().unflatten(
-                    eval_jaxpr(jaxpr, const, *tree_flatten((*args, {}))[0])
-                )
+            def describe(leaves, tree):
+                return tree, [(typeof(x).shape, typeof(x).dtype) for x in leaves]
+
+            traced_for = describe(*tree_flatten((*dark[num_args_remove:], {})))
+            constants = [
+                tree_map(lambda x: x.copy() if isinstance(x, onp.ndarray) else x, args[k])
+                for k in removed
+            ]
+
+            def f_removed(*args_left):
+                leaves, tree = tree_flatten((*args_left, {}))
+                if describe(leaves, tree) != traced_for:
+                    # The jaxpr belongs to arguments of another structure (for example, a dictionary whose
+                    # keys are in another order), shape, or type, so it cannot be used for these.
+                    all_args = list(args_left)
+                    for k, constant in zip(removed, constants):
+                        all_args.insert(k, constant)
+                    return f_orig(*all_args)
+                return out_tree().unflatten(eval_jaxpr(jaxpr, const, *leaves))
+
             return f_removed
         else:
             return f_orig
@@ -1427,7 +1439,7 @@ class NllsClass:
                 return np.all(
                     np.array(
                         [
-                            np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
+                            np.max(np.abs(resRun(val["xi"], *val["args"]))) > tol,
                             val["it"] < maxIter,
                             np.max(np.abs(val["dxi"])) > tol,
                         ]
@@ -1465,10 +1477,11 @@ class NllsClass:
         else:
             TFCPrint.Error("The method entered is not valid. Please enter a valid method.")
 
+        resRun = res
         if constant_arg_nums:
             # Make arguments constant if desired
             LS = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(LS)
-            res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
+            resRun = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
             args: list[Any] = list(args)
             for k in sorted(constant_arg_nums, reverse=True):
@@ -1484,7 +1497,7 @@ class NllsClass:
                         partial(nlls_id_print, end=printOutEnd),
                         None,
                         val["it"],
-                        np.max(np.abs(res(val["xi"], *val["args"]))),
+                        np.max(np.abs(resRun(val["xi"], *val["args"]))),
                     )
                     val["it"] += 1
                     return val
-- 
2.43.0


From fe53f5ca5b008c4262d9d3f2f24dd5f9f9338c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:46 +0000
Subject: [PATCH 47/48] fix: show constraint graphs whose names have a meaning
 in the dot language

Names were used as identifiers of the drawing and as unescaped labels, so a
colon in the name of a variable added another one and moved its edges there,
and backslashes and angle brackets were interpreted instead of shown.
---
 src/tfc/utils/TFCUtils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 739df56..896088a 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1652,6 +1652,7 @@ class ComponentConstraintGraph:
              Boolean that controls whether the graphs are also saved as PDFs. (Default value = False)
         """
         import os
+        from graphviz import escape
         from .Html import HTML, Dot
 
         if allGraphs:
@@ -1696,21 +1697,20 @@ class ComponentConstraintGraph:
         mainHtml.WriteFile()
 
         #: Create the tree dot files
+        # Names are only used as labels: in an identifier, a colon would be taken as a port
+        nodeId = {name: "node" + str(j) for j, name in enumerate(self.N)}
         for k in range(n):
             treeDot = Dot(os.path.join(outputDir, "dotFiles", "tree" + str(k)), "tree" + str(k))
             treeDot.dot.attr(bgcolor="transparent")
             treeDot.dot.node_attr.update(shape="box")
             for j in range(self.nNodes):
-                treeDot.dot.node(self.N[j], self.N[j])
+                treeDot.dot.node(nodeId[self.N[j]], escape(self.N[j]))
             for j in range(self.nEdges):
+                node0, node1 = nodeId[self.E[j]["node0"]], nodeId[self.E[j]["node1"]]
                 if not targets[k][j]:
-                    treeDot.dot.edge(
-                        self.E[j]["node0"], self.E[j]["node1"], label=self.E[j]["name"]
-                    )
+                    treeDot.dot.edge(node0, node1, label=escape(self.E[j]["name"]))
                 else:
-                    treeDot.dot.edge(
-                        self.E[j]["node1"], self.E[j]["node0"], label=self.E[j]["name"]
-                    )
+                    treeDot.dot.edge(node1, node0, label=escape(self.E[j]["name"]))
 
             if savePDFs:
                 treeDot.Render(formats=["cmapx", "svg", "pdf"])
-- 
2.43.0


From 4ad0e22001d22f9e1291d6e4e1c39ec2dcf59b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:54 +0000
Subject: [PATCH 48/48] fix: compile timed solves ahead of time for the
 arguments of each run

A timed run of a reusable solver with arguments of another shape, type, or
structure than its first run counted the compilation as solve time, and the
warm-up of a timed nonlinear solve ran all of its iterations (and reported
them twice) when the caller's own cond does not stop at maxIter.
---
 src/tfc/utils/TFCUtils.py | 56 ++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 896088a..46fa2de 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -941,6 +941,24 @@ def LS(
         return zXi
 
 
+def argsForm(*args: Any):
+    """
+    Returns everything about args that JAX compiles a function for: their structure, shapes, and types.
+
+    Parameters
+    ----------
+    *args : Any
+        Arguments of a JIT-ed function.
+
+    Returns
+    -------
+    form : hashable
+        Structure, shapes, and types of args.
+    """
+    leaves, tree = tree_flatten(args)
+    return tree, tuple(typeof(x) for x in leaves)
+
+
 class LsClass:
     """
     JITed linear least-squares class.
@@ -1048,7 +1066,7 @@ class LsClass:
 
         self._ls = jit(ls)
 
-        self._compiled = False
+        self._compiled = {}
 
     def run(self, zXi: PyTree, *args: Any) -> PyTree | tuple[PyTree, float]:
         """
@@ -1077,12 +1095,14 @@ class LsClass:
 
             timer = getattr(time, self.timerType)
 
-            if not self._compiled:
-                self._ls(zXi, *args).block_until_ready()
-                self._compiled = True
+            # Compile for these arguments ahead of time, so only the solve itself is timed
+            form = argsForm(zXi, *args)
+            if form not in self._compiled:
+                self._compiled[form] = self._ls.lower(zXi, *args).compile()
+            ls = self._compiled[form]
 
             start = timer()
-            xi = self._ls(zXi, *args).block_until_ready()
+            xi = ls(zXi, *args).block_until_ready()
             stop = timer()
             zXi = zXi + xi
 
@@ -1091,8 +1111,6 @@ class LsClass:
         else:
             zXi = zXi + self._ls(zXi, *args)
 
-            self._compiled = True
-
             return zXi
 
 
@@ -1321,11 +1339,12 @@ def NLLS(
         import time
 
         timer_f: Callable[[], float] = getattr(time, timerType)
-        val = {"xi": xiInit, "dxi": dxi, "it": maxIter, "args": args}
-        nlls(val)["dxi"].block_until_ready()
-
         val = {"xi": xiInit, "dxi": dxi, "it": 0, "args": args}
 
+        # Compile ahead of time: running the loop would repeat its reports, and with a user specified
+        # cond it need not stop at maxIter.
+        nlls = nlls.lower(val).compile()
+
         start = timer_f()
         val = nlls(val)
         val["dxi"].block_until_ready()
@@ -1511,7 +1530,7 @@ class NllsClass:
                     return val
 
         self._nlls = jit(lambda val: lax.while_loop(cond, body, val))
-        self._compiled = False
+        self._compiled = {}
 
     def run(self, xiInit: PyTree, *args: Any) -> tuple[PyTree, int] | tuple[PyTree, int, float]:
         """Runs the JIT-ed nonlinear least-squares function and times it if desired.
@@ -1547,15 +1566,16 @@ class NllsClass:
 
             timer_f: Callable[[], float] = getattr(time, self.timerType)
 
-            if not self._compiled:
-                val = {"xi": xiInit, "dxi": dxi, "it": self._maxIter, "args": args}
-                self._nlls(val)["dxi"].block_until_ready()
-                self._compiled = True
-
             val = {"xi": xiInit, "dxi": dxi, "it": 0, "args": args}
 
+            # Compile for these arguments ahead of time, so only the solve itself is timed
+            form = argsForm(val)
+            if form not in self._compiled:
+                self._compiled[form] = self._nlls.lower(val).compile()
+            nlls = self._compiled[form]
+
             start = timer_f()
-            val = self._nlls(val)
+            val = nlls(val)
             val["dxi"].block_until_ready()
             stop = timer_f()
 
@@ -1565,8 +1585,6 @@ class NllsClass:
             val = {"xi": xiInit, "dxi": dxi, "it": 0, "args": args}
             val = self._nlls(val)
 
-            self._compiled = True
-
             return val["xi"], val["it"]
 
 
-- 
2.43.0

