From 18bb41ce3eccee6d80b721c01c3a5fc2a231c3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 01/15] fix: elimination must not drop a contradictory row (0 =
 nonzero b)

Such rows were silently removed, so solve_question yielded rows x with A @ x != b.
---
 srg/gauss_elim.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index d2b1726..d285494 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -6,6 +6,11 @@ from . import srg
 
 
 def _remove_zerokeys(h: list) -> None:
+    # a zero key is an all-zero row. It says 0 = v, so it can be dropped only if v is 0.
+    for k, i, v in h:
+        if k == 0 and v != 0:
+            raise srg.NoSolution(f'an all-zero row can not equate nonzero b: b[{i}]={v}')
+
     hnz = [(k, i, v) for k, i, v in h if k > 0]
     h.clear()
     h += hnz
-- 
2.43.0


From 996ee0dfc06257f7160e8ace8fedd127ff487beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 02/15] fix: row and column codes overflowed beyond 64 bits

Distinct columns of a matrix with more than 64 rows got the same code and
were merged, so the solver lost e.g. the only (70, 68, 66, 68) graph.
---
 srg/gauss_elim.py | 5 +++--
 srg/unique.py     | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index d285494..9654482 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -92,9 +92,10 @@ def _encode(A: np.array, b: np.array) -> list:
     R, C = A.shape
     assert b.size == R, f'{b.size} != {R}'
 
-    _sum = A[:, -1].copy().astype(int)
+    # object, ie. python int, because a key takes C bits, which may not fit in a 64-bit integer
+    _sum = A[:, -1].astype(object)
     for c in reversed(range(C - 1)):
-        delta = A[:, c].astype(int) << (C - 1 - c)
+        delta = A[:, c].astype(object) << (C - 1 - c)
         _sum += delta
 
     return list(zip(_sum, range(R), b))
diff --git a/srg/unique.py b/srg/unique.py
index 4240a68..784e8b5 100644
--- a/srg/unique.py
+++ b/srg/unique.py
@@ -13,7 +13,7 @@ def _encode(A: np.array) -> list:
     :return: array([7, 7, 5, 5, 3, 3, 1], dtype=int16)
     '''
     R, C = A.shape
-    _A = A.astype(int)
+    _A = A.astype(object)  # python int, because a code takes R bits, which may not fit in a 64-bit integer
     _sum = _A[-1, :]
     for r in reversed(range(R - 1)):
         _sum += _A[r, :] << (R - 1 - r)
-- 
2.43.0


From 3fe0752f4b5337ef0a3ba324e412d7a034a135a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 03/15] fix: python -m srg.database imported a module and
 called a function that do not exist

---
 srg/database/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srg/database/__main__.py b/srg/database/__main__.py
index 445980e..c3b3916 100644
--- a/srg/database/__main__.py
+++ b/srg/database/__main__.py
@@ -1,5 +1,5 @@
 from srg.database import list_problems, get_solutions, draw
-from srg import util
+from srg import utils
 import sys
 from pprint import pprint
 
@@ -17,7 +17,7 @@ except ValueError:
 if v is None:
     pprint(list_problems())
 else:
-    util.assert_arg(v,k,l,u)
+    utils.assert_srg(v,k,l,u)
     if cmd == 'list':
         pprint(get_solutions(v,k,l,u))
     elif cmd == 'draw':
-- 
2.43.0


From ea8367c2bef79347a23827b5502d2e550f3aed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 04/15] fix: determinant of a large conference graph was off by
 floating-point rounding

---
 srg/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srg/utils.py b/srg/utils.py
index 8370ccc..20efe56 100644
--- a/srg/utils.py
+++ b/srg/utils.py
@@ -22,6 +22,10 @@ def conference(v: int, k: int, l: int, u: int):
     return 2 * k + (v - 1) * (l - u)
 
 def determinant(v: int, k: int, l: int, u: int):
+    if conference(v, k, l, u) == 0:
+        # the other two eigenvalues are irrational and equally frequent. their product is the integer u - k
+        return k * (u - k) ** ((v - 1) // 2)
+
     prod = 1
     for e, m in eig(v, k, l, u):
         prod *= e ** m
-- 
2.43.0


From 7017e18f0c722097ebd59ec08663262acc5d8bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 05/15] fix: maximize must not reorder equal columns

The default argsort is not stable, so maximize could return a smaller matrix
than it was given, and its result depended on dtype and CPU.
---
 srg/sorter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/sorter.py b/srg/sorter.py
index b547696..03493ac 100755
--- a/srg/sorter.py
+++ b/srg/sorter.py
@@ -58,7 +58,7 @@ class AdjMat:
 
         M = self.Mat
         a = M[row, colrange[0]:colrange[1]]
-        i = np.argsort(-a)  # large element first, so negate a.
+        i = np.argsort(-a, kind="stable")  # keep the order of equal elements. large element first, so negate a.
 
         ii = np.arange(self.v)
         ii[colrange[0]: colrange[1]] = i + colrange[0]
-- 
2.43.0


From 3832684f0c88c4fbbb22f335e4bd46566cca1258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 06/15] fix: maximize stopped sorting a column range once a row
 was constant on it

With a row of all ones on the first range it raised TypeError.
---
 srg/sorter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/srg/sorter.py b/srg/sorter.py
index 03493ac..3e806bf 100755
--- a/srg/sorter.py
+++ b/srg/sorter.py
@@ -38,7 +38,8 @@ class AdjMat:
         si1 = SortInstruct(row=row + 1, colrange=(c0_new, di), div_index=None)
         di1 = self._sort(row=si1.row, colrange=si1.colrange)
 
-        si2 = SortInstruct(row=row + 1, colrange=(di, c1), div_index=None)
+        di_new = di + 1 if row + 1 == di else di
+        si2 = SortInstruct(row=row + 1, colrange=(di_new, c1), div_index=None)
         di2 = self._sort(row=si2.row, colrange=si2.colrange)
 
         if di1:
@@ -74,7 +75,7 @@ class AdjMat:
         s = S[row, colrange[0]:colrange[1]]
         zero_indices = np.where(s == 0)[0]  # where returns a tuple. take the 1st element, which is an array
 
-        first_zero_index = zero_indices[0] + colrange[0] if len(zero_indices) > 0 else None
+        first_zero_index = zero_indices[0] + colrange[0] if len(zero_indices) > 0 else colrange[1]
 
         return first_zero_index
 
-- 
2.43.0


From 642e6cdda2f4165ef50d7034583841f3cc2f8ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 07/15] fix: answers with 32 or more vertices were printed with
 elements elided

---
 srg/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srg/__main__.py b/srg/__main__.py
index aec011f..19d9f15 100644
--- a/srg/__main__.py
+++ b/srg/__main__.py
@@ -6,6 +6,7 @@ from . import pprint
 from . import utils
 from . import solver
 from . import sorter
+import numpy as np
 import sys
 
 
@@ -20,6 +21,7 @@ if __name__ == '__main__':
     s = SRG(solver._seed(v, k, l, u))
     ansgen = solver.solve(s)
     ans :list = sorter.sort(ansgen)
+    np.set_printoptions(threshold=sys.maxsize)  # print whole matrices, however large
     pprint.green('*********** answers *************')
     for ans in ans:
         pprint.green(ans)
-- 
2.43.0


From b5c13ed729e7317a96d9b1124da494aaa4018c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 08/15] fix: wrong return annotation made the cythonized solver
 raise TypeError

---
 srg/unique.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/unique.py b/srg/unique.py
index 784e8b5..247aee6 100644
--- a/srg/unique.py
+++ b/srg/unique.py
@@ -4,7 +4,7 @@
 import numpy as np
 
 
-def _encode(A: np.array) -> list:
+def _encode(A: np.array) -> np.array:
     '''
     A = np.array([[1, 1, 1, 1, 0, 0, 0],
                   [1, 1, 0, 0, 1, 1, 0],
-- 
2.43.0


From b3e95f9c1d4b0c7450cd894cceee4f2aad125d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 09/15] fix: an answer whose bucket boundaries descend was
 accepted

---
 srg/srg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/srg.py b/srg/srg.py
index 3beb61a..87ab45c 100644
--- a/srg/srg.py
+++ b/srg/srg.py
@@ -19,7 +19,7 @@ class Answer:
         assert np.array_equal(value.shape, location.shape)
         if location.size > 0:
             assert location[0] == 0
-            assert all(np.diff(location)), f'location is not sorted: {location}'
+            assert all(np.diff(location) > 0), f'location is not sorted: {location}'
             assert location[-1] < len
 
         self._v = value
-- 
2.43.0


From 9b32dbcdf0a4246dbbaa2f697db5ab5c7bae327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:40 +0000
Subject: [PATCH 10/15] fix: counts of 128 or more overflowed the 8-bit
 matrices, so existing graphs were silently not found

---
 srg/srg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/srg/srg.py b/srg/srg.py
index 87ab45c..f3d175b 100644
--- a/srg/srg.py
+++ b/srg/srg.py
@@ -4,10 +4,10 @@
 import numpy as np
 from functools import partial
 
-array = partial(np.array, dtype=np.int8)
-ones = partial(np.ones, dtype=np.int8)
-zeros = partial(np.zeros, dtype=np.int8)
-identity = partial(np.identity, dtype=np.int8)
+array = partial(np.array, dtype=np.int16)
+ones = partial(np.ones, dtype=np.int16)
+zeros = partial(np.zeros, dtype=np.int16)
+identity = partial(np.identity, dtype=np.int16)
 
 class NoSolution(Exception): pass
 
-- 
2.43.0


From 62fba590852767824955a5269a5213382910f8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 11/15] fix: an upper bound of 127 in an 8-bit array overflowed
 in partition.enum, so nothing was enumerated

---
 srg/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/partition.py b/srg/partition.py
index 6e3733d..9113efb 100644
--- a/srg/partition.py
+++ b/srg/partition.py
@@ -11,7 +11,7 @@ def enum(s: int, bounds) -> tuple:
 
     if l > 1:
 
-        for v in range(min(bound, s) + 1):
+        for v in range(min(int(bound), s) + 1):  # int, because an 8-bit 127 + 1 overflows
             rem = s - v
 
             for t in enum(rem, others):
-- 
2.43.0


From 1a0884a66ae017cc591a7d02063c79ebd457d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 12/15] fix: a bound of 127 in an 8-bit array overflowed in
 fork.enum, so no value was enumerated

---
 srg/fork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/fork.py b/srg/fork.py
index e53d332..2264fcf 100644
--- a/srg/fork.py
+++ b/srg/fork.py
@@ -19,7 +19,7 @@ def enum(quota: int, bounds: np.array, loc: int):
     m, bounds_rest = _pop_ele(bounds, loc)
 
     start_from = max(0, quota - bounds_rest.sum())
-    for quota_used in range(start_from, m + 1):  # q = 0,1,2
+    for quota_used in range(start_from, int(m) + 1):  # q = 0,1,2
         quota_rest = quota - quota_used
         yield quota_used, quota_rest
 
-- 
2.43.0


From a373b6cf53505faaa449dd4b8b42362594bbac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:16 +0000
Subject: [PATCH 13/15] fix: stored matrices of 32 or more vertices were listed
 with elements left out

---
 srg/database/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srg/database/__main__.py b/srg/database/__main__.py
index c3b3916..6772f4b 100644
--- a/srg/database/__main__.py
+++ b/srg/database/__main__.py
@@ -1,5 +1,6 @@
 from srg.database import list_problems, get_solutions, draw
 from srg import utils
+import numpy as np
 import sys
 from pprint import pprint
 
@@ -19,6 +20,7 @@ if v is None:
 else:
     utils.assert_srg(v,k,l,u)
     if cmd == 'list':
+        np.set_printoptions(threshold=sys.maxsize)  # print whole matrices, however large
         pprint(get_solutions(v,k,l,u))
     elif cmd == 'draw':
         draw(v,k,l,u)
-- 
2.43.0


From f257d03214d978a9334c962b9beb1628bf4b2239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 14/15] fix: multiplicities and eigenvalues beyond 2**53 were
 off by floating-point rounding

---
 srg/utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/srg/utils.py b/srg/utils.py
index 20efe56..6176c09 100644
--- a/srg/utils.py
+++ b/srg/utils.py
@@ -3,18 +3,24 @@
 
 from .srg import Question
 from . import pprint
+import math
 import numpy as np
 from . import srg
 
 def eig(v: int, k: int, l: int, u: int):
+    v, k, l, u = int(v), int(k), int(l), int(u)  # python int, because a numpy integer may overflow
     conf = conference(v, k, l, u)  # if conference graph, conf == 0, so D becomes non-integer
 
-    D = np.sqrt((l - u) ** 2 + 4 * (k - u))
-    D = int(D) if conf != 0 else D
+    D = (l - u) ** 2 + 4 * (k - u)
 
-    eig = k, ((l - u) + D) / 2, ((l - u) - D) / 2
-    eig = tuple(int(x) if conf != 0 else x for x in eig)  # if not conference graph, eigvalues are integer
-    mul = 1, int(((v - 1) - conf / D) / 2), int(((v - 1) + conf / D) / 2)  # multiplicity is always integer
+    if conf != 0:  # if not conference graph, eigvalues are integer. floats are exact only up to 2 ** 53
+        D = math.isqrt(D)
+        eig = k, ((l - u) + D) // 2, ((l - u) - D) // 2
+        mul = 1, ((v - 1) - conf // D) // 2, ((v - 1) + conf // D) // 2
+    else:
+        D = math.sqrt(D)
+        eig = k, ((l - u) + D) / 2, ((l - u) - D) / 2
+        mul = 1, (v - 1) // 2, (v - 1) // 2
 
     return tuple(zip(eig, mul))
 
-- 
2.43.0


From e6104b1d21b7cf7a05b65964491bbee80c488379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 15/15] fix: determinant overflowed for a conference graph's
 parameters read back from its matrix

---
 srg/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srg/utils.py b/srg/utils.py
index 6176c09..74ae2c8 100644
--- a/srg/utils.py
+++ b/srg/utils.py
@@ -28,6 +28,7 @@ def conference(v: int, k: int, l: int, u: int):
     return 2 * k + (v - 1) * (l - u)
 
 def determinant(v: int, k: int, l: int, u: int):
+    v, k, l, u = int(v), int(k), int(l), int(u)  # python int, because a numpy integer may overflow
     if conference(v, k, l, u) == 0:
         # the other two eigenvalues are irrational and equally frequent. their product is the integer u - k
         return k * (u - k) ** ((v - 1) // 2)
-- 
2.43.0

