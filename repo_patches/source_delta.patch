From f57bcdced386d54f019afb3a459f5bf579fa2620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 01/96] fix: lattice vectors from left-handed mass-spring
 supercell

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 0a7ba49..f7bc940 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -696,7 +696,7 @@ class Model:
         B1 = np.cross(self.N[1], self.N[2])
         B2 = np.cross(self.N[2], self.N[0])
         B3 = np.cross(self.N[0], self.N[1])
-        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / len(self.cells)
+        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / np.dot(self.N[0], B1)
 
         ph.divide_mass = self.divide_mass
         ph.divide_ndegen = self.divide_ndegen
-- 
2.43.0


From 6389308aa56b5e3cda9337fc5cc7424c0e5404fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 02/96] fix: keep units when mapping tight-binding model back
 to unit cell

---
 elphmod/el.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elphmod/el.py b/elphmod/el.py
index 4fe9485..7e7bd8f 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -414,6 +414,9 @@ class Model:
         el = Model()
         el.size = self.size // len(self.cells)
 
+        el.divide_ndegen = self.divide_ndegen
+        el.rydberg = self.rydberg
+
         if comm.rank == 0:
             const = dict()
 
-- 
2.43.0


From 8c8a6d67d9b04b033b1ed1a1ef76945af22cae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 03/96] fix: set documented supercell vectors of
 electron-electron interaction

---
 elphmod/elel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elphmod/elel.py b/elphmod/elel.py
index 9425112..3d9fee5 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -165,6 +165,7 @@ class Model:
         elel = Model()
 
         supercell = elphmod.bravais.supercell(N1, N2, N3)
+        elel.N = list(map(tuple, supercell[1]))
         elel.cells = supercell[-1]
 
         elel.size = len(elel.cells) * self.size
-- 
2.43.0


From 0609eba90e493c80549baad628e2a7d4f9a5e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 04/96] fix: standardize and map models without nonzero
 elements

---
 elphmod/el.py   | 10 ++++++----
 elphmod/elel.py | 10 ++++++----
 elphmod/ph.py   | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 7e7bd8f..75d4e91 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -433,8 +433,9 @@ class Model:
 
                 status.update()
 
-            el.R = np.array(list(const.keys()), dtype=int)
-            el.data = np.array(list(const.values()))
+            el.R = np.array(list(const.keys()), dtype=int).reshape((-1, 3))
+            el.data = np.array(list(const.values())).reshape((-1,
+                el.size, el.size))
 
             count = len(const)
             const.clear()
@@ -562,8 +563,9 @@ class Model:
             cells = sorted(list(const.keys()))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells]).reshape((-1,
+                self.size, self.size))
 
             if symmetrize:
                 self.data /= 2
diff --git a/elphmod/elel.py b/elphmod/elel.py
index 3d9fee5..1772c0c 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -193,8 +193,9 @@ class Model:
 
                 status.update()
 
-            elel.R = np.array(list(const.keys()), dtype=int)
-            elel.data = np.array(list(const.values()))
+            elel.R = np.array(list(const.keys()), dtype=int).reshape((-1, 3))
+            elel.data = np.array(list(const.values())).reshape((-1,
+                elel.size, elel.size))
 
             count = len(const)
             const.clear()
@@ -250,8 +251,9 @@ class Model:
             cells = sorted(list(const.keys()))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells]).reshape((-1,
+                self.size, self.size))
         else:
             count = None
 
diff --git a/elphmod/ph.py b/elphmod/ph.py
index f7bc940..15b7fd2 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -742,8 +742,9 @@ class Model:
 
                 status.update()
 
-            ph.R = np.array(list(const.keys()), dtype=int)
-            ph.data = np.array(list(const.values()))
+            ph.R = np.array(list(const.keys()), dtype=int).reshape((-1, 3))
+            ph.data = np.array(list(const.values())).reshape((-1,
+                ph.size, ph.size))
 
             count = len(const)
             const.clear()
@@ -882,8 +883,9 @@ class Model:
             cells = sorted(list(const.keys()))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells]).reshape((-1,
+                self.size, self.size))
 
             if symmetrize:
                 self.data /= 2
-- 
2.43.0


From 60690a230c067c38681d58f6b0f5b9526b2669df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:41 +0000
Subject: [PATCH 05/96] fix: sum over repeated lattice vectors when mapping
 models to and from supercell

---
 elphmod/el.py   | 4 ++--
 elphmod/elel.py | 2 +-
 elphmod/elph.py | 2 +-
 elphmod/ph.py   | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 75d4e91..3d842dd 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -371,7 +371,7 @@ class Model:
                     if R not in const:
                         const[R] = np.zeros((el.size, el.size), dtype=complex)
 
-                    const[R][A:A + self.size, B:B + self.size] = self.data[n]
+                    const[R][A:A + self.size, B:B + self.size] += self.data[n]
 
                 status.update()
 
@@ -429,7 +429,7 @@ class Model:
 
                     if np.any(t != 0):
                         R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
-                        const[R] = t
+                        const[R] = const[R] + t if R in const else t
 
                 status.update()
 
diff --git a/elphmod/elel.py b/elphmod/elel.py
index 1772c0c..aec6302 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -189,7 +189,7 @@ class Model:
                         const[R] = np.zeros((elel.size, elel.size),
                             dtype=complex)
 
-                    const[R][A:A + self.size, B:B + self.size] = self.data[n]
+                    const[R][A:A + self.size, B:B + self.size] += self.data[n]
 
                 status.update()
 
diff --git a/elphmod/elph.py b/elphmod/elph.py
index 0d8b5b5..bc04b35 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -487,7 +487,7 @@ class Model:
                     const[R][
                         X:X + self.ph.size,
                         A:A + self.el.size,
-                        B:B + self.el.size] = self.data[g, :, k]
+                        B:B + self.el.size] += self.data[g, :, k]
 
                 status.update()
 
diff --git a/elphmod/ph.py b/elphmod/ph.py
index 15b7fd2..1fceefa 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -650,7 +650,7 @@ class Model:
                     if R not in const:
                         const[R] = np.zeros((ph.size, ph.size))
 
-                    const[R][X:X + self.size, Y:Y + self.size] = self.data[n]
+                    const[R][X:X + self.size, Y:Y + self.size] += self.data[n]
 
                 status.update()
 
@@ -738,7 +738,7 @@ class Model:
 
                     if np.any(C != 0):
                         R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
-                        const[R] = C
+                        const[R] = const[R] + C if R in const else C
 
                 status.update()
 
-- 
2.43.0


From c7ac4e14b1e79e9f0de3d2cde4e9bfd720210999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:41 +0000
Subject: [PATCH 06/96] fix: do not modify atomic positions shared with other
 objects

---
 elphmod/ph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 1fceefa..1f3ed7c 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -837,6 +837,7 @@ class Model:
 
         self.standardize()
 
+        self.r = np.array(self.r, dtype=float)
         self.r[s] += np.dot(S, self.a)
 
     def standardize(self, eps=0.0, symmetrize=False):
-- 
2.43.0


From ec98a6239b6024fc8941c143c85a23d2c27cbf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 07/96] fix: bond lengths of rearranged force constants

---
 elphmod/ph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 1f3ed7c..a1a447f 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -917,7 +917,8 @@ class Model:
         ndarray
             Frobenius norm of force-constant matrices.
         """
-        l = self.l.flatten()
+        l = np.linalg.norm(np.dot(self.R, self.a)[:, np.newaxis, np.newaxis]
+            + self.r[np.newaxis] - self.r[:, np.newaxis], axis=3).flatten()
         C = np.linalg.norm(self.data.reshape((len(self.R),
             self.nat, 3, self.nat, 3)), ord='fro', axis=(2, 4)).flatten()
 
-- 
2.43.0


From 4dbe4b9a6d6787be205b9f6ba96f5318f6aeaa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 08/96] fix: standardize coupling with growing number of
 electronic lattice vectors

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index bc04b35..4751aba 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -624,7 +624,7 @@ class Model:
         if nk <= len(self.Rk):
             self.Rk = self.Rk[:nk]
         else:
-            self.Rk = np.empty((ng, 3), dtype=int)
+            self.Rk = np.empty((nk, 3), dtype=int)
 
         shape = ng, self.ph.size, nk, self.el.size, self.el.size
 
-- 
2.43.0


From e9e658722c54d80785325622e6ceeba68f3fd57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 09/96] fix: discard previously sampled q point when replacing
 real-space coupling

---
 elphmod/elph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 4751aba..784e57f 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1089,6 +1089,12 @@ def q2r(elph, nq, nk, g, r=None, divide_mass=True, shared_memory=False):
     if elph.node.rank == 0:
         elph.images.Bcast(elph.data.view(dtype=float))
 
+    elph.q = None
+    elph.gq = np.empty((elph.ph.size, len(elph.Rk),
+        elph.el.size, elph.el.size), dtype=complex)
+
+    elph.Rk0 = elphmod.misc.vector_index(elph.Rk, (0, 0, 0))
+
     comm.Barrier()
 
 def coupling(filename, nQ, nmodes, nk, bands, Q=None, nq=None, offset=0,
-- 
2.43.0


From e4bf6a5895059a6b4a48cec0656bff7b95f85dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 10/96] fix: discard previously sampled q point when correcting
 acoustic sum

---
 elphmod/elph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 784e57f..e66959f 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -708,6 +708,8 @@ class Model:
         if self.node.rank == 0:
             self.images.Bcast(self.data.view(dtype=float))
 
+        self.q = None
+
         comm.Barrier()
 
     def decay_epmate(self):
-- 
2.43.0


From ecbdfa49916a43efe71726b30d338d0690b7cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 11/96] fix: do not overwrite input when squaring coupling

---
 elphmod/elph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index e66959f..94f82d1 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -907,7 +907,7 @@ def sample(g, q, nk=None, U=None, u=None, squared=False, broadcast=True,
                             gqk = np.einsum('xab,xu->uab', gqk, u[iq])
 
                         if squared:
-                            gqk *= gqk.conj()
+                            gqk = gqk * gqk.conj()
                             gqk = gqk.real
 
                         my_g[my_iq, :, K1, K2, K3, :, :] = gqk
@@ -990,7 +990,7 @@ def transform(g, q, nk, U=None, u=None, squared=False, broadcast=True,
                     gqk = np.einsum('xab,xu->uab', gqk, u[iq])
 
                 if squared:
-                    gqk *= gqk.conj()
+                    gqk = gqk * gqk.conj()
                     gqk = gqk.real
 
                 my_g[my_iq, :, k1, k2, :, :] = gqk
-- 
2.43.0


From edd97cecf353e608b1296e4102075b237906e471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 12/96] fix: wait until sampled coupling has been written to
 shared memory

---
 elphmod/elph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 94f82d1..c6a1c54 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -932,6 +932,8 @@ def sample(g, q, nk=None, U=None, u=None, squared=False, broadcast=True,
 
                 row.Barrier()
 
+        comm.Barrier()
+
         return g
 
     if col.rank == 0:
-- 
2.43.0


From c08e10d8ff2721cad1666802abe52edf4465252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 13/96] fix: do not multiply long-range sparse coupling with
 number of processes

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index c6a1c54..15b892c 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -433,7 +433,7 @@ class Model:
             elph.gs = [sparse_array((elph.el.size, elph.el.size))
                 for x in range(elph.ph.size)]
 
-            if elph.ph.lr:
+            if elph.ph.lr and comm.rank == 0:
                 g_lr = elph.g_lr().real
 
                 for x in range(elph.ph.size):
-- 
2.43.0


From c2c99e62e5cec2e7d986b72f91720ff462cb152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 14/96] fix: wait until supercell coupling has been written to
 shared memory

---
 elphmod/elph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 15b892c..4e67bae 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -548,6 +548,8 @@ class Model:
                 elph.images.Allreduce(elphmod.MPI.MPI.IN_PLACE,
                     elph.data[g].view(dtype=float))
 
+        comm.Barrier()
+
         return elph
 
     def standardize(self, eps=0.0, symmetrize=False):
-- 
2.43.0


From c663921162e23e045e97bbb8d1bde423538e57b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:51 +0000
Subject: [PATCH 15/96] fix: read array data with Python 3

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 4e67bae..0c91b86 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1614,7 +1614,7 @@ def read_data(filename):
     """Read array from ASCII file."""
 
     with open(filename) as text:
-        columns = text.next().split()
+        columns = next(text).split()
         shape = tuple(map(int, columns[:-1]))
         complex_data = {'R': False, 'C': True}[columns[-1]]
 
-- 
2.43.0


From c104ec0eccfe5d5779461432f8ff013a5faa4e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:13 +0000
Subject: [PATCH 16/96] fix: standardize models without lattice vectors using
 threshold

---
 elphmod/el.py   | 3 ++-
 elphmod/elel.py | 3 ++-
 elphmod/elph.py | 3 ++-
 elphmod/ph.py   | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 3d842dd..c94e29e 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -534,7 +534,8 @@ class Model:
         """
         if comm.rank == 0:
             if eps:
-                self.data[abs(self.data) < eps * abs(self.data).max()] = 0.0
+                self.data[abs(self.data) < eps * abs(self.data).max(
+                    initial=0.0)] = 0.0
 
             const = dict()
 
diff --git a/elphmod/elel.py b/elphmod/elel.py
index aec6302..668c075 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -230,7 +230,8 @@ class Model:
         """
         if comm.rank == 0:
             if eps:
-                self.data[abs(self.data) < eps * abs(self.data).max()] = 0.0
+                self.data[abs(self.data) < eps * abs(self.data).max(
+                    initial=0.0)] = 0.0
 
             const = dict()
 
diff --git a/elphmod/elph.py b/elphmod/elph.py
index 0c91b86..19c10e3 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -575,7 +575,8 @@ class Model:
         """
         if comm.rank == 0:
             if eps:
-                self.data[abs(self.data) < eps * abs(self.data).max()] = 0.0
+                self.data[abs(self.data) < eps * abs(self.data).max(
+                    initial=0.0)] = 0.0
 
             const = dict()
 
diff --git a/elphmod/ph.py b/elphmod/ph.py
index a1a447f..9a7eb5d 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -855,7 +855,8 @@ class Model:
         """
         if comm.rank == 0:
             if eps:
-                self.data[abs(self.data) < eps * abs(self.data).max()] = 0.0
+                self.data[abs(self.data) < eps * abs(self.data).max(
+                    initial=0.0)] = 0.0
 
             const = dict()
 
-- 
2.43.0


From 5c85ec2f2d37f0b42237138453d4bc322236e78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:29 +0000
Subject: [PATCH 17/96] fix: apply acoustic sum rule to coupling irrespective
 of division by masses

---
 elphmod/elph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 19c10e3..74402a1 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -688,6 +688,10 @@ class Model:
         if comm.rank == 0:
             shape = self.data.shape
 
+            if self.divide_mass:
+                for x in range(self.ph.size):
+                    self.data[:, x] *= np.sqrt(self.ph.M[x // 3])
+
             self.data = self.data.reshape((len(self.Rg) * self.ph.nat, -1))
 
             zero = self.data.sum(axis=0)
@@ -708,6 +712,10 @@ class Model:
 
             self.data = self.data.reshape(shape)
 
+            if self.divide_mass:
+                for x in range(self.ph.size):
+                    self.data[:, x] /= np.sqrt(self.ph.M[x // 3])
+
         if self.node.rank == 0:
             self.images.Bcast(self.data.view(dtype=float))
 
-- 
2.43.0


From a0f599a17403f40ab52e978e3ae8c93af9b54ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:11 +0000
Subject: [PATCH 18/96] fix: apply acoustic sum rule to coupling without
 nonzero elements

---
 elphmod/elph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 74402a1..47af554 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -692,12 +692,13 @@ class Model:
                 for x in range(self.ph.size):
                     self.data[:, x] *= np.sqrt(self.ph.M[x // 3])
 
-            self.data = self.data.reshape((len(self.Rg) * self.ph.nat, -1))
+            self.data = self.data.reshape((len(self.Rg) * self.ph.nat,
+                3 * len(self.Rk) * self.el.size ** 2))
 
             zero = self.data.sum(axis=0)
 
             if report:
-                print('Acoustic sum (before): %g' % abs(zero).max())
+                print('Acoustic sum (before): %g' % abs(zero).max(initial=0.0))
 
             norm = abs(self.data).sum(axis=0)
 
@@ -708,7 +709,7 @@ class Model:
             if report:
                 zero = self.data.sum(axis=0)
 
-                print('Acoustic sum (after): %g' % abs(zero).max())
+                print('Acoustic sum (after): %g' % abs(zero).max(initial=0.0))
 
             self.data = self.data.reshape(shape)
 
-- 
2.43.0


From 90074968efd87cd34bda5c4df35e54fa5c063ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 19/96] fix: linearly interpolate array-valued data

---
 elphmod/bravais.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 87c9771..6771509 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -932,7 +932,12 @@ def linear_interpolation(data, angle=60, axes=(0, 1), period=None, polar=False):
 
     # make interpolant function applicable to arrays and return:
 
-    return np.vectorize(interpolant)
+    if data.ndim == len(axes):
+        return np.vectorize(interpolant)
+
+    return np.vectorize(interpolant, signature='%s->(%s)'
+        % (','.join('()' for n in range(len(axes))),
+            ','.join('n%d' % n for n in range(len(axes), data.ndim))))
 
 def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
         periodic=True):
-- 
2.43.0


From 1cfed36af1850bca562d8320d1f92cf147afd224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 20/96] fix: rotate displacements of each atom

---
 elphmod/dispersion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index fc36400..8f2582a 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -123,8 +123,8 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
             # rotate phonon eigenvectors by negative angle of k point:
 
             if rotate:
-                k1, k2 = elphmod.bravais.to_Voronoi(*my_k[point, :2],
-                    nk=2 * np.pi, angle=angle)[0]
+                k1, k2 = min(elphmod.bravais.to_Voronoi(*my_k[point, :2],
+                    nk=2 * np.pi, angle=angle))
 
                 x, y = k1 * b1 + k2 * b2
                 phi = np.arctan2(y, x)
@@ -133,7 +133,7 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
 
                 for atom in range(atoms):
                     for band in range(bands):
-                        xy = point, [atom, atom + atoms], band
+                        xy = point, [3 * atom, 3 * atom + 1], band
                         my_V[xy] = elphmod.bravais.rotate(my_V[xy], -phi)
         else:
             if bands == 1:
-- 
2.43.0


From 5cf6bacf9c129d630fd1a51a2bfcf25a698950dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 21/96] fix: renormalize orbital coupling beyond
 density-density terms

---
 elphmod/diagrams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 5e96149..b81dcf8 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -822,7 +822,7 @@ def renormalize_coupling_orbital(q, e, g, W, U, **kwargs):
 
     g = g.copy()
 
-    while dg.ndim < g.ndim - 1 if dd else g.ndim:
+    while dg.ndim < (g.ndim - 1 if dd else g.ndim):
         dg = dg[:, :, np.newaxis]
 
     if dd:
-- 
2.43.0


From c544aececdd7b8f2eaa23cf0844a6f96039af482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 22/96] fix: share order of bands with all processes

---
 elphmod/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index 8f2582a..17fec81 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -168,7 +168,7 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
             dtype=int, **memory)
 
         if comm.rank == 0:
-            o = band_order(v, V, **order_kwargs)
+            o[...] = band_order(v, V, **order_kwargs)
 
             for point in range(points):
                 v[point] = v[point, o[point]]
-- 
2.43.0


From eaf31804df4fe9bf19b679bf4f7b3a1014fd1aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 23/96] fix: synchronize shared memory in MD driver

---
 elphmod/md.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 318e200..05952c3 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -408,12 +408,16 @@ class Driver:
                 if self.node.rank == 0:
                     self.images.Bcast(self.d[iq].view(dtype=float))
 
+            comm.Barrier()
+
             C = elphmod.diagrams.phonon_self_energy(self.q[:nq], self.e,
                 g=self.d[:nq], kT=self.kT, occupations=self.f, eps=eps)
 
             C[0] += elphmod.diagrams.phonon_self_energy_fermi_shift(self.e,
                 self.d[0], kT=self.kT, occupations=self.f)
 
+            comm.Barrier() # do not overwrite shared memory still in use
+
         C += self.C0[:nq]
 
         if apply_asr_simple:
-- 
2.43.0


From 3d783e77c24799cf044018af8564519a8b4909c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 24/96] fix: calculate Fermi-surface average of coupling for
 dense matrices

---
 elphmod/md.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 05952c3..4dac4cd 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -416,6 +416,15 @@ class Driver:
             C[0] += elphmod.diagrams.phonon_self_energy_fermi_shift(self.e,
                 self.d[0], kT=self.kT, occupations=self.f)
 
+            if kT is not None:
+                g2 = self.d[:nq, :, np.newaxis].conj() * self.d[:nq, np.newaxis]
+
+                g2dd, dd = elphmod.diagrams.double_fermi_surface_average(
+                    self.q[:nq], self.e, g2.reshape((nq, -1, *g2.shape[3:])),
+                    kT, self.f)
+
+                g2dd = g2dd.reshape(g2.shape[:3]) / dd.sum()
+
             comm.Barrier() # do not overwrite shared memory still in use
 
         C += self.C0[:nq]
-- 
2.43.0


From 293e3611d28e0f74c20e8d9986dc781d4ba4d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 25/96] fix: transform Coulomb interaction without MPI

---
 elphmod/MPI.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/elphmod/MPI.py b/elphmod/MPI.py
index 7431d23..4e9503c 100644
--- a/elphmod/MPI.py
+++ b/elphmod/MPI.py
@@ -66,6 +66,9 @@ except ImportError:
 
         @staticmethod
         def Scatterv(send, recv):
+            if isinstance(recv, tuple):
+                recv = recv[0]
+
             recv[...] = send[0].reshape(recv.shape)
 
         def Split(self, color, key=None):
@@ -74,12 +77,23 @@ except ImportError:
         def Split_type(self, color, key=None):
             return self
 
+    class Datatype:
+        def Create_contiguous(self, count):
+            return self
+
+        def Commit(self):
+            return self
+
+        def Free(self):
+            pass
+
     class Interface:
         def __init__(self):
             self.COMM_WORLD = Communicator()
             self.UNDEFINED = 0
             self.COMM_TYPE_SHARED = self.UNDEFINED
             self.IN_PLACE = 1
+            self.UNSIGNED_CHAR = Datatype()
 
     MPI = Interface()
 
-- 
2.43.0


From f849c6298a1ed3f3c13daf4ede93c84a8f44b5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 26/96] fix: agree on shared memory if number of processes
 differs between nodes

---
 elphmod/elph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 47af554..d13f340 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -637,7 +637,8 @@ class Model:
             self.data = self.data.reshape(shape)
         else:
             self.node, self.images, self.data = elphmod.MPI.shared_array(shape,
-                dtype=complex, shared_memory=self.node.size > 1)
+                dtype=complex, shared_memory=comm.allreduce(self.node.size)
+                    > comm.size)
 
         if comm.rank == 0:
             self.Rg[...] = Rg
-- 
2.43.0


From fd115a014fc8d59d70ccb24a249637ce40a20a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 27/96] fix: read origin of data grid from cube file

---
 elphmod/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index d7a9a6e..00df691 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -277,7 +277,6 @@ def read_cube(cube, only_header=False, comm=comm):
 
         cols = next(lines).split()
         nat = int(cols[0])
-        r0 = np.array(list(map(float, cols[1:4])))
     else:
         nat = None
 
@@ -290,6 +289,8 @@ def read_cube(cube, only_header=False, comm=comm):
     tau = np.empty((nat, 3), dtype=float)
 
     if comm.rank == 0:
+        r0[:] = list(map(float, cols[1:4]))
+
         for i in range(3):
             cols = next(lines).split()
             n[i] = int(cols[0])
-- 
2.43.0


From be09752368ccf6e096e3d7a7cdbf073e14a9d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:48 +0000
Subject: [PATCH 28/96] fix: append isoline segment along edge of triangle

---
 elphmod/dos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index 431dc7d..5d5bf68 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -349,7 +349,7 @@ def isoline(energies):
 
             elif B <= E < C:
                 if E == A == B:
-                    my_points.extend((tuple(i), (j)))
+                    my_points.append((tuple(i), tuple(j)))
                 else:
                     alpha = (E - B) / (C - B)
                     beta = (E - A) / (C - A)
-- 
2.43.0


From 5bc0b2e2d1f5ddd14e60266c5aeb5dc841317528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:48 +0000
Subject: [PATCH 29/96] fix: identify crossing points on opposite edges of mesh

---
 elphmod/dos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index 5d5bf68..a3e03e6 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -275,6 +275,8 @@ def double_delta(x, y, f=None, eps=1e-7):
         unique = dict()
 
         if comm.rank == 0:
+            D[D > N - eps] -= N # identify opposite edges of mesh
+
             for group in elphmod.misc.group(D, eps=eps):
                 d = np.average(D[group], axis=0)
                 w = np.average(W[group], axis=0)
-- 
2.43.0


From d8210956bbf0adba05a1107d7a995076713dbce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:03 +0000
Subject: [PATCH 30/96] fix: find crossing points on edges despite rounding
 errors

---
 elphmod/dos.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index a3e03e6..338fe17 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -259,7 +259,9 @@ def double_delta(x, y, f=None, eps=1e-7):
             V = (A * z - z * a - A * c + C * a + z * c - C * z) / w # B = b = z
             W = (A * b - B * a - A * z + z * a + B * z - z * b) / w # C = c = z
 
-            if 0 <= U <= 1 and 0 <= V <= 1 and 0 <= W <= 1:
+            # do not miss points on edges because of rounding errors:
+
+            if min(U, V, W) >= -1e-3 * eps:
                 my_D.append(U * X + V * Y + W * Z)
                 my_W.append(prefactor * (U * F + V * G + W * H) / abs(w))
 
-- 
2.43.0


From c1823b51c679a9fefc5c2fbaaded771d7dc47336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:03 +0000
Subject: [PATCH 31/96] fix: calculate grand potential for low temperatures

---
 elphmod/diagrams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index b81dcf8..01805b4 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -1086,7 +1086,7 @@ def grand_potential(e, kT=0.025, occupations='fd'):
     prefactor = 2 * kT / np.prod(e.shape[:-1])
 
     if occupations is elphmod.occupations.fermi_dirac: # faster alternative
-        return prefactor * np.log(occupations(-x)).sum()
+        return -prefactor * np.logaddexp(0, -x).sum()
 
     return prefactor * ((occupations(x) * x).sum()
         - occupations.entropy(x).sum()) # U - T S - mu N (where mu = 0)
-- 
2.43.0


From 6ecb14146fe956161530b17884a9e496a4235fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:03 +0000
Subject: [PATCH 32/96] fix: sum over negative Matsubara frequencies too

---
 elphmod/diagrams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 01805b4..fe4c996 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -140,7 +140,7 @@ def susceptibility2(e, kT=0.025, nmats=1000, hyb_width=1.0, hyb_height=0.0):
         Gk = G[:, :nk, :nk]
         Gkq = G[:, q1:q1 + nk, q2:q2 + nk]
 
-        return prefactor * np.sum(Gk * Gkq) + tail
+        return prefactor * np.sum(Gk * Gkq).real + tail
 
     return calculate_susceptibility
 
-- 
2.43.0


From 23d34a2ca7644eb17724ad06d77b02bae46ed053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:03 +0000
Subject: [PATCH 33/96] fix: allow for array of frequencies including zero

---
 elphmod/diagrams.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index fe4c996..b35546e 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -421,13 +421,11 @@ def phonon_self_energy(q, e, g2=None, kT=0.025, eps=1e-10, omega=0.0,
                 df = f[k1, k2, k3, n] - f[kq1, kq2, kq3, m]
                 de = e[k1, k2, k3, n] - e[kq1, kq2, kq3, m]
 
-                if dynamic:
-                    dfde[..., m, n] = df / np.add.outer(omega, de)
-                else:
-                    ok = abs(de) > eps
+                de = np.add.outer(omega, de)
 
-                    dfde[..., m, n][ok] = df[ok] / de[ok]
-                    dfde[..., m, n][~ok] = d[..., n][~ok]
+                dfde[..., m, n] = d[..., n]
+
+                np.divide(df, de, out=dfde[..., m, n], where=abs(de) > eps)
 
                 if Delta is not None:
                     if Delta_diff:
-- 
2.43.0


From 92848d9e445cf09e5b14eb5dc55cc88445229624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:03 +0000
Subject: [PATCH 34/96] fix: accept list of q points as documented

---
 elphmod/diagrams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index b35546e..2d16bf6 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -591,8 +591,8 @@ def phonon_self_energy2(q, e, g2, kT=0.025, nmats=1000, hyb_width=1.0,
     my_Pi = np.empty((sizes[comm.rank], nmodes), dtype=complex)
 
     for my_iq, iq in enumerate(range(*bounds[comm.rank:comm.rank + 2])):
-        q1 = int(round(q[iq, 0] * scale)) % nk
-        q2 = int(round(q[iq, 1] * scale)) % nk
+        q1 = int(round(q[iq][0] * scale)) % nk
+        q2 = int(round(q[iq][1] * scale)) % nk
 
         Gk = G[:, :nk, :nk]
         Gkq = G[:, q1:q1 + nk, q2:q2 + nk]
-- 
2.43.0


From 217a8402aa34ae5ad10e3e1f074049baf46e7624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:39 +0000
Subject: [PATCH 35/96] fix: accept any irreducible q points as list

---
 elphmod/ph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 9a7eb5d..39a60ea 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1872,7 +1872,7 @@ def q2r(ph, D_irr=None, q_irr=None, nq=None, D_full=None, angle=60,
         independent of ``ph.divide_mass``, which is always respected.
     """
     if D_full is None:
-        ph.size = D_irr.shape[-2]
+        ph.size = len(D_irr[0])
         ph.nat = ph.size // 3
 
         D_full = np.empty((nq, nq, ph.size, ph.size), dtype=complex)
@@ -1926,8 +1926,8 @@ def q2r(ph, D_irr=None, q_irr=None, nq=None, D_full=None, angle=60,
                     Q1 = int(round(np.dot(q, a1) * scale))
                     Q2 = int(round(np.dot(q, a2) * scale))
 
-                    D_full[+Q1, +Q2] = D
-                    D_full[-Q1, -Q2] = D.conj()
+                    D_full[+Q1 % nq, +Q2 % nq] = D
+                    D_full[-Q1 % nq, -Q2 % nq] = D.conj()
 
     if nq is None:
         nq = D_full.shape[:-2]
-- 
2.43.0


From 48940f87b2814d66a5400a623b036fa592292334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:06 +0000
Subject: [PATCH 36/96] fix: do not truncate atom symbols in force-constants
 files

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 39a60ea..b5a2f30 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1171,7 +1171,7 @@ def read_flfrc(flfrc):
         for nt in range(ntyp):
             tmp = cells()
 
-            atm.append(tmp[1][1:3])
+            atm.append(tmp[1].strip("'"))
             amass[nt] = float(tmp[-1])
 
         # read types and positions of individual atoms:
-- 
2.43.0


From b751e6c4a2777a94c1023e44260eb1945127a7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:06 +0000
Subject: [PATCH 37/96] fix: distinguish equal symbols with different masses in
 force-constants files

---
 elphmod/ph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index b5a2f30..6415025 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1311,8 +1311,10 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
     """
     dyn = isinstance(phid, tuple)
 
-    atm, amass = tuple(zip(*sorted(set(zip(atom_order, amass)),
-        key=lambda X: atom_order.index(X[0]))))
+    species = list(zip(atom_order, amass))
+    types = list(dict.fromkeys(species))
+
+    atm, amass = zip(*types)
 
     with open(flfrc, 'w') as data:
         if dyn:
@@ -1348,7 +1350,7 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
         # write types and positions of individual atoms:
 
         for na in range(len(tau)):
-            data.write('%5d %4d' % (na + 1, atm.index(atom_order[na]) + 1))
+            data.write('%5d %4d' % (na + 1, types.index(species[na]) + 1))
 
             for x in range(3):
                 data.write(' %17.10f' % (tau[na, x] / alat))
-- 
2.43.0


From d0468705f1e46ebdd97888ce48491dc244f459b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:26 +0000
Subject: [PATCH 38/96] fix: allow for single unit cell along some direction in
 RESPACK data

---
 elphmod/el.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index c94e29e..0a70a7e 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -183,7 +183,7 @@ class Model:
             self.size = data.shape[1]
 
             if N is None:
-                N = 2 * R[-1]
+                N = np.maximum(2 * R[-1], 1)
 
             if a is None:
                 info('Warning: You should really define the Bravais lattice!')
-- 
2.43.0


From bd745a4c51f80539d0657f1a5f9630b739bbc819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 39/96] fix: write effective charges so that they are read
 again

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 6415025..f3672ca 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1404,7 +1404,7 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
                 data.write('\n')
 
             if dyn:
-                data.write('\n     Effective charges\n')
+                data.write('\n     Effective charges E-U\n')
 
             for na in range(len(zeu)):
                 if dyn:
-- 
2.43.0


From 961a651bf41541c30425c912923abb1d5ef8c17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:38 +0000
Subject: [PATCH 40/96] fix: resize nonperiodic data to single point

---
 elphmod/bravais.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 6771509..8c5bcde 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -989,7 +989,8 @@ def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
     if periodic:
         scale = np.divide(data.shape[:len(shape)], shape)
     else:
-        scale = np.subtract(data.shape[:len(shape)], 1) / np.subtract(shape, 1)
+        scale = (np.subtract(data.shape[:len(shape)], 1)
+            / np.maximum(np.subtract(shape, 1), 1))
 
     for n, m in enumerate(range(*bounds[comm.rank:comm.rank + 2])):
         if len(shape) == 2:
-- 
2.43.0


From 0f38d5f9312aa76d855332c1bb734799f968f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:38 +0000
Subject: [PATCH 41/96] fix: do not truncate resized integer data

---
 elphmod/bravais.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 8c5bcde..c4b148b 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -983,8 +983,10 @@ def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
     size = np.prod(shape)
     sizes, bounds = elphmod.MPI.distribute(size, bounds=True)
 
+    dtype = np.result_type(data.dtype, float)
+
     my_new_data = np.empty((sizes[comm.rank], *data.shape[len(shape):]),
-        dtype=data.dtype)
+        dtype=dtype)
 
     if periodic:
         scale = np.divide(data.shape[:len(shape)], shape)
@@ -999,7 +1001,7 @@ def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
         my_new_data[n] = interpolant(*np.multiply(m, scale))
 
     new_data = np.empty((*shape, *data.shape[len(shape):]),
-        dtype=data.dtype)
+        dtype=dtype)
 
     comm.Allgatherv(my_new_data,
         (new_data, sizes * np.prod(data.shape[len(shape):], dtype=int)))
-- 
2.43.0


From 9f938e41898256f7507b6493f917fed11827775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:38 +0000
Subject: [PATCH 42/96] fix: Fourier-interpolate complex and array-valued data

---
 elphmod/bravais.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index c4b148b..218219d 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1443,6 +1443,8 @@ def Fourier_interpolation(data, angle=60, sign=-1, function=True):
     """
     N, N = data.shape[:2]
 
+    real = not np.iscomplexobj(data)
+
     # do first Fourier transform to obtain coefficients:
 
     i = np.arange(N)
@@ -1487,10 +1489,16 @@ def Fourier_interpolation(data, angle=60, sign=-1, function=True):
     idphi = -sign * 2j * np.pi / N
 
     def interpolant(*point):
-        return np.dot(np.exp(idphi * np.dot(points, point)), values).real
+        value = np.tensordot(np.exp(idphi * np.dot(points, point)), values, 1)
+
+        return value.real if real else value
 
     if function:
-        return np.vectorize(interpolant)
+        if data.ndim == 2:
+            return np.vectorize(interpolant)
+
+        return np.vectorize(interpolant, signature='(),()->(%s)'
+            % ','.join('n%d' % n for n in range(2, data.ndim)))
 
     # return either interpolation function or parameter dictionary:
 
-- 
2.43.0


From 147d598c1501c6e208bbb0047c590483397aac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 43/96] fix: order bands on whole mesh with shared memory or
 without broadcast

---
 elphmod/dispersion.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index 17fec81..0fc9348 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -387,13 +387,22 @@ def dispersion_full_nosym(matrix, size, vectors=False, order=False,
         _, o = dispersion_full(matrix, size, vectors=False, order=True,
             *args, **kwargs)
 
-        for k1 in range(size):
-            for k2 in range(size):
-                v[k1, k2] = v[k1, k2, o[k1, k2]]
+        if kwargs.get('broadcast', True):
+            node, images = elphmod.MPI.shm_split(comm,
+                kwargs.get('shared_memory', False))
+        else:
+            node = comm
 
-                if vectors:
-                    for n in range(V.shape[2]):
-                        V[k1, k2, n] = V[k1, k2, n, o[k1, k2]]
+        if node.rank == 0:
+            for k1 in range(size):
+                for k2 in range(size):
+                    v[k1, k2] = v[k1, k2, o[k1, k2]]
+
+                    if vectors:
+                        for n in range(V.shape[2]):
+                            V[k1, k2, n] = V[k1, k2, n, o[k1, k2]]
+
+        node.Barrier()
 
     # return results:
 
-- 
2.43.0


From a6aa2a248102f1f1f4ab7ea8a29e9dab6408684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:13 +0000
Subject: [PATCH 44/96] fix: adopt convention for masses from phonons with
 long-range terms

---
 elphmod/elph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index d13f340..9115178 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -260,6 +260,11 @@ class Model:
         if epmatwp is None:
             return
 
+        if ph.lr and ph.divide_mass != divide_mass:
+            info("Warning: Inconsistent 'divide_mass' in 'ph' and 'elph'!")
+            info("The value from 'ph' (%r) is used." % ph.divide_mass)
+            self.divide_mass = ph.divide_mass
+
         if comm.rank == 0:
             with open(epmatwp, 'rb') as data:
                 status = elphmod.misc.StatusBar((self.data.nbytes > 1e9)
@@ -288,12 +293,7 @@ class Model:
 
             # divide by square root of atomic masses:
 
-            if self.ph.lr and self.ph.divide_mass != divide_mass:
-                print("Warning: Inconsistent 'divide_mass' in 'ph' and 'elph'!")
-                print("The value from 'ph' (%r) is used." % self.ph.divide_mass)
-                divide_mass = self.ph.divide_mass
-
-            if divide_mass:
+            if self.divide_mass:
                 for x in range(ph.size):
                     self.data[:, x] /= np.sqrt(ph.M[x // 3])
 
-- 
2.43.0


From a70da2d5d6c1968dced2e996bf2f4cebb8505317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:22 +0000
Subject: [PATCH 45/96] fix: save MD driver with sparse matrices

---
 elphmod/md.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 4dac4cd..9b2d217 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -846,10 +846,13 @@ class Driver:
         interactive = self.interactive
         self.interactive = False
 
-        comms = self.node, self.images
+        if hasattr(self, 'node'):
+            comms = self.node, self.images
 
-        del self.node
-        del self.images
+            del self.node
+            del self.images
+        else:
+            comms = None
 
         if not self.sparse:
             elph_comms = self.elph.node, self.elph.images
@@ -861,7 +864,8 @@ class Driver:
 
         self.interactive = interactive
 
-        self.node, self.images = comms
+        if comms is not None:
+            self.node, self.images = comms
 
         if not self.sparse:
             self.elph.node, self.elph.images = elph_comms
-- 
2.43.0


From c8581cbbff8fc1b6221cc31058fe50f25590b000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:22 +0000
Subject: [PATCH 46/96] fix: derive forces from free energy with excited
 carriers

---
 elphmod/md.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 9b2d217..0b54a14 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -266,6 +266,9 @@ class Driver:
         E += self.mu * self.n # mu N
         E -= prefactor * self.kT * self.f.entropy(self.e / self.kT).sum() # T S
 
+        if self.f is elphmod.occupations.two_fermi_dirac: # (muc - muv) nx
+            E += 2 * self.kT * self.f.d * self.nx
+
         E += 0.5 * self.u.dot(self.C0[0].real).dot(self.u)
 
         E += self.F0.dot(self.u)
-- 
2.43.0


From c83e02b632850852b7e16b7ae8e8bcbf69b21552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:39 +0000
Subject: [PATCH 47/96] fix: write NumPy scalars and lists to input files in
 Fortran format

---
 elphmod/bravais.py | 82 ++++++++++++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 29 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 218219d..3d7bf4d 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1912,6 +1912,30 @@ def read_pwi(pwi):
 
     return struct
 
+def namelist_item(key, value):
+    """Format line(s) of input file for parameter.
+
+    Parameters
+    ----------
+    key : str
+        Name of parameter.
+    value : object or list of object
+        Value(s) of parameter. For lists, an index is appended to the name.
+
+    Returns
+    -------
+    str
+        Line(s) of input file.
+    """
+    if isinstance(value, (list, tuple, np.ndarray)):
+        return ''.join(namelist_item('%s(%d)' % (key, n), item)
+            for n, item in enumerate(value, 1) if item is not None)
+
+    if isinstance(value, np.generic):
+        value = value.item()
+
+    return '%s = %r\n' % (key, value)
+
 def write_pwi(pwi, struct):
     """Write crystal structure to PWscf input file.
 
@@ -1931,7 +1955,7 @@ def write_pwi(pwi, struct):
         for key in ['title', 'prefix', 'outdir', 'pseudo_dir', 'calculation',
                 'tprnfor', 'tstress', 'nstep', 'forc_conv_thr']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('/\n')
 
@@ -1940,7 +1964,7 @@ def write_pwi(pwi, struct):
         if 'celldm' in struct:
             for i, celldm in enumerate(struct['celldm'], 1):
                 if celldm:
-                    data.write('celldm(%d) = %r\n' % (i, celldm))
+                    data.write(namelist_item('celldm(%d)' % i, celldm))
 
         for key in ['ibrav', 'ntyp', 'nat', 'a', 'b', 'c', 'cosbc', 'cosac',
                 'cosab', 'ecutwfc', 'ecutrho', 'nbnd', 'occupations',
@@ -1949,7 +1973,7 @@ def write_pwi(pwi, struct):
                 'tot_magnetization', 'starting_magnetization', 'space_group',
                 'uniqueb', 'origin_choice', 'rhombohedral']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('/\n')
 
@@ -1959,7 +1983,7 @@ def write_pwi(pwi, struct):
                 'diago_full_acc', 'mixing_beta', 'startingpot', 'startingwfc',
                 'scf_must_converge']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('/\n')
 
@@ -1968,7 +1992,7 @@ def write_pwi(pwi, struct):
 
             for key in ['ion_dynamics', 'upscale']:
                 if key in struct:
-                    data.write('%s = %r\n' % (key, struct[key]))
+                    data.write(namelist_item(key, struct[key]))
 
             data.write('/\n')
 
@@ -1978,7 +2002,7 @@ def write_pwi(pwi, struct):
                 for key in ['cell_dynamics', 'cell_dofree', 'press',
                         'press_conv_thr']:
                     if key in struct:
-                        data.write('%s = %r\n' % (key, struct[key]))
+                        data.write(namelist_item(key, struct[key]))
 
                 data.write('/\n')
 
@@ -2174,14 +2198,14 @@ def write_win(win, struct):
     with open(win, 'w') as data:
         for key in ['num_bands', 'num_wann']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
         for key in ['dis_win_min', 'dis_win_max',
                 'dis_froz_min', 'dis_froz_max']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
@@ -2195,13 +2219,13 @@ def write_win(win, struct):
 
         for key in ['write_hr', 'bands_plot']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
         for key in ['dis_num_iter', 'num_iter', 'search_shells']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
@@ -2270,26 +2294,26 @@ def write_ph(ph, struct):
 
         for key in ['prefix', 'outdir']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
         for key in ['fildyn', 'fildvscf']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
         for key in ['ldisp', 'nq1', 'nq2', 'nq3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
         for key in ['tr2_ph', 'alpha_mix', 'cdfpt', 'subspace',
                 'cdfpt_bnd', 'cdfpt_orb']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('/\n')
 
@@ -2326,7 +2350,7 @@ def write_q2r(q2r, struct):
 
         for key in ['fildyn', 'flfrc', 'zasr']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('/\n')
 
@@ -2386,7 +2410,7 @@ def write_matdyn(matdyn, struct):
         for key in ['flfrc', 'flfrq', 'fldos', 'fleig', 'flvec', 'asr',
                 'loto_2d', 'q_in_band_form', 'q_in_cryst_coord']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('/\n')
         data.write('%d\n' % struct['nq'])
@@ -2455,80 +2479,80 @@ def write_epw(epw, struct):
 
         for key in ['prefix', 'outdir', 'dvscf_dir']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
         for key in ['wannierize', 'elph']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
         for key in ['epbwrite', 'epwwrite']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
         for key in ['epbread', 'epwread']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
         for key in ['use_ws', 'nbndsub', 'bands_skipped']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
         for key in ['dis_win_min', 'dis_win_max',
                 'dis_froz_min', 'dis_froz_max']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
         if 'proj' in struct:
             for n, value in enumerate(struct['proj'], 1):
                 if value:
-                    data.write('proj(%d) = %r\n' % (n, value))
+                    data.write(namelist_item('proj(%d)' % n, value))
 
         data.write('\n')
 
         for key in ['num_iter']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         if 'wdata' in struct:
             for n, value in enumerate(struct['wdata'], 1):
                 if value:
-                    data.write('wdata(%d) = %r\n' % (n, value))
+                    data.write(namelist_item('wdata(%d)' % n, value))
 
         data.write('\n')
 
         for key in ['nk1', 'nk2', 'nk3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
         for key in ['nq1', 'nq2', 'nq3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
         for key in ['nkf1', 'nkf2', 'nkf3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('\n')
 
         for key in ['nqf1', 'nqf2', 'nqf3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                data.write(namelist_item(key, struct[key]))
 
         data.write('/')
         data.write('\n')
-- 
2.43.0


From 14b393b43f02add1689347a578ea90c108454c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:39 +0000
Subject: [PATCH 48/96] fix: do not change lattice constants passed to
 primitives

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 3d7bf4d..76a4366 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -95,7 +95,7 @@ def primitives(ibrav=8, a=1.0, b=1.0, c=1.0, cosbc=0.0, cosac=0.0, cosab=0.0,
             celldm[3] = cosab
 
     if not bohr:
-        celldm[0] *= elphmod.misc.a0
+        celldm = [celldm[0] * elphmod.misc.a0, *celldm[1:]]
 
     if ibrav == 0: # free
         if r_cell is None or cell_units is None:
-- 
2.43.0


From acf73a33ac945c2b2f187930a35623e5a12e6f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:34 +0000
Subject: [PATCH 49/96] fix: size of square Brillouin zone outline

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 76a4366..48348f9 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1801,7 +1801,7 @@ def BZ(angle=120, angle0=0):
 
     elif angle == 90:
         M = [(1, 1), (-1, 1), (-1, -1), (1, -1), (1, 1)]
-        outline = np.array([k1 * b1 + k2 * b2 for k1, k2 in M])
+        outline = np.array([k1 * b1 + k2 * b2 for k1, k2 in M]) / 2
 
     elif angle == 120:
         K = [(1, 1), (-1, 2), (-2, 1), (-1, -1), (1, -2), (2, -1), (1, 1)]
-- 
2.43.0


From b42baa425c113129cc6824e1bc1a07ebae2a8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:34 +0000
Subject: [PATCH 50/96] fix: consider third dimension in test for point on path

---
 elphmod/bravais.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 48348f9..38df363 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2619,8 +2619,7 @@ def point_on_path(test_point, point_A, point_B, eps=1e-14):
         dot = np.dot(point_B - point_A, test_point - point_A)
 
         if dot >= 0:
-            squared_distance = (
-                (point_B - point_A)[0] ** 2 + (point_B - point_A)[1] ** 2)
+            squared_distance = np.dot(point_B - point_A, point_B - point_A)
 
             if dot <= squared_distance:
                 #'The test point is between A and B'
-- 
2.43.0


From e2dea396594ad6dbf01464d048e8e8cd84abcb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 51/96] fix: read Wannier90 input independent of delimiter and
 case

---
 elphmod/bravais.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 38df363..b826fff 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2067,9 +2067,7 @@ def read_win(win):
 
         with open(win) as lines:
             for line in lines:
-                words = [word
-                    for column in line.split()
-                    for word in column.split('=') if word]
+                words = line.replace('=', ' ').replace(':', ' ').split()
 
                 if not words:
                     continue
@@ -2111,18 +2109,22 @@ def read_win(win):
                     struct[key] = mp_grid
 
                 elif key == 'begin':
+                    words[1] = words[1].lower()
+
                     if words[1] == 'projections':
                         # create sub-dict for projections
                         # complicated solution
                         # not able to save different wannier centres
                         # order of projections not preserved
                         proj_dict = dict()
-                        while 'end' not in words:
-                            words = next(lines)
-                            if 'end' in words:
-                                continue
-                            else:
-                                atom_pos, orbital = words.split(':', 1)
+                        while True:
+                            line = next(lines).strip()
+
+                            if line.lower().startswith('end'):
+                                break
+
+                            if line:
+                                atom_pos, orbital = line.split(':', 1)
                                 proj_dict[atom_pos.strip()] = orbital.strip()
 
                         struct['proj'] = proj_dict
@@ -2133,7 +2135,7 @@ def read_win(win):
                         while True:
                             line = next(lines).strip()
 
-                            if line.startswith('end'):
+                            if line.lower().startswith('end'):
                                 break
 
                             struct['kpoint_path'].append(line)
@@ -2153,7 +2155,7 @@ def read_win(win):
                         words = next(lines).split()
                         # get nat from lines
                         tmp = []
-                        while 'end' != words[0]:
+                        while 'end' != words[0].lower():
                             tmp.append(words)
                             words = next(lines).split()
                         nat = len(tmp)
-- 
2.43.0


From 176b5b1c3f279f39d55d2033b69f4a02fb4cb0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 52/96] fix: write Wannier90 input without optional blocks

---
 elphmod/bravais.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index b826fff..5f64ac0 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2211,7 +2211,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        if struct['proj']:
+        if struct.get('proj'):
             data.write('begin projections\n')
             for key, value in struct['proj'].items():
                 data.write('%s: %s\n' % (key, value))
@@ -2219,7 +2219,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        for key in ['write_hr', 'bands_plot']:
+        for key in ['write_hr', 'bands_plot', 'wannier_plot']:
             if key in struct:
                 data.write(namelist_item(key, struct[key]))
 
@@ -2231,7 +2231,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        if struct['kpoint_path']:
+        if struct.get('kpoint_path'):
             data.write('begin kpoint_path\n')
             for line in struct['kpoint_path']:
                 data.write('%s\n' % line)
@@ -2258,10 +2258,11 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        data.write('begin kpoints\n')
-        for (kx, ky, kz, wk) in struct['kpoints']:
-            data.write('%12.9f %12.9f %12.9f %12.9f\n' % (kx, ky, kz, wk))
-        data.write('end kpoints\n')
+        if 'kpoints' in struct:
+            data.write('begin kpoints\n')
+            for (kx, ky, kz, wk) in struct['kpoints']:
+                data.write('%12.9f %12.9f %12.9f %12.9f\n' % (kx, ky, kz, wk))
+            data.write('end kpoints\n')
 
 def read_ph(filename):
     """Read input parameters from Quantum ESPRESSO's ``ph.x`` input file.
-- 
2.43.0


From eb72fe7a418e0de1f01411ba5aadd253127d4eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 53/96] fix: read matdyn.x input with slashes in file names or
 without q points

---
 elphmod/bravais.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 5f64ac0..ca0da71 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2370,16 +2370,24 @@ def read_matdyn(filename):
     dict
         Input parameters.
     """
+    import re
+
     struct = elphmod.misc.read_input_data(filename, broadcast=False)
 
     if comm.rank == 0:
         with open(filename) as lines:
             for line in lines:
+                # ignore slashes in strings and comments:
+
+                line = re.sub(r'\'[^\']*\'|"[^"]*"|!.*', '', line)
+
                 if '/' in line:
                     for line in lines:
                         words = line.split()
                         if words:
                             break
+                    else:
+                        break
 
                     struct['nq'] = int(words[0])
                     struct['q'] = np.empty((struct['nq'], 4))
-- 
2.43.0


From df874ee8ba8f859700e414badc0678651c928fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 54/96] fix: read units of PWscf input cards in any kind of
 brackets

---
 elphmod/bravais.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index ca0da71..4101a49 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1822,6 +1822,8 @@ def read_pwi(pwi):
     dict
         Input data and crystal structure.
     """
+    import re
+
     struct = elphmod.misc.read_input_data(pwi, broadcast=False)
 
     if comm.rank == 0:
@@ -1831,7 +1833,7 @@ def read_pwi(pwi):
 
         with open(pwi) as lines:
             for line in lines:
-                words = [word for word in line.split() if word]
+                words = re.sub(r'[{}()]', ' ', line).split()
 
                 if not words:
                     continue
@@ -1854,8 +1856,7 @@ def read_pwi(pwi):
                     if len(words) == 1:
                         struct['coords'] = 'alat'
                     else:
-                        struct['coords'] = ''.join(c for c in words[1].lower()
-                            if c not in '{ }')
+                        struct['coords'] = words[1].lower()
 
                     print("Read crystal structure in units '%s'"
                         % struct['coords'])
@@ -1879,7 +1880,8 @@ def read_pwi(pwi):
                                 struct['r'][n, x] = float(words[1 + x])
 
                 elif key == 'k_points':
-                    struct['ktyp'] = words[1].lower()
+                    struct['ktyp'] = 'tpiba' if len(words) == 1 else (
+                        words[1].lower())
 
                     if 'automatic' in struct['ktyp']:
                         struct[key] = list(map(int, next(lines).split()[:6]))
-- 
2.43.0


From b7ebed6dcdc65926c2feeee2f5e518726dff0d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 55/96] fix: read VASP structure without selective dynamics

---
 elphmod/bravais.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 4101a49..11b6334 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2601,8 +2601,10 @@ def readPOSCAR(filename):
 
         numbers = list(map(int, next(POSCAR).split()))
 
-        next(POSCAR)
-        next(POSCAR)
+        # skip optional line "Selective dynamics":
+
+        if next(POSCAR).strip()[:1].lower() == 's':
+            next(POSCAR)
 
         atoms = dict()
 
-- 
2.43.0


From f9be83d3b9ceb647d652abaef504b37da2dfe011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 56/96] fix: consider scaling factor of VASP structure

---
 elphmod/bravais.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 11b6334..7f9c947 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2597,6 +2597,13 @@ def readPOSCAR(filename):
         t2 = np.array(list(map(float, next(POSCAR).split())))
         t3 = np.array(list(map(float, next(POSCAR).split())))
 
+        if a < 0: # negative values denote cell volume
+            a = (-a / volume(t1, t2, t3)) ** (1 / 3)
+
+        t1 *= a
+        t2 *= a
+        t3 *= a
+
         elements = next(POSCAR).split()
 
         numbers = list(map(int, next(POSCAR).split()))
-- 
2.43.0


From b9a167dfdc6e4e1f6e24dc8f472ad2523a67dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 57/96] fix: order of data written in XCrySDen format

---
 elphmod/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 00df691..54dcb0e 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -464,8 +464,8 @@ def write_xsf(xsf, r0, a, X, tau, data, only_header=False, comm=comm):
             for i in range(3):
                 text.write('%12.7f %11.7f %11.7f\n' % tuple(a[i]))
 
-            if not only_header:
-                for i, value in enumerate(data.flat, 1):
+            if not only_header: # first index runs fastest
+                for i, value in enumerate(np.transpose(data).flat, 1):
                     text.write('%13.5e' % value)
 
                     if not i % 6 or i == data.size:
-- 
2.43.0


From ef95fb7923c552e8b0bac051185a732d141542fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 58/96] fix: find extremum of parabola through points passed as
 arguments

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 54dcb0e..39b0939 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -776,7 +776,7 @@ def minimum(*args):
     """
     if len(args) == 6:
         x1, x2, x3, y1, y2, y3 = args
-    if len(sys.argv) == 7:
+    elif len(sys.argv) == 7:
         x1, x2, x3, y1, y2, y3 = list(map(float, sys.argv[1:]))
     else:
         raise SystemExit('Usage: minimum x1 x2 x3 y1 y2 y3')
-- 
2.43.0


From 6c56acc605a4e150493d5dc57c2935a740c053ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 59/96] fix: read namelists with exclamation or other quotation
 marks in strings

---
 elphmod/misc.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 39b0939..b955f6e 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -526,24 +526,21 @@ def read_namelists(filename):
     with open(filename) as data:
         text = data.read()
 
-    # remove comments:
-
-    text = re.sub(r'!.*$', '', text, flags=re.MULTILINE)
-
-    # protect string (which might contain spaces):
+    # remove comments and protect strings (which might contain spaces):
 
     groups = []
 
     def replace(match):
+        if match.group(0).startswith('!'):
+            return ''
+
         groups.append(match.group(0))
         return '___%d___' % len(groups)
 
     def place(match):
         return groups[int(match.group(0).strip('_')) - 1]
 
-    count = 1
-    while count:
-        text, count = re.subn(r'\'[^\'"]*\'|"[^\'"]*"', replace, text)
+    text = re.sub(r'!.*|\'[^\'\n]*\'|"[^"\n]*"', replace, text)
 
     # parse all namelists:
 
@@ -574,9 +571,7 @@ def read_namelists(filename):
                     data[name][key].append(None)
 
             elif key is not None and item != '=':
-                count = 1
-                while count:
-                    item, count = re.subn(r'___\d+___', place, item)
+                item = re.sub(r'___\d+___', place, item)
 
                 if re.match(r'(\'.*\'|".*")$', item):
                     item = item[1:-1]
-- 
2.43.0


From 5ecc1c71242a8b99aecb1de5cf338c47fac55fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:32 +0000
Subject: [PATCH 60/96] fix: read namelists with spaces around array indices

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index b955f6e..1b5f844 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -552,7 +552,7 @@ def read_namelists(filename):
         data[name] = dict()
 
         content = re.sub(r'=', ' = ', content)
-        content = re.sub(r'\s+\(', '(', content)
+        content = re.sub(r'\s*\(\s*(\d+)\s*\)', r'(\1)', content)
         items = re.split(r'[;,\s]+', content)
 
         key = None
-- 
2.43.0


From d14aa4d81c849b62eac4b09563f30d581710dc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 61/96] fix: read parameters of Wyckoff positions

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 7f9c947..337f2d4 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1874,7 +1874,7 @@ def read_pwi(pwi):
                         struct['at'].append(words[0])
 
                         if 'crystal_sg' in struct['coords']:
-                            struct['r'].append(words[1])
+                            struct['r'].append(' '.join(words[1:]))
                         else:
                             for x in range(3):
                                 struct['r'][n, x] = float(words[1 + x])
-- 
2.43.0


From a4531a360892bbe85ed099e9db08a95c5268ecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:35 +0000
Subject: [PATCH 62/96] fix: read energies from PW output without Fermi level

---
 elphmod/el.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 0a70a7e..74b9bdf 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1324,7 +1324,7 @@ def read_Fermi_level(pw_scf_out):
 def read_pwo(pw_scf_out):
     """Read energies from PW output file."""
 
-    Ne = Ns = Nk = E = None
+    Ne = Ns = Nk = E = eF = None
     e_given = False
 
     if comm.rank == 0:
@@ -1367,8 +1367,11 @@ def read_pwo(pw_scf_out):
                     except ValueError:
                         pass
 
-        if e_given and eF is not None:
-            e = np.array(e) - eF
+        if e_given:
+            e = np.array(e)
+
+            if eF is not None:
+                e -= eF
 
     Ne = comm.bcast(Ne)
     Ns = comm.bcast(Ns)
-- 
2.43.0


From 6f19ffb4655a2d0c5000977178c9ab9441ff8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:35 +0000
Subject: [PATCH 63/96] fix: allow for array of band indices in energy
 contributions

---
 elphmod/el.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 74b9bdf..8826fd8 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1562,7 +1562,7 @@ def eband(pw_scf_out, subset=None):
     nk, nbnd = energies.shape
     eband = np.zeros(energies.shape)
 
-    if subset == None:
+    if subset is None:
         for ik in range(nk):
             # weights wk
             wk = kpoints[ik, 3]
@@ -1602,7 +1602,7 @@ def demet_from_qe_pwo(pw_scf_out, subset=None):
 
     f = elphmod.occupations.smearing(smearing_type)
 
-    if subset == None:
+    if subset is None:
         for ik in range(nk):
             wk = kpoints[ik, 3]
             for iband in range(nbnd):
-- 
2.43.0


From bd474aaa0128293734fa33112eacc287478d9c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:35 +0000
Subject: [PATCH 64/96] fix: read charge density for any Bravais lattice and
 number of grid points

---
 elphmod/el.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 8826fd8..49120b0 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1813,9 +1813,8 @@ def read_pp_density(filename):
         kin_energy_cutoff = float(tmp[2])
 
         # calculate unit cell and brillouin zone volume
-        A = elphmod.bravais.primitives(ibrav)
-        A[2, 2] = celldm[2]
-        uc_volume = np.linalg.det(A) * celldm[0] ** 3
+        A = elphmod.bravais.primitives(ibrav, celldm=celldm, bohr=True)
+        uc_volume = abs(np.linalg.det(A))
 #        B1, B2, B3 = elphmod.bravais.reciprocals(*A)
 #        B = np.stack((B1, B2, B3), axis=0)
 #        print(B)
@@ -1835,14 +1834,12 @@ def read_pp_density(filename):
         # read rho table
         # total number of real-space grid points:
         nr_points = np.prod(FFT_dim[:3])
-        # separated into columns of 5:
-        if divmod(nr_points, 5)[1] != 0:
-            print('Warning: Total number of grid points is not divisible by 5!')
-        rho = table(divmod(nr_points, 5)[0])
+        # separated into columns of 5 (last line may be incomplete):
+        rho = np.array([float(word) for line in data for word in line.split()])
 
         tot_charge = rho.sum() / nr_points * uc_volume
 
-        rho = rho.reshape(np.prod(FFT_dim[:3]))
+        rho = rho.reshape(nr_points)
 
         return rho, tot_charge
 
-- 
2.43.0


From 14124313309c73f497efe87e718fd83fb32b9d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:42 +0000
Subject: [PATCH 65/96] fix: sort bands by their own average energy

---
 elphmod/dispersion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index 0fc9348..1543f78 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -508,7 +508,8 @@ def band_order(v, V, by_mean=True, dv=float('inf'), eps=1e-10, status=True):
             bar.update()
 
     if by_mean:
-        o[:] = o[:, sorted(range(bands), key=lambda i: v[:, o[:, i]].sum())]
+        o[:] = o[:, sorted(range(bands),
+            key=lambda i: v[range(points), o[:, i]].sum())]
 
     return o
 
-- 
2.43.0


From e5d3104163d0ba57ccc69ebafa17348c1aa16c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:34 +0000
Subject: [PATCH 66/96] fix: sign of wave vector in dynamical matrix of
 graphene

---
 elphmod/models/graphene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/models/graphene.py b/elphmod/models/graphene.py
index a7aadf6..de6db04 100644
--- a/elphmod/models/graphene.py
+++ b/elphmod/models/graphene.py
@@ -75,7 +75,7 @@ def dynamical_matrix(q1=0, q2=0, q3=0):
 
     C = np.empty((6, 6), dtype=complex)
 
-    C[3:, :3] = K1 * np.exp(1j * q1) + K2 + K3 * np.exp(-1j * q2)
+    C[3:, :3] = K1 * np.exp(-1j * q1) + K2 + K3 * np.exp(1j * q2)
     C[:3, :3] = (L1 * np.exp(1j * q1) + L2 * np.exp(1j * q2)
         + L3 * np.exp(-1j * (q1 + q2)))
     C[:3, :3] += C[:3, :3].conj()
-- 
2.43.0


From 4c27517477c47da5e862c1710492af89c26e6eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:17 +0000
Subject: [PATCH 67/96] fix: order of band indices of coupling in tetrahedron
 method

---
 elphmod/eliashberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/eliashberg.py b/elphmod/eliashberg.py
index 6401a42..162ea7b 100644
--- a/elphmod/eliashberg.py
+++ b/elphmod/eliashberg.py
@@ -120,7 +120,7 @@ def McMillan(nq, e, w2, g2, eps=1e-10, mustar=0.0, tetra=False, kT=0.025,
                         E[:, :, m])(0)
 
                     for (k1, k2), weight in intersections.items():
-                        g2dd[iq] += weight * g2_fun(k1, k2)[:, n, m]
+                        g2dd[iq] += weight * g2_fun(k1, k2)[:, m, n]
                         dd[iq] += weight
 
         N0 = 0
-- 
2.43.0


From 5b8be64e0c26e27bfee8ce057b49f2ee2ea2a7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:58 +0000
Subject: [PATCH 68/96] fix: interpolate Brillouin-zone data for angles other
 than 120 degrees

---
 elphmod/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index 87c4983..61c206c 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -277,7 +277,7 @@ def toBZ(data=None, points=1000,
 
     ndata, nk, nk = data.shape
 
-    fun = list(map(interpolation, data))
+    fun = [interpolation(mesh, angle=180 - angle) for mesh in data]
 
     sizes, bounds = elphmod.MPI.distribute(nky * nkx, bounds=True)
 
-- 
2.43.0


From 9ed2174b9e35d0f131a16597181046ba97b3823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:58 +0000
Subject: [PATCH 69/96] fix: show whole Brillouin zone of rotated square
 lattice

---
 elphmod/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index 61c206c..ff85e3c 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -241,7 +241,7 @@ def toBZ(data=None, points=1000,
         M = 2 / 3
 
     elif angle == 90:
-        a3 = a1
+        a3 = abs(a1) + abs(a2)
         b3 = b1
         M = 1 / 2
 
-- 
2.43.0


From fa35df25418aec62ecb830b2143d0196cd51cf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:58 +0000
Subject: [PATCH 70/96] fix: do not truncate interpolated integers in plots

---
 elphmod/plot.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index ff85e3c..06b0c1e 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -45,7 +45,9 @@ def plot(mesh, kxmin=-1.0, kxmax=1.0, kymin=-1.0, kymax=1.0, resolution=100,
 
     sizes, bounds = elphmod.MPI.distribute(nky * nkx, bounds=True)
 
-    my_image = np.empty(sizes[comm.rank], dtype=mesh.dtype)
+    dtype = np.result_type(mesh.dtype, float)
+
+    my_image = np.empty(sizes[comm.rank], dtype=dtype)
 
     status = elphmod.misc.StatusBar(sizes[comm.rank], title='plot')
 
@@ -61,7 +63,7 @@ def plot(mesh, kxmin=-1.0, kxmax=1.0, kymin=-1.0, kymax=1.0, resolution=100,
         status.update()
 
     if broadcast or comm.rank == 0:
-        image = np.empty((nky, nkx), dtype=mesh.dtype)
+        image = np.empty((nky, nkx), dtype=dtype)
     else:
         image = None
 
@@ -105,7 +107,9 @@ def double_plot(mesh, q, nq, qxmin=-0.8, qxmax=0.8, qymin=-0.8, qymax=0.8,
 
     sizes, bounds = elphmod.MPI.distribute(nqy * nqx, bounds=True)
 
-    my_image = np.empty(sizes[comm.rank], dtype=mesh.dtype)
+    dtype = np.result_type(mesh.dtype, float)
+
+    my_image = np.empty(sizes[comm.rank], dtype=dtype)
 
     status = elphmod.misc.StatusBar(sizes[comm.rank], title='double plot')
 
@@ -135,7 +139,7 @@ def double_plot(mesh, q, nq, qxmin=-0.8, qxmax=0.8, qymin=-0.8, qymax=0.8,
         status.update()
 
     if broadcast or comm.rank == 0:
-        image = np.empty((nqy, nqx), dtype=mesh.dtype)
+        image = np.empty((nqy, nqx), dtype=dtype)
     else:
         image = None
 
-- 
2.43.0


From b64a3fd44b34cab1fed6f31f82478a152dd38eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:58 +0000
Subject: [PATCH 71/96] fix: colorbar at lower edge of image

---
 elphmod/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index 06b0c1e..151ae11 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -190,7 +190,7 @@ def colorbar(image, left=0.02, bottom=0.02, width=0.03, height=0.30,
 
     x1 = int(round(image_width * left))
     x2 = int(round(image_width * (left + width)))
-    y1 = int(round(image_height * (1 - bottom)))
+    y1 = min(int(round(image_height * (1 - bottom))), image_height - 1)
     y2 = int(round(image_height * (1 - bottom - height)))
 
     if minimum is None:
-- 
2.43.0


From e80471c937b1096ed2aed35c28e68dbcd907df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:58 +0000
Subject: [PATCH 72/96] fix: do not change colormap

---
 elphmod/plot.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index 151ae11..d70f01a 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -409,10 +409,13 @@ def color(data, cmap=None, minimum=None, maximum=None, comm=comm):
     if maximum is None:
         maximum = np.nanmax(data)
 
+    x_orig = list(cmap.x)
+
     for n, x in enumerate(cmap.x):
         if type(x) is str:
             cmap.x[n] = (float(x) - minimum) / (maximum - minimum)
 
+    data = np.asarray(data)
     data = (data - minimum) / (maximum - minimum)
 
     data = np.maximum(data, 0) # Avoid that data slightly exceeds [0, 1]
@@ -431,6 +434,8 @@ def color(data, cmap=None, minimum=None, maximum=None, comm=comm):
         my_image[my_i] = cmap(data[i]).RGB()
         status.update()
 
+    cmap.x[:] = x_orig
+
     image = np.empty((*shape, 3))
 
     comm.Allgatherv(my_image, (image, sizes * 3))
-- 
2.43.0


From d8e026d244f675ef2f2a6eda71a5ad11aabe88b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:26 +0000
Subject: [PATCH 73/96] fix: do not modify displacements passed to MD driver

---
 elphmod/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 0b54a14..9f17a2a 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -253,7 +253,7 @@ class Driver:
             t0 = time.time()
 
         if u is not None:
-            self.u = u
+            self.u = np.array(u, dtype=float)
 
         self.diagonalize()
 
-- 
2.43.0


From 585f663e5344370feb4100e1dcfd009f376a390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:47 +0000
Subject: [PATCH 74/96] fix: make interpolate_dynamical_matrices run again

---
 elphmod/ph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index f3672ca..19cf68d 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -2053,6 +2053,8 @@ def interpolate_dynamical_matrices(D, q, nq, fildyn_template, fildyn, flfrc,
     for iq, (q1, q2) in enumerate(q):
         q_cart.append(q1 * b1 + q2 * b2)
 
+    q_cart = np.array(q_cart)
+
     # write 'fildyn0' with information about q-point mesh:
 
     if write_fildyn0:
@@ -2067,7 +2069,7 @@ def interpolate_dynamical_matrices(D, q, nq, fildyn_template, fildyn, flfrc,
             D[:, group(na), :] *= np.sqrt(amass[na])
             D[:, :, group(na)] *= np.sqrt(amass[na])
 
-    sizes, bounds = MPI.distribute(len(q), bounds=True)
+    sizes, bounds = elphmod.MPI.distribute(len(q), bounds=True)
 
     for iq in range(*bounds[comm.rank:comm.rank + 2]):
         fildynq = fildyn + str(iq + 1)
-- 
2.43.0


From 4c4c8a7445a405586bdd912cce60f8c71fed63b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:04 +0000
Subject: [PATCH 75/96] fix: let stored dynamical matrices follow reordered and
 shifted atoms

---
 elphmod/ph.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 19cf68d..da66be8 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -792,6 +792,12 @@ class Model:
         if self.Q is not None:
             self.Q = self.Q[order]
 
+        if self.D0 is not None:
+            indices = np.arange(self.size).reshape((self.nat, 3))
+            indices = indices[order].flatten()
+
+            self.D0 = self.D0[:, indices][:, :, indices]
+
         if self.lr:
             self.prepare_long_range()
 
@@ -840,6 +846,13 @@ class Model:
         self.r = np.array(self.r, dtype=float)
         self.r[s] += np.dot(S, self.a)
 
+        if self.D0 is not None:
+            phase = np.ones((len(self.q0), self.nat, 3), dtype=complex)
+            phase[:, s] = np.exp(1j * np.dot(self.q0, S))[:, None, None]
+            phase = phase.reshape((len(self.q0), self.size))
+
+            self.D0 = phase[:, :, None] * self.D0 * phase[:, None, :].conj()
+
     def standardize(self, eps=0.0, symmetrize=False):
         r"""Standardize mass-spring data.
 
-- 
2.43.0


From b1d5e6dfb8143713a9e55b035d6d043b4c26a703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:07 +0000
Subject: [PATCH 76/96] fix: correct Hessian of all q points by acoustic sum of
 q = 0

---
 elphmod/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 9f17a2a..a2349be 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -438,7 +438,7 @@ class Driver:
             corr = C.sum(axis=3)
 
             for na in range(self.elph.ph.nat):
-                C[:, na, :, na, :] -= corr[:, na]
+                C[:, na, :, na, :] -= corr[0, na]
 
             C = C.reshape((nq, self.elph.ph.size, self.elph.ph.size))
 
-- 
2.43.0


From 1722960027dfaa117b38328eaa9a1fe70dac24bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:00 +0000
Subject: [PATCH 77/96] fix: do not count long-range force constants twice in
 molecular dynamics

---
 elphmod/md.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index a2349be..0917020 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -163,7 +163,12 @@ class Driver:
             if unscreen:
                 self.elph.ph = copy.copy(self.elph.ph)
 
-                elphmod.ph.q2r(self.elph.ph, nq=self.nq, D_full=self.C0,
+                D = self.C0
+
+                if self.elph.ph.lr:
+                    D = D - elphmod.dispersion.sample(self.elph.ph.D_lr, self.q)
+
+                elphmod.ph.q2r(self.elph.ph, nq=self.nq, D_full=D,
                     divide_mass=False)
 
             elph = self.elph.supercell(*supercell, sparse=True)
@@ -518,11 +523,21 @@ class Driver:
             Mass-spring model for the phonons.
         """
         ph = copy.deepcopy(self.elph.ph)
-        ph.divide_mass = divide_mass
         ph.r += self.u.reshape((-1, 3))
 
-        elphmod.ph.q2r(ph, D_full=self.hessian(gamma_only=False), nq=self.nq,
-            divide_mass=False, **kwargs)
+        D = self.hessian(gamma_only=False)
+
+        if ph.lr:
+            ph.prepare_long_range()
+
+            D = D - elphmod.dispersion.sample(ph.D_lr, self.q)
+
+        ph.divide_mass = divide_mass
+
+        elphmod.ph.q2r(ph, D_full=D, nq=self.nq, divide_mass=False, **kwargs)
+
+        if ph.lr:
+            ph.prepare_long_range()
 
         return ph
 
-- 
2.43.0


From bb7f66eeab851531dba96876281f55041e89df78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:53 +0000
Subject: [PATCH 78/96] fix: respect positions of orbitals in long-range
 coupling of supercells

---
 elphmod/elph.py | 49 ++++++++++++++++++++++++++++++++++---------------
 elphmod/ph.py   |  7 +++++--
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 9115178..d79f1a5 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -82,6 +82,8 @@ class Model:
         Rk-dependent coupling for above q point for possible reuse.
     cells : list of tuple of int, optional
         Lattice vectors of unit cells if the model describes a supercell.
+    origins : ndarray
+        Cartesian positions of (innermost) unit cells where orbitals are located.
     g0 : ndarray
         Coupling on original q and k meshes.
     Rk0 : int
@@ -143,10 +145,9 @@ class Model:
             comm.Allreduce(my_g, self.gq)
 
             if self.ph.lr:
-                g_lr = self.g_lr(q1, q2, q3)
-
-                for a in range(self.el.size):
-                    self.gq[:, self.Rk0, a, a] += g_lr
+                for n, a in enumerate(self.unit_cell_orbitals()):
+                    self.gq[:, self.Rk0, a, a] += self.g_lr(q1, q2, q3,
+                        self.origins[n])[:, np.newaxis]
 
         Rl, Ru = elphmod.MPI.distribute(nRk, bounds=True,
             comm=comm)[1][comm.rank:comm.rank + 2]
@@ -195,10 +196,19 @@ class Model:
 
         return g
 
-    def g_lr(self, q1=0, q2=0, q3=0):
-        """Calculate long-range part of electron-phonon coupling."""
+    def unit_cell_orbitals(self):
+        """Get indices of orbitals in each unit cell in :attr:`origins`."""
+
+        return np.arange(self.el.size).reshape((len(self.origins), -1))
 
-        factor, vector = self.ph.generate_long_range(q1, q2, q3, perp=False)
+    def g_lr(self, q1=0, q2=0, q3=0, origin=0.0):
+        """Calculate long-range part of electron-phonon coupling.
+
+        Since it does not depend on the position of an orbital within the unit
+        cell, `origin` is the position of the unit cell (see :attr:`origins`).
+        """
+        factor, vector = self.ph.generate_long_range(q1, q2, q3, perp=False,
+            origin=origin)
 
         return np.einsum('g,gi->i', factor, vector)
 
@@ -236,6 +246,7 @@ class Model:
         self.divide_ndegen = divide_ndegen
 
         self.cells = [(0, 0, 0)]
+        self.origins = np.zeros((1, 3))
 
         # read lattice vectors within Wigner-Seitz cell:
 
@@ -367,16 +378,19 @@ class Model:
         g = elphmod.MPI.SharedArray(self.g0.shape, dtype=complex,
             shared_memory=shared_memory)
 
-        g_lr = elphmod.dispersion.sample(self.g_lr, self.ph.q0)
-
-        for _ in range(len(self.el.nk)):
-            g_lr = g_lr[..., np.newaxis]
-
         if comm.rank == 0:
             g[...] = self.g0[...]
 
-            for a in range(self.el.size):
-                g[..., a, a] -= g_lr
+        for n, orbitals in enumerate(self.unit_cell_orbitals()):
+            g_lr = elphmod.dispersion.sample(self.g_lr, self.ph.q0,
+                origin=self.origins[n])
+
+            for _ in range(len(self.el.nk)):
+                g_lr = g_lr[..., np.newaxis]
+
+            if comm.rank == 0:
+                for a in orbitals:
+                    g[..., a, a] -= g_lr
 
         g.Bcast()
 
@@ -421,6 +435,8 @@ class Model:
 
         supercell = elphmod.bravais.supercell(N1, N2, N3)
         elph.cells = supercell[-1]
+        elph.origins = np.reshape([np.dot(cell, self.ph.a) + self.origins
+            for cell in elph.cells], (-1, 3))
 
         elph.divide_mass = self.divide_mass
         elph.divide_ndegen = self.divide_ndegen
@@ -434,7 +450,10 @@ class Model:
                 for x in range(elph.ph.size)]
 
             if elph.ph.lr and comm.rank == 0:
-                g_lr = elph.g_lr().real
+                g_lr = np.transpose([elph.g_lr(origin=origin).real
+                    for origin in elph.origins])
+
+                g_lr = g_lr.repeat(elph.el.size // len(elph.origins), axis=1)
 
                 for x in range(elph.ph.size):
                     elph.gs[x].setdiag(g_lr[x])
diff --git a/elphmod/ph.py b/elphmod/ph.py
index da66be8..d3925e0 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -416,7 +416,8 @@ class Model:
                 if self.Q is not None:
                     self.q[na] /= np.sqrt(self.M[na])
 
-    def generate_long_range(self, q1=0, q2=0, q3=0, perp=None, eps=1e-10):
+    def generate_long_range(self, q1=0, q2=0, q3=0, perp=None, eps=1e-10,
+            origin=0.0):
         r"""Generate long-range terms.
 
         Parameters
@@ -427,6 +428,8 @@ class Model:
             Yield out-of-plane terms? Defaults to attribute :attr:`perp`.
         eps : float
             Tolerance for vanishing lattice vectors.
+        origin : ndarray
+            Position relative to which the phases are defined.
 
         Returns
         -------
@@ -474,7 +477,7 @@ class Model:
             else:
                 factor /= KeK
 
-        exp = np.exp(-1j * np.einsum('gx,nx->gn', K, self.r))
+        exp = np.exp(-1j * np.einsum('gx,nx->gn', K, self.r - origin))
         exp = exp[:, :, np.newaxis]
 
         dot = 1j * np.einsum('ge,neu->gnu', K, self.z) # we use zeu, not zue
-- 
2.43.0


From b975923b29f5372f29f771591f2f1a4b476042d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:02 +0000
Subject: [PATCH 79/96] fix: read VASP structure with separate blocks of same
 element

---
 elphmod/bravais.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 337f2d4..9b05bd9 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2616,10 +2616,15 @@ def readPOSCAR(filename):
         atoms = dict()
 
         for element, number in zip(elements, numbers):
-            atoms[element] = np.empty((number, 3))
+            r = np.empty((number, 3))
 
             for n in range(number):
-                atoms[element][n] = list(map(float, next(POSCAR).split()[:3]))
+                r[n] = list(map(float, next(POSCAR).split()[:3]))
+
+            if element in atoms: # blocks of same element not adjacent
+                r = np.concatenate((atoms[element], r))
+
+            atoms[element] = r
 
     return t1, t2, t3, atoms
 
-- 
2.43.0


From 3217197f822baf88832f07ed789f2f41ac324992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:02 +0000
Subject: [PATCH 80/96] fix: return completed data as documented

---
 elphmod/bravais.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 9b05bd9..874b3b3 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -644,7 +644,7 @@ def complete(data, angle=60):
     # return if the data is already complete:
 
     if len(irreducible) == data.size:
-        return
+        return data
 
     # test which expected lattice symmetries are fulfilled and fill the gaps:
 
@@ -653,7 +653,9 @@ def complete(data, angle=60):
             data[tuple(image[k])] = data[k]
 
         if not np.isnan(data).any():
-            return
+            break
+
+    return data
 
 def complete_k(wedge, nq):
     """Calculate k dependence for equivalent q points.
-- 
2.43.0


From 282c2279fdb1a6578fc7dd26513ea939c64c6ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:47 +0000
Subject: [PATCH 81/96] fix: skip bands below offset when reading coupling

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index d79f1a5..f69d279 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1179,7 +1179,7 @@ def coupling(filename, nQ, nmodes, nk, bands, Q=None, nq=None, offset=0,
                 ibnd -= offset
                 jbnd -= offset
 
-                if ibnd >= bands or jbnd >= bands:
+                if not (0 <= ibnd < bands and 0 <= jbnd < bands):
                     continue
 
                 indices = n, nu, k1, k2, ibnd, jbnd
-- 
2.43.0


From 672df4cf16dae01400ed401a30270085b8d4c050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:28 +0000
Subject: [PATCH 82/96] fix: read charge density with title or without
 Bravais-lattice index

---
 elphmod/el.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 49120b0..4b73bec 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1797,6 +1797,9 @@ def read_pp_density(filename):
         def table(rows):
             return np.array([list(map(float, cells())) for row in range(rows)])
 
+        # skip title
+        next(data)
+
         # read FFT dimensions, ntyp, nat
         tmp = cells()
 #        FFT_dim = list(map(int, tmp[:3]))
@@ -1808,12 +1811,16 @@ def read_pp_density(filename):
         ibrav = int(tmp[:1][0])
         celldm = list(map(float, tmp[1:]))
 
+        # read lattice vectors if not defined by ibrav
+        r_cell = None if ibrav else table(3) * celldm[0]
+
         # read unknown line
         tmp = cells()
         kin_energy_cutoff = float(tmp[2])
 
         # calculate unit cell and brillouin zone volume
-        A = elphmod.bravais.primitives(ibrav, celldm=celldm, bohr=True)
+        A = elphmod.bravais.primitives(ibrav, celldm=celldm, bohr=True,
+            r_cell=r_cell, cell_units='bohr')
         uc_volume = abs(np.linalg.det(A))
 #        B1, B2, B3 = elphmod.bravais.reciprocals(*A)
 #        B = np.stack((B1, B2, B3), axis=0)
-- 
2.43.0


From 2b45a4f657d8cd0af63e3ba004b33f1be2db226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:57 +0000
Subject: [PATCH 83/96] fix: allow integer arguments of Heaviside delta
 functions

---
 elphmod/occupations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/occupations.py b/elphmod/occupations.py
index 85aa34f..0b97e7f 100644
--- a/elphmod/occupations.py
+++ b/elphmod/occupations.py
@@ -301,7 +301,7 @@ def heaviside(x):
 def heaviside_delta(x):
     """Calculate negative derivative of (reflected) Heaviside function."""
 
-    delta = np.copy(x)
+    delta = np.array(x, dtype=float)
 
     zero = delta == 0
 
@@ -313,7 +313,7 @@ def heaviside_delta(x):
 def heaviside_delta_prime(x):
     """Calculate negative 2nd derivative of (reflected) Heaviside function."""
 
-    delta_prime = np.copy(x)
+    delta_prime = np.array(x, dtype=float)
 
     zero = delta_prime == 0
 
-- 
2.43.0


From 1d62235daf78aafe28a12d3a3ca914f84029a9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:32 +0000
Subject: [PATCH 84/96] fix: calculate integration weights for integer sample
 points

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 1b5f844..07b51c6 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -232,7 +232,7 @@ def differential(x):
     ndarray
         Integration Weights.
     """
-    dx = np.empty_like(x)
+    dx = np.empty_like(x, dtype=np.result_type(x, float))
 
     dx[0] = x[1] - x[0]
     dx[1:-1] = x[2:] - x[:-2]
-- 
2.43.0


From 8a664307c89ae792e051fdf1821455bf74bc78b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:25 +0000
Subject: [PATCH 85/96] fix: read doubled quotation marks in namelist strings

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 07b51c6..5b46ac0 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -574,7 +574,7 @@ def read_namelists(filename):
                 item = re.sub(r'___\d+___', place, item)
 
                 if re.match(r'(\'.*\'|".*")$', item):
-                    item = item[1:-1]
+                    item = item[1:-1].replace(2 * item[0], item[0])
                 elif re.search('[Tt]', item):
                     item = True
                 elif re.search('[Ff]', item):
-- 
2.43.0


From 90952eec0c52dbd02acc9923e20ca8b5fd469bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:25 +0000
Subject: [PATCH 86/96] fix: read repeat counts in namelists

---
 elphmod/misc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 5b46ac0..912f08c 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -571,6 +571,9 @@ def read_namelists(filename):
                     data[name][key].append(None)
 
             elif key is not None and item != '=':
+                r, item = re.match(r'(?:(\d+)\*)?(.*)', item).groups()
+                r = int(r) if r else 1
+
                 item = re.sub(r'___\d+___', place, item)
 
                 if re.match(r'(\'.*\'|".*")$', item):
@@ -588,8 +591,8 @@ def read_namelists(filename):
                         except ValueError:
                             pass
 
-                data[name][key][n:n + 1] = [item]
-                n += 1
+                data[name][key][n:n + r] = [item] * r
+                n += r
 
         for key, value in data[name].items():
             if len(value) == 1:
-- 
2.43.0


From 243b1defb9ea92ea15286a7a810e6ed6f7eaf88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:25 +0000
Subject: [PATCH 87/96] fix: read elements of multidimensional arrays in
 namelists

---
 elphmod/misc.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 912f08c..3ba980c 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -540,6 +540,9 @@ def read_namelists(filename):
     def place(match):
         return groups[int(match.group(0).strip('_')) - 1]
 
+    def join(match):
+        return '(%s)' % '_'.join(re.findall(r'\d+', match.group(0)))
+
     text = re.sub(r'!.*|\'[^\'\n]*\'|"[^"\n]*"', replace, text)
 
     # parse all namelists:
@@ -552,7 +555,7 @@ def read_namelists(filename):
         data[name] = dict()
 
         content = re.sub(r'=', ' = ', content)
-        content = re.sub(r'\s*\(\s*(\d+)\s*\)', r'(\1)', content)
+        content = re.sub(r'\s*\(\s*\d+(\s*,\s*\d+)*\s*\)', join, content)
         items = re.split(r'[;,\s]+', content)
 
         key = None
@@ -561,8 +564,13 @@ def read_namelists(filename):
                 continue
 
             if '=' in items[i + 1:i + 2]:
-                key, n = re.match(r'([^(]*)[( ]*(\d*)', item.lower()).groups()
-                n = int(n) - 1 if n else 0
+                key, n = re.match(r'([^(]*)[( ]*([\d_]*)', item.lower()).groups()
+
+                if '_' in n: # element of multidimensional array
+                    key = '%s(%s)' % (key, n.replace('_', ','))
+                    n = 0
+                else:
+                    n = int(n) - 1 if n else 0
 
                 if not key in data[name]:
                     data[name][key] = []
-- 
2.43.0


From a8154d701bbd0353697b8615059f8cc839ba1e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:01 +0000
Subject: [PATCH 88/96] fix: write strings with backslashes or mixed quotation
 marks to namelists

---
 elphmod/bravais.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 874b3b3..a7f08a5 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1938,6 +1938,9 @@ def namelist_item(key, value):
     if isinstance(value, np.generic):
         value = value.item()
 
+    if isinstance(value, str):
+        return "%s = '%s'\n" % (key, value.replace("'", "''"))
+
     return '%s = %r\n' % (key, value)
 
 def write_pwi(pwi, struct):
-- 
2.43.0


From 9215406d84b6d9eb3aa5bda565c9299b09f94b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:31 +0000
Subject: [PATCH 89/96] fix: skip comments and blank lines in cards of PWscf
 input files

---
 elphmod/bravais.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index a7f08a5..785a2d5 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1833,7 +1833,9 @@ def read_pwi(pwi):
             if key in struct and not isinstance(struct[key], list):
                 struct[key] = [struct[key]]
 
-        with open(pwi) as lines:
+        with open(pwi) as data:
+            lines = (line for line in data if re.match(r'\s*[^\s!#]', line))
+
             for line in lines:
                 words = re.sub(r'[{}()]', ' ', line).split()
 
@@ -1888,7 +1890,7 @@ def read_pwi(pwi):
                     if 'automatic' in struct['ktyp']:
                         struct[key] = list(map(int, next(lines).split()[:6]))
                     elif 'gamma' not in struct['ktyp']:
-                        struct['nks'] = int(next(lines))
+                        struct['nks'] = int(next(lines).split()[0])
                         struct[key] = np.empty((struct['nks'], 4))
 
                         for n in range(struct['nks']):
-- 
2.43.0


From b60efc8823a4a287b090b7fcb8e037cbf3787bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:31 +0000
Subject: [PATCH 90/96] fix: skip comments and blank lines in blocks of
 Wannier90 input files

---
 elphmod/bravais.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 785a2d5..9e4df91 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2071,10 +2071,15 @@ def read_win(win):
     dict
         Crystal structure.
     """
+    import re
+
     if comm.rank == 0:
         struct = dict()
 
-        with open(win) as lines:
+        with open(win) as data:
+            lines = (line.strip() for line in re.sub(r'[!#].*', '',
+                data.read()).splitlines() if line.strip())
+
             for line in lines:
                 words = line.replace('=', ' ').replace(':', ' ').split()
 
@@ -2127,14 +2132,13 @@ def read_win(win):
                         # order of projections not preserved
                         proj_dict = dict()
                         while True:
-                            line = next(lines).strip()
+                            line = next(lines)
 
                             if line.lower().startswith('end'):
                                 break
 
-                            if line:
-                                atom_pos, orbital = line.split(':', 1)
-                                proj_dict[atom_pos.strip()] = orbital.strip()
+                            atom_pos, orbital = line.split(':', 1)
+                            proj_dict[atom_pos.strip()] = orbital.strip()
 
                         struct['proj'] = proj_dict
 
@@ -2142,7 +2146,7 @@ def read_win(win):
                         struct['kpoint_path'] = []
 
                         while True:
-                            line = next(lines).strip()
+                            line = next(lines)
 
                             if line.lower().startswith('end'):
                                 break
-- 
2.43.0


From 5f1eb22aceb075f57f42e949f07fcf38b889dcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:31 +0000
Subject: [PATCH 91/96] fix: read k points preceding mesh size in Wannier90
 input files

---
 elphmod/bravais.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 9e4df91..58f3ee6 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2182,14 +2182,18 @@ def read_win(win):
                                 struct['atoms'][n, x] = float(tmp[n][1 + x])
 
                     elif words[1] == 'kpoints':
-                        nk = int(np.prod(mp_grid))
-                        struct['kpoints'] = np.zeros((nk, 4))
+                        kpoints = []
 
-                        for n in range(nk):
+                        while True:
                             words = next(lines).split()
 
-                            for x in range(len(words)):
-                                struct['kpoints'][n, x] = float(words[x])
+                            if words[0].lower() == 'end':
+                                break
+
+                            kpoints.append(list(map(float, words))
+                                + [0.0] * (4 - len(words)))
+
+                        struct['kpoints'] = np.array(kpoints)
     else:
         struct = None
 
-- 
2.43.0


From 34a210d6fe228fc12d5908fd6f2a4711d551a7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:31 +0000
Subject: [PATCH 92/96] fix: read units of lengths in Wannier90 input files

---
 elphmod/bravais.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 58f3ee6..d9b670a 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2156,16 +2156,32 @@ def read_win(win):
                     elif words[1] == 'unit_cell_cart':
                         struct['unit_cell'] = np.empty((3, 3))
 
-                        for n in range(3):
+                        words = next(lines).split()
+                        unit = None
+
+                        if len(words) == 1: # line with unit
+                            unit = words[0].lower()
                             words = next(lines).split()
 
+                        for n in range(3):
                             for x in range(3):
                                 struct['unit_cell'][n, x] = float(words[x])
 
+                            words = next(lines).split()
+
+                        if unit == 'bohr':
+                            struct['unit_cell'] *= elphmod.misc.a0
+
                     # read atoms_frac or atoms_cart
                     elif words[1].startswith('atoms_'):
                         struct['atoms_coords'] = words[1][6:len(words[1])]
                         words = next(lines).split()
+                        unit = None
+
+                        if len(words) == 1: # line with unit
+                            unit = words[0].lower()
+                            words = next(lines).split()
+
                         # get nat from lines
                         tmp = []
                         while 'end' != words[0].lower():
@@ -2181,6 +2197,9 @@ def read_win(win):
                             for x in range(3):
                                 struct['atoms'][n, x] = float(tmp[n][1 + x])
 
+                        if unit == 'bohr':
+                            struct['atoms'] *= elphmod.misc.a0
+
                     elif words[1] == 'kpoints':
                         kpoints = []
 
-- 
2.43.0


From 5f1ab2705a3dfdcddd48d5eab87d723abdd36139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:26 +0000
Subject: [PATCH 93/96] fix: read names of empty namelists

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 3ba980c..84256a3 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -549,7 +549,7 @@ def read_namelists(filename):
 
     data = dict()
 
-    for namelist in re.finditer(r'&(\w+)(.+?)/', text, flags=re.DOTALL):
+    for namelist in re.finditer(r'&(\w+)(.*?)/', text, flags=re.DOTALL):
         name, content = namelist.groups()
         name = name.lower()
         data[name] = dict()
-- 
2.43.0


From fa0c970ced4cbba2f20899f7e556c4567e3fef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:42 +0000
Subject: [PATCH 94/96] fix: refuse frequency sampling on given communicator
 only

---
 elphmod/diagrams.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 2d16bf6..e0505ac 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -1451,12 +1451,14 @@ def green_kubo_conductivity(v, A, omega, kT=0.025, eps=1e-10, occupations='fd',
         domega = omega[1] - omega[0]
 
         if np.any(abs(np.diff(omega) - domega) > eps):
-            info('Frequency sampling must be equidistant!', error=True)
+            info('Frequency sampling must be equidistant!', error=True,
+                comm=comm)
 
         iw0 = np.argmin(abs(omega))
 
         if abs(omega[iw0]) > eps:
-            info('Frequency sampling should include zero!', error=True)
+            info('Frequency sampling should include zero!', error=True,
+                comm=comm)
 
         f = occupations(x)
 
-- 
2.43.0


From 5dab6f53bc4a3b9e4c734065919a654d62f816b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:43 +0000
Subject: [PATCH 95/96] fix: refuse incomplete irreducible q points

---
 elphmod/ph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index d3925e0..dca33d9 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1894,6 +1894,7 @@ def q2r(ph, D_irr=None, q_irr=None, nq=None, D_full=None, angle=60,
         ph.nat = ph.size // 3
 
         D_full = np.empty((nq, nq, ph.size, ph.size), dtype=complex)
+        found = np.zeros((nq, nq), dtype=bool)
 
         def rotation(phi, n=1):
             block = np.array([
@@ -1947,6 +1948,13 @@ def q2r(ph, D_irr=None, q_irr=None, nq=None, D_full=None, angle=60,
                     D_full[+Q1 % nq, +Q2 % nq] = D
                     D_full[-Q1 % nq, -Q2 % nq] = D.conj()
 
+                    found[+Q1 % nq, +Q2 % nq] = True
+                    found[-Q1 % nq, -Q2 % nq] = True
+
+        if not found.all():
+            info('Irreducible q points do not cover the whole mesh!',
+                error=True)
+
     if nq is None:
         nq = D_full.shape[:-2]
     elif not hasattr(nq, '__len__'):
-- 
2.43.0


From 15a052d6cf95ea71193d6fb7634a0a113f6d99fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:48 +0000
Subject: [PATCH 96/96] fix: keep lattice vectors shared with others when
 standardizing coupling

---
 elphmod/elph.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index f69d279..81f4858 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -638,15 +638,8 @@ class Model:
         ng = comm.bcast(ng)
         nk = comm.bcast(nk)
 
-        if ng <= len(self.Rg):
-            self.Rg = self.Rg[:ng]
-        else:
-            self.Rg = np.empty((ng, 3), dtype=int)
-
-        if nk <= len(self.Rk):
-            self.Rk = self.Rk[:nk]
-        else:
-            self.Rk = np.empty((nk, 3), dtype=int)
+        self.Rg = np.empty((ng, 3), dtype=int)
+        self.Rk = np.empty((nk, 3), dtype=int)
 
         shape = ng, self.ph.size, nk, self.el.size, self.el.size
 
-- 
2.43.0

