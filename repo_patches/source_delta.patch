From 0e13984572695f7ddaa809bf8db0e8a17c57373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:04 +0000
Subject: [PATCH 01/39] fix: shm_split: only involve given communicator in
 warning

Without support for shared memory, shm_split(comm=...) called by only a part
of all processes blocked in the barrier of the world communicator.
---
 elphmod/MPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/MPI.py b/elphmod/MPI.py
index 7431d23..af1aff2 100644
--- a/elphmod/MPI.py
+++ b/elphmod/MPI.py
@@ -168,7 +168,7 @@ def shm_split(comm=comm, shared_memory=True):
     """
     if not shared_memory or MPI.COMM_TYPE_SHARED == MPI.UNDEFINED:
         if shared_memory and comm.size > 1:
-            info('Shared memory not implemented')
+            info('Shared memory not implemented', comm=comm)
 
         return I, comm
 
-- 
2.43.0


From 96c2a1bdfa5be2b72e95f8ab9ef4ef71b84852f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:04 +0000
Subject: [PATCH 02/39] fix: SharedArray.Bcast: only wait for processes that
 share the array

An array shared within a subgroup of processes waited for all processes.
---
 elphmod/MPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/MPI.py b/elphmod/MPI.py
index af1aff2..e81ea3b 100644
--- a/elphmod/MPI.py
+++ b/elphmod/MPI.py
@@ -269,7 +269,7 @@ class SharedArray(np.ndarray):
         if self.node.rank == 0:
             self.images.Bcast(self)
 
-        comm.Barrier()
+        self.node.Barrier()
 
 class Buffer:
     """Wrapper for ``pickle`` in parallel context.
-- 
2.43.0


From 67b185972bbb176e710d673e0065909da501aa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:22 +0000
Subject: [PATCH 03/39] fix: dispersion: pick wave vector from set of Voronoi
 images if rotate

---
 elphmod/dispersion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index fc36400..64c5d8c 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -123,8 +123,8 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
             # rotate phonon eigenvectors by negative angle of k point:
 
             if rotate:
-                k1, k2 = elphmod.bravais.to_Voronoi(*my_k[point, :2],
-                    nk=2 * np.pi, angle=angle)[0]
+                k1, k2 = min(elphmod.bravais.to_Voronoi(*my_k[point, :2],
+                    nk=2 * np.pi, angle=angle))
 
                 x, y = k1 * b1 + k2 * b2
                 phi = np.arctan2(y, x)
-- 
2.43.0


From 578ff95856530ef20c6fcef24b4fa5a239f8725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:22 +0000
Subject: [PATCH 04/39] fix: dispersion: fill shared band order instead of
 replacing it

---
 elphmod/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index 64c5d8c..1fb8591 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -168,7 +168,7 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
             dtype=int, **memory)
 
         if comm.rank == 0:
-            o = band_order(v, V, **order_kwargs)
+            o[...] = band_order(v, V, **order_kwargs)
 
             for point in range(points):
                 v[point] = v[point, o[point]]
-- 
2.43.0


From 084d53b865d779c306dc3f5bfee4d6a3f059e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 05/39] fix: dispersion_full_nosym: apply band order only once
 per array

---
 elphmod/dispersion.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index 1fb8591..cfe1e42 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -387,13 +387,21 @@ def dispersion_full_nosym(matrix, size, vectors=False, order=False,
         _, o = dispersion_full(matrix, size, vectors=False, order=True,
             *args, **kwargs)
 
-        for k1 in range(size):
-            for k2 in range(size):
-                v[k1, k2] = v[k1, k2, o[k1, k2]]
+        # apply order once per array (none without broadcast, shared memory):
 
-                if vectors:
-                    for n in range(V.shape[2]):
-                        V[k1, k2, n] = V[k1, k2, n, o[k1, k2]]
+        node, images = elphmod.MPI.shm_split(comm,
+            kwargs.get('shared_memory', False))
+
+        if comm.rank == 0 or node.rank == 0 and kwargs.get('broadcast', True):
+            for k1 in range(size):
+                for k2 in range(size):
+                    v[k1, k2] = v[k1, k2, o[k1, k2]]
+
+                    if vectors:
+                        for n in range(V.shape[2]):
+                            V[k1, k2, n] = V[k1, k2, n, o[k1, k2]]
+
+        node.Barrier()
 
     # return results:
 
-- 
2.43.0


From 6af22f80c30fe879fb20e56c73c02b70c91189b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 06/39] fix: standardize: keep array shapes if all matrix
 elements vanish

---
 elphmod/el.py   | 5 +++--
 elphmod/elel.py | 5 +++--
 elphmod/ph.py   | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 4fe9485..ec36a46 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -559,8 +559,9 @@ class Model:
             cells = sorted(list(const.keys()))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells]).reshape((-1,
+                self.size, self.size))
 
             if symmetrize:
                 self.data /= 2
diff --git a/elphmod/elel.py b/elphmod/elel.py
index 9425112..3a8974c 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -249,8 +249,9 @@ class Model:
             cells = sorted(list(const.keys()))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells]).reshape((-1,
+                self.size, self.size))
         else:
             count = None
 
diff --git a/elphmod/ph.py b/elphmod/ph.py
index 0a7ba49..4819bbe 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -882,8 +882,9 @@ class Model:
             cells = sorted(list(const.keys()))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells]).reshape((-1,
+                self.size, self.size))
 
             if symmetrize:
                 self.data /= 2
-- 
2.43.0


From 30bcb77115188e206d7c3333da05931cb7e1925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:15 +0000
Subject: [PATCH 07/39] fix: unit_cell: do not invert lattice for left-handed
 supercell

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 4819bbe..d45af46 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -696,7 +696,7 @@ class Model:
         B1 = np.cross(self.N[1], self.N[2])
         B2 = np.cross(self.N[2], self.N[0])
         B3 = np.cross(self.N[0], self.N[1])
-        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / len(self.cells)
+        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / np.dot(self.N[0], B1)
 
         ph.divide_mass = self.divide_mass
         ph.divide_ndegen = self.divide_ndegen
-- 
2.43.0


From 6dfd4bbe84955b26de8aea3f031e5df8ce2a878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 08/39] fix: unit_cell: account for first cell of supercell
 away from origin

---
 elphmod/el.py | 3 ++-
 elphmod/ph.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index ec36a46..478b9c7 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -425,7 +425,8 @@ class Model:
                     t = self.data[n, :el.size, i * el.size:(i + 1) * el.size]
 
                     if np.any(t != 0):
-                        R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
+                        R = tuple(np.dot(self.R[n], self.N) + np.array(cell)
+                            - np.array(self.cells[0]))
                         const[R] = t
 
                 status.update()
diff --git a/elphmod/ph.py b/elphmod/ph.py
index d45af46..7b55490 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -691,12 +691,12 @@ class Model:
         ph.nat = self.nat // len(self.cells)
         ph.M = self.M[:ph.nat]
         ph.atom_order = self.atom_order[:ph.nat]
-        ph.r = self.r[:ph.nat]
 
         B1 = np.cross(self.N[1], self.N[2])
         B2 = np.cross(self.N[2], self.N[0])
         B3 = np.cross(self.N[0], self.N[1])
         ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / np.dot(self.N[0], B1)
+        ph.r = self.r[:ph.nat] - np.dot(self.cells[0], ph.a)
 
         ph.divide_mass = self.divide_mass
         ph.divide_ndegen = self.divide_ndegen
@@ -737,7 +737,8 @@ class Model:
                     C = self.data[n, :ph.size, i * ph.size:(i + 1) * ph.size]
 
                     if np.any(C != 0):
-                        R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
+                        R = tuple(np.dot(self.R[n], self.N) + np.array(cell)
+                            - np.array(self.cells[0]))
                         const[R] = C
 
                 status.update()
-- 
2.43.0


From 776c870c333caf404b22d376e0b25e89bb72017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 09/39] fix: elph.sample: wait for data in shared memory on all
 processes

---
 elphmod/elph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 0d8b5b5..5b15e54 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -930,6 +930,8 @@ def sample(g, q, nk=None, U=None, u=None, squared=False, broadcast=True,
 
                 row.Barrier()
 
+        node.Barrier()
+
         return g
 
     if col.rank == 0:
-- 
2.43.0


From ee81bfb851753209f254f30f8c798228540c73ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 10/39] fix: elph.supercell: wait until shared data from all
 nodes are summed up

---
 elphmod/elph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 5b15e54..c0548be 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -548,6 +548,8 @@ class Model:
                 elph.images.Allreduce(elphmod.MPI.MPI.IN_PLACE,
                     elph.data[g].view(dtype=float))
 
+        elph.node.Barrier()
+
         return elph
 
     def standardize(self, eps=0.0, symmetrize=False):
-- 
2.43.0


From 84f5a0d0e3a5e7dfc872345e119d0f0711c9054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 11/39] fix: elph.supercell: add long-range part to sparse
 coupling only once

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index c0548be..c271679 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -433,7 +433,7 @@ class Model:
             elph.gs = [sparse_array((elph.el.size, elph.el.size))
                 for x in range(elph.ph.size)]
 
-            if elph.ph.lr:
+            if elph.ph.lr and comm.rank == 0:
                 g_lr = elph.g_lr().real
 
                 for x in range(elph.ph.size):
-- 
2.43.0


From 4c1cffc3171e1220f4b9d0a3061bbfd5144b12f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 12/39] fix: elph.standardize: use right number of lattice
 vectors

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index c271679..6db637f 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -626,7 +626,7 @@ class Model:
         if nk <= len(self.Rk):
             self.Rk = self.Rk[:nk]
         else:
-            self.Rk = np.empty((ng, 3), dtype=int)
+            self.Rk = np.empty((nk, 3), dtype=int)
 
         shape = ng, self.ph.size, nk, self.el.size, self.el.size
 
-- 
2.43.0


From 1850056e28be25caf3eb4e8bbbe6f666f3626c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 13/39] fix: elph: do not use cached Fourier transform of
 outdated coupling

---
 elphmod/elph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 6db637f..4d0de82 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -710,6 +710,8 @@ class Model:
         if self.node.rank == 0:
             self.images.Bcast(self.data.view(dtype=float))
 
+        self.q = None
+
         comm.Barrier()
 
     def decay_epmate(self):
@@ -1093,6 +1095,12 @@ def q2r(elph, nq, nk, g, r=None, divide_mass=True, shared_memory=False):
     if elph.node.rank == 0:
         elph.images.Bcast(elph.data.view(dtype=float))
 
+    elph.q = None
+    elph.gq = np.empty((elph.ph.size, len(elph.Rk), elph.el.size, elph.el.size),
+        dtype=complex)
+
+    elph.Rk0 = elphmod.misc.vector_index(elph.Rk, (0, 0, 0))
+
     comm.Barrier()
 
 def coupling(filename, nQ, nmodes, nk, bands, Q=None, nq=None, offset=0,
-- 
2.43.0


From 5546bc00f91e13f2da709ff11d02a339281966e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 14/39] fix: elph.standardize: decide together whether to share
 memory

---
 elphmod/elph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 4d0de82..6bd3ae7 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -636,7 +636,8 @@ class Model:
             self.data = self.data.reshape(shape)
         else:
             self.node, self.images, self.data = elphmod.MPI.shared_array(shape,
-                dtype=complex, shared_memory=self.node.size > 1)
+                dtype=complex,
+                shared_memory=bool(comm.allreduce(self.node.size > 1)))
 
         if comm.rank == 0:
             self.Rg[...] = Rg
-- 
2.43.0


From 9977d5c70dc9f0410a904fce0a9f87dd75a2d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 15/39] fix: linear_interpolation: support data with additional
 axes

---
 elphmod/bravais.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 87c9771..f753658 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -932,6 +932,11 @@ def linear_interpolation(data, angle=60, axes=(0, 1), period=None, polar=False):
 
     # make interpolant function applicable to arrays and return:
 
+    if data.ndim > len(axes):
+        return np.vectorize(interpolant, signature='%s->(%s)' % (
+            ','.join(['()'] * len(axes)),
+            ','.join('n%d' % n for n in range(data.ndim - len(axes)))))
+
     return np.vectorize(interpolant)
 
 def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
-- 
2.43.0


From 1a29442b65339a12fe3ce6d6497f08815176c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:30 +0000
Subject: [PATCH 16/39] fix: isoline: add isoline along triangle edge as single
 segment

---
 elphmod/dos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index 431dc7d..5d5bf68 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -349,7 +349,7 @@ def isoline(energies):
 
             elif B <= E < C:
                 if E == A == B:
-                    my_points.extend((tuple(i), (j)))
+                    my_points.append((tuple(i), tuple(j)))
                 else:
                     alpha = (E - B) / (C - B)
                     beta = (E - A) / (C - A)
-- 
2.43.0


From 1b7842e9d39c0a7ced7de38187cc331ccad568bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 17/39] fix: Driver.hessian: synchronize access to coupling in
 shared memory

---
 elphmod/md.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 318e200..f90279d 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -408,12 +408,16 @@ class Driver:
                 if self.node.rank == 0:
                     self.images.Bcast(self.d[iq].view(dtype=float))
 
+            comm.Barrier() # do not read self.d before it has been updated
+
             C = elphmod.diagrams.phonon_self_energy(self.q[:nq], self.e,
                 g=self.d[:nq], kT=self.kT, occupations=self.f, eps=eps)
 
             C[0] += elphmod.diagrams.phonon_self_energy_fermi_shift(self.e,
                 self.d[0], kT=self.kT, occupations=self.f)
 
+            comm.Barrier() # do not modify self.d before it has been read
+
         C += self.C0[:nq]
 
         if apply_asr_simple:
-- 
2.43.0


From bf0371abc74a4a730ce2da531973f6174aedc976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 18/39] fix: Driver.save: leave driver intact if writing fails,
 support sparse models

---
 elphmod/md.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index f90279d..d3f0162 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -834,28 +834,15 @@ class Driver:
         filename : str
             Filename for pickled representation of driver.
         """
-        interactive = self.interactive
-        self.interactive = False
-
-        comms = self.node, self.images
-
-        del self.node
-        del self.images
-
-        if not self.sparse:
-            elph_comms = self.elph.node, self.elph.images
-
-            del self.elph.node
-            del self.elph.images
-
-        elphmod.MPI.Buffer(filename).set(self)
-
-        self.interactive = interactive
+        driver = copy.copy(self)
+        driver.interactive = False
+        driver.elph = copy.copy(self.elph)
 
-        self.node, self.images = comms
+        for obj in driver, driver.elph: # communicators cannot be pickled
+            for attribute in 'node', 'images':
+                vars(obj).pop(attribute, None)
 
-        if not self.sparse:
-            self.elph.node, self.elph.images = elph_comms
+        elphmod.MPI.Buffer(filename).set(driver)
 
     @staticmethod
     def load(filename):
-- 
2.43.0


From 7eab41ae597ab30e3f3faa405a030c70d6e51903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:34 +0000
Subject: [PATCH 19/39] fix: Driver: do not share state of photoexcitation
 between drivers, save it

---
 elphmod/md.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index d3f0162..59b2d64 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -60,6 +60,9 @@ class Driver:
         Copies of initialization parameters.
     mu : float
         Current chemical potential.
+    shift : float
+        Half the splitting of the chemical potentials of photoexcited electrons
+        and holes divided by `kT`. ``None`` without photoexcitation.
     k, q : ndarray
         k and q meshes.
     u : ndarray
@@ -90,6 +93,8 @@ class Driver:
         Communicators between processes that share memory or same ``node.rank``
         if `shared_memory`.
     """
+    shift = None
+
     def __init__(self, elph, kT, f, n, nx=0.0, nk=(1,), nq=(1,),
             supercell=None, unscreen=True, shared_memory=True, **kwargs):
 
@@ -171,6 +176,21 @@ class Driver:
             self.__init__(elph, self.kT, self.f, self.n * len(elph.cells),
                 self.nx * len(elph.cells), unscreen=False, **kwargs)
 
+    @property
+    def f(self):
+        """Particle distribution as a function of energy divided by `kT`."""
+
+        f = vars(self)['f']
+
+        if self.shift is not None: # parameter of function used by all drivers
+            f.d = self.shift
+
+        return f
+
+    @f.setter
+    def f(self, f):
+        vars(self)['f'] = f
+
     def random_displacements(self, amplitude=0.01):
         """Displace atoms randomly from unperturbed positions.
 
@@ -212,7 +232,7 @@ class Driver:
                 self.e[..., int(self.n) // 2:], self.kT,
                 elphmod.occupations.fermi_dirac, self.mu)
 
-            self.f.d = (muc - muv) / (2 * self.kT)
+            self.shift = (muc - muv) / (2 * self.kT)
             self.mu = (muc + muv) / 2
         else:
             self.mu = elphmod.occupations.find_Fermi_level(self.n,
-- 
2.43.0


From f8514139ed0a1c672f92563dd4ecb35cfa8fe193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 20/39] fix: keep origin when reading cube file

---
 elphmod/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index d7a9a6e..a398269 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -283,8 +283,10 @@ def read_cube(cube, only_header=False, comm=comm):
 
     nat = comm.bcast(nat)
 
+    if comm.rank != 0:
+        r0 = np.empty(3, dtype=float)
+
     n = np.empty(3, dtype=int)
-    r0 = np.empty(3, dtype=float)
     a = np.empty((3, 3), dtype=float)
     X = np.empty(nat, dtype=int)
     tau = np.empty((nat, 3), dtype=float)
-- 
2.43.0


From 275465fa246316de378ec0ab3b57423037776f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 21/39] fix: write data of XSF file with first index running
 fastest

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index a398269..31d98a0 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -466,7 +466,7 @@ def write_xsf(xsf, r0, a, X, tau, data, only_header=False, comm=comm):
                 text.write('%12.7f %11.7f %11.7f\n' % tuple(a[i]))
 
             if not only_header:
-                for i, value in enumerate(data.flat, 1):
+                for i, value in enumerate(data.T.flat, 1):
                     text.write('%13.5e' % value)
 
                     if not i % 6 or i == data.size:
-- 
2.43.0


From 67adc3edb4f27e6766278b7a9547ee6ccf9ba47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 22/39] fix: write header of effective charges as expected when
 reading

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 7b55490..002e335 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1399,7 +1399,7 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
                 data.write('\n')
 
             if dyn:
-                data.write('\n     Effective charges\n')
+                data.write('\n     Effective charges E-U\n')
 
             for na in range(len(zeu)):
                 if dyn:
-- 
2.43.0


From 52b7232afaab043830e7a5bf08014a17722d088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 23/39] fix: read array from ASCII file using Python 3

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 6bd3ae7..05248c6 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1615,7 +1615,7 @@ def read_data(filename):
     """Read array from ASCII file."""
 
     with open(filename) as text:
-        columns = text.next().split()
+        columns = next(text).split()
         shape = tuple(map(int, columns[:-1]))
         complex_data = {'R': False, 'C': True}[columns[-1]]
 
-- 
2.43.0


From 243c34ede13bf91da8b3ec201feea11e1bff44fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 24/39] fix: write lattice constant as plain number using NumPy
 2

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 002e335..3fc3a32 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -943,7 +943,7 @@ class Model:
         species = sorted(set(self.atom_order),
             key=lambda X: self.atom_order.index(X))
 
-        alat = np.linalg.norm(self.a[0])
+        alat = float(np.linalg.norm(self.a[0]))
 
         pw = dict()
 
-- 
2.43.0


From f937202a5cf404bc871abd79721f548cf09b7b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 25/39] fix: write grid of k points as expected when reading

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index f753658..dcb06a2 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2217,7 +2217,7 @@ def write_win(win, struct):
         data.write('\n')
 
         if 'mp_grid' in struct:
-            data.write('mp_grid: %d %d %d\n' % tuple(struct['mp_grid']))
+            data.write('mp_grid = %d %d %d\n' % tuple(struct['mp_grid']))
 
         data.write('\n')
 
-- 
2.43.0


From 8c09b433930f15ccb6d74296dd45c4551d49e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 26/39] fix: read input of matdyn.x with slash in filename

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index dcb06a2..cb28fd4 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2337,7 +2337,7 @@ def read_matdyn(filename):
     if comm.rank == 0:
         with open(filename) as lines:
             for line in lines:
-                if '/' in line:
+                if line.split('!')[0].rstrip().endswith('/'):
                     for line in lines:
                         words = line.split()
                         if words:
-- 
2.43.0


From c04e2942aacbe7e6fd9ab108878977a3efe4f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 27/39] fix: read output of pw.x without Fermi level

---
 elphmod/el.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 478b9c7..b5cef1b 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1320,7 +1320,7 @@ def read_Fermi_level(pw_scf_out):
 def read_pwo(pw_scf_out):
     """Read energies from PW output file."""
 
-    Ne = Ns = Nk = E = None
+    Ne = Ns = Nk = E = eF = None
     e_given = False
 
     if comm.rank == 0:
@@ -1363,8 +1363,11 @@ def read_pwo(pw_scf_out):
                     except ValueError:
                         pass
 
-        if e_given and eF is not None:
-            e = np.array(e) - eF
+        if e_given:
+            e = np.array(e)
+
+            if eF is not None:
+                e -= eF
 
     Ne = comm.bcast(Ne)
     Ns = comm.bcast(Ns)
-- 
2.43.0


From 455370010fc7377667a70fc0f62139240b21e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 28/39] fix: treat Coulomb matrix elements missing in file as
 zero

---
 elphmod/elel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/elphmod/elel.py b/elphmod/elel.py
index 3a8974c..236ca6b 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -286,9 +286,9 @@ def read_local_Coulomb_tensor(filename, no, dd=False):
     """Read local Coulomb tensor from VASP."""
 
     if dd:
-        U = np.empty((no, no), dtype=complex)
+        U = np.zeros((no, no), dtype=complex)
     else:
-        U = np.empty((no, no, no, no), dtype=complex)
+        U = np.zeros((no, no, no, no), dtype=complex)
 
     if comm.rank == 0:
         with open(filename) as data:
@@ -314,9 +314,9 @@ def read_orbital_Coulomb_interaction(filename, nq, no, dd=False):
     """Read Coulomb interaction in orbital basis."""
 
     if dd:
-        U = np.empty((*nq, no, no), dtype=complex)
+        U = np.zeros((*nq, no, no), dtype=complex)
     else:
-        U = np.empty((*nq, no, no, no, no), dtype=complex)
+        U = np.zeros((*nq, no, no, no, no), dtype=complex)
 
     if comm.rank == 0:
         with open(filename) as data:
-- 
2.43.0


From e5fb8eab231b01d394d65bb9f4f70500fe22d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:08 +0000
Subject: [PATCH 29/39] fix: do not fill gaps in incomplete data files with
 arbitrary numbers

---
 elphmod/el.py   | 4 ++--
 elphmod/elph.py | 6 +++---
 elphmod/misc.py | 2 +-
 elphmod/ph.py   | 6 +++---
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index b5cef1b..7dfa0bd 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -666,7 +666,7 @@ def read_hrdat(seedname, divide_ndegen=True):
     nrpts = comm.bcast(nrpts)
 
     cells = np.empty((nrpts, 3), dtype=int)
-    const = np.empty((nrpts, num_wann, num_wann), dtype=complex)
+    const = np.full((nrpts, num_wann, num_wann), np.nan, dtype=complex)
 
     if comm.rank == 0:
         # read lattice vectors and hopping constants:
@@ -1403,7 +1403,7 @@ def read_wannier90_eig_file(seedname, num_bands, nkpts):
         Kohn-Sham energies: ``eig[num_bands, nkpts]``.
 
     """
-    eig = np.empty((num_bands, nkpts))
+    eig = np.full((num_bands, nkpts), np.nan)
 
     f = open(seedname + '.eig', 'r')
     lines = f.readlines()
diff --git a/elphmod/elph.py b/elphmod/elph.py
index 05248c6..26c2a11 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1342,8 +1342,8 @@ def read_prtgkk(epw_out, nq, nmodes, nk, nbnd):
     ndarray
         Electron-phonon coupling (meV).
     """
-    w = np.empty((nq, nmodes))
-    g = np.empty((nq, nmodes, nk, nbnd, nbnd))
+    w = np.full((nq, nmodes), np.nan)
+    g = np.full((nq, nmodes, nk, nbnd, nbnd), np.nan)
 
     if comm.rank == 0:
         iq = -1
@@ -1619,7 +1619,7 @@ def read_data(filename):
         shape = tuple(map(int, columns[:-1]))
         complex_data = {'R': False, 'C': True}[columns[-1]]
 
-        data = np.empty(shape, dtype=complex if complex_data else float)
+        data = np.full(shape, np.nan, dtype=complex if complex_data else float)
 
         ndim = len(shape)
 
diff --git a/elphmod/misc.py b/elphmod/misc.py
index 31d98a0..9e205c1 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -313,7 +313,7 @@ def read_cube(cube, only_header=False, comm=comm):
         return r0, a, X, tau, tuple(n)
 
     if comm.rank == 0:
-        data = np.empty(np.prod(n))
+        data = np.full(np.prod(n), np.nan)
 
         i = 0
         for line in lines:
diff --git a/elphmod/ph.py b/elphmod/ph.py
index 3fc3a32..0e101eb 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -242,9 +242,9 @@ class Model:
                             ((q, D), amass, at, tau, atom_order,
                                 alph, epsil, zeu) = read_flfrc(fildyn)
 
-                            q0 = np.empty((*nq, 3), dtype=float)
-                            D0 = np.empty((*nq, 3 * len(amass), 3 * len(amass)),
-                                dtype=complex)
+                            q0 = np.full((*nq, 3), np.nan)
+                            D0 = np.full((*nq, 3 * len(amass), 3 * len(amass)),
+                                np.nan, dtype=complex)
 
                         if divide_mass:
                             divide_by_mass(D, amass)
-- 
2.43.0


From d6b781fc4608a85eb1b5cd4eee6d64bb3612f8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:47 +0000
Subject: [PATCH 30/39] fix: transform Coulomb interaction to band basis on
 single process

---
 elphmod/elel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/elphmod/elel.py b/elphmod/elel.py
index 236ca6b..83e129f 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -496,9 +496,12 @@ def orbital2band(U, H, nq, nk, band=0, status=False, share=False, dd=False):
     # Chunk-wise scattering to overcome MPI's array-length limit of 2^32 - 1:
     # (adapted from L. Dalcin's reply to 'Gatherv seg fault?' on Google Groups)
 
-    chunk = elphmod.MPI.MPI.UNSIGNED_CHAR.Create_contiguous(10).Commit()
-    comm.Scatterv((points, sizes, chunk), (my_points, chunk))
-    chunk.Free()
+    if comm.size > 1:
+        chunk = elphmod.MPI.MPI.UNSIGNED_CHAR.Create_contiguous(10).Commit()
+        comm.Scatterv((points, sizes, chunk), (my_points, chunk))
+        chunk.Free()
+    else:
+        my_points[...] = points
 
     # transform from orbital to band basis:
     #
-- 
2.43.0


From 601e3d434fbafc800a4b3d57e2bc921f2905f1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:47 +0000
Subject: [PATCH 31/39] fix: print message on incompatible q meshes once

---
 elphmod/elel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elel.py b/elphmod/elel.py
index 83e129f..30210bf 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -439,7 +439,7 @@ def orbital2band(U, H, nq, nk, band=0, status=False, share=False, dd=False):
     nqC, nqC, no, no, no, no = U.shape
 
     if nqC % nq:
-        print('Output q mesh must be subset of input q mesh!')
+        elphmod.misc.info('Output q mesh must be subset of input q mesh!')
         return
 
     # get eigenvectors of Hamiltonian:
-- 
2.43.0


From 6e1a7a3b2a36c4b8275014d6cc88a84e016b9b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 32/39] fix: do not overwrite coupling when taking squared
 modulus

---
 elphmod/elph.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 26c2a11..cb88a49 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -910,8 +910,7 @@ def sample(g, q, nk=None, U=None, u=None, squared=False, broadcast=True,
                             gqk = np.einsum('xab,xu->uab', gqk, u[iq])
 
                         if squared:
-                            gqk *= gqk.conj()
-                            gqk = gqk.real
+                            gqk = (gqk * gqk.conj()).real
 
                         my_g[my_iq, :, K1, K2, K3, :, :] = gqk
 
@@ -995,8 +994,7 @@ def transform(g, q, nk, U=None, u=None, squared=False, broadcast=True,
                     gqk = np.einsum('xab,xu->uab', gqk, u[iq])
 
                 if squared:
-                    gqk *= gqk.conj()
-                    gqk = gqk.real
+                    gqk = (gqk * gqk.conj()).real
 
                 my_g[my_iq, :, k1, k2, :, :] = gqk
 
-- 
2.43.0


From 2a1884a18b4f94baea529dd779722aa86ab9f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 33/39] fix: elph.q2r: reject standardized coupling on all
 processes

---
 elphmod/elph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index cb88a49..b2120ac 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1044,6 +1044,10 @@ def q2r(elph, nq, nk, g, r=None, divide_mass=True, shared_memory=False):
 
     g = np.reshape(g, (*nq, elph.ph.size, *nk, elph.el.size, elph.el.size))
 
+    if r is None and elph.divide_ndegen and (
+            elph.dk is None or elph.dg is None):
+        info('Standardized coupling has no Wigner-Seitz cell!', error=True)
+
     M = np.mgrid[:elph.ph.size, :elph.el.size, :elph.el.size].reshape((3, -1)).T
 
     sizes, bounds = elphmod.MPI.distribute(len(M), bounds=True)
-- 
2.43.0


From 83c4de2f6944691786b3d4e47eced534cd4a1cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 34/39] fix: green_kubo_conductivity: wait for own group only
 when rejecting input

---
 elphmod/diagrams.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 5e96149..2a3e7af 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -1453,12 +1453,14 @@ def green_kubo_conductivity(v, A, omega, kT=0.025, eps=1e-10, occupations='fd',
         domega = omega[1] - omega[0]
 
         if np.any(abs(np.diff(omega) - domega) > eps):
-            info('Frequency sampling must be equidistant!', error=True)
+            info('Frequency sampling must be equidistant!', error=True,
+                comm=comm)
 
         iw0 = np.argmin(abs(omega))
 
         if abs(omega[iw0]) > eps:
-            info('Frequency sampling should include zero!', error=True)
+            info('Frequency sampling should include zero!', error=True,
+                comm=comm)
 
         f = occupations(x)
 
-- 
2.43.0


From d7b591a45e0915a0ed1d98614e047fee7343482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:58 +0000
Subject: [PATCH 35/39] fix: elph.Model: remember how coupling was actually
 divided by masses

---
 elphmod/elph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index b2120ac..d2f7477 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -249,6 +249,11 @@ class Model:
                 = elphmod.bravais.read_wigner_file(wigner,
                     old_ws=old_ws, nat=ph.nat)
 
+        if epmatwp is not None and ph.lr and ph.divide_mass != divide_mass:
+            info("Warning: Inconsistent 'divide_mass' in 'ph' and 'elph'!")
+            info("The value from 'ph' (%r) is used." % ph.divide_mass)
+            self.divide_mass = ph.divide_mass
+
         # read coupling in Wannier basis from EPW output:
         # ('epmatwp' allocated and printed in 'ephwann_shuffle.f90')
 
@@ -288,12 +293,7 @@ class Model:
 
             # divide by square root of atomic masses:
 
-            if self.ph.lr and self.ph.divide_mass != divide_mass:
-                print("Warning: Inconsistent 'divide_mass' in 'ph' and 'elph'!")
-                print("The value from 'ph' (%r) is used." % self.ph.divide_mass)
-                divide_mass = self.ph.divide_mass
-
-            if divide_mass:
+            if self.divide_mass:
                 for x in range(ph.size):
                     self.data[:, x] /= np.sqrt(ph.M[x // 3])
 
-- 
2.43.0


From 160201d543dcc2e5e43df9067c288eefc581665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:58 +0000
Subject: [PATCH 36/39] fix: MPI.load: broadcast data from Fortran-ordered file
 correctly

---
 elphmod/MPI.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/MPI.py b/elphmod/MPI.py
index e81ea3b..d3c31ce 100644
--- a/elphmod/MPI.py
+++ b/elphmod/MPI.py
@@ -349,6 +349,8 @@ def load(filename, shared_memory=False, txt=False, comm=comm):
         except IOError:
             data = np.empty(0)
 
+        data = np.asarray(data, order='C')
+
         shape = data.shape
         dtype = data.dtype
     else:
-- 
2.43.0


From f53e6544af2fbe7581f8ea0d7a89213a2389ea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:55 +0000
Subject: [PATCH 37/39] fix: write_flfrc: keep different masses of atoms with
 same symbol

Atoms with the same symbol were all given the mass of the first one, which
depended on the hash order of the process, upon reading the file.
---
 elphmod/ph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 0e101eb..a0d85e3 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1308,8 +1308,8 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
     """
     dyn = isinstance(phid, tuple)
 
-    atm, amass = tuple(zip(*sorted(set(zip(atom_order, amass)),
-        key=lambda X: atom_order.index(X[0]))))
+    types = list(dict.fromkeys(zip(atom_order, amass)))
+    ityp = [types.index(atom) for atom in zip(atom_order, amass)]
 
     with open(flfrc, 'w') as data:
         if dyn:
@@ -1317,7 +1317,7 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
 
         # write crystal structure:
 
-        data.write('%3d %4d %2d' % (len(atm), len(atom_order), 0))
+        data.write('%3d %4d %2d' % (len(types), len(atom_order), 0))
 
         alat = np.linalg.norm(at[0])
 
@@ -1339,13 +1339,13 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
 
         # write palette of atomic species and masses:
 
-        for nt in range(len(atm)):
-            data.write("%12d  '%-3s' %19.10f\n" % (nt + 1, atm[nt], amass[nt]))
+        for nt, (atm, mass) in enumerate(types):
+            data.write("%12d  '%-3s' %19.10f\n" % (nt + 1, atm, mass))
 
         # write types and positions of individual atoms:
 
         for na in range(len(tau)):
-            data.write('%5d %4d' % (na + 1, atm.index(atom_order[na]) + 1))
+            data.write('%5d %4d' % (na + 1, ityp[na] + 1))
 
             for x in range(3):
                 data.write(' %17.10f' % (tau[na, x] / alat))
-- 
2.43.0


From 1a5be1496a4ae263c33b57f8ce8403dab479472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:55 +0000
Subject: [PATCH 38/39] fix: misc.minimum: accept coordinates as arguments

Unless given on the command line, too, they were rejected.
---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 9e205c1..49c7445 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -777,7 +777,7 @@ def minimum(*args):
     """
     if len(args) == 6:
         x1, x2, x3, y1, y2, y3 = args
-    if len(sys.argv) == 7:
+    elif len(sys.argv) == 7:
         x1, x2, x3, y1, y2, y3 = list(map(float, sys.argv[1:]))
     else:
         raise SystemExit('Usage: minimum x1 x2 x3 y1 y2 y3')
-- 
2.43.0


From 19530239017bd5df90134c75b322cb3001525e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:40 +0000
Subject: [PATCH 39/39] fix: interpolate_dynamical_matrices: use existing
 module, write file once

---
 elphmod/ph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index a0d85e3..08b9945 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1353,7 +1353,7 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
             data.write('\n')
 
         if dyn:
-            q = phid[0] * alat / (2 * np.pi)
+            q = np.array(phid[0]) * alat / (2 * np.pi)
             D = np.array(phid[1])
 
             # write dynamical matrices:
@@ -2050,7 +2050,7 @@ def interpolate_dynamical_matrices(D, q, nq, fildyn_template, fildyn, flfrc,
 
     # write 'fildyn0' with information about q-point mesh:
 
-    if write_fildyn0:
+    if write_fildyn0 and comm.rank == 0:
         write_q(fildyn + '0', q_cart, nq)
 
     # write and complete 'fildyn1', 'fildyn2', ... with dynamical matrices:
@@ -2062,7 +2062,7 @@ def interpolate_dynamical_matrices(D, q, nq, fildyn_template, fildyn, flfrc,
             D[:, group(na), :] *= np.sqrt(amass[na])
             D[:, :, group(na)] *= np.sqrt(amass[na])
 
-    sizes, bounds = MPI.distribute(len(q), bounds=True)
+    sizes, bounds = elphmod.MPI.distribute(len(q), bounds=True)
 
     for iq in range(*bounds[comm.rank:comm.rank + 2]):
         fildynq = fildyn + str(iq + 1)
-- 
2.43.0

