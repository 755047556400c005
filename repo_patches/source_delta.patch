From 1209c5912133b91a72c9811a2e01a52314d2f796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 01/40] fix: accept fractional norigins given as strings and
 keep the skip a multiple of the block size

---
 atooms/postprocessing/helpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 9010633..5091f27 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -158,7 +158,7 @@ def adjust_skip(trajectory, n_origins=None):
         elif float(n_origins) > 1:
             nbl = len(trajectory.steps) // trajectory.block_size
             skip = int(nbl / float(n_origins)) * trajectory.block_size
-        elif int(n_origins) == 1:
+        elif float(n_origins) == 1:
             skip = len(trajectory.steps)
         else:
             # A float between 0 and 1
@@ -177,11 +177,11 @@ def adjust_skip(trajectory, n_origins=None):
             skip = trajectory.block_size
 
     # Make sure the skip is an multiple of block size
-    if skip % trajectory.block_size != 0 and int(n_origins) != 1:
+    if skip % trajectory.block_size != 0 and float(n_origins) != 1:
         raise ValueError('wrong skip {} {}'.format(skip, trajectory.block_size))
 
-    # Normalize anyway and make it even
-    skip = max(1, skip)
+    # Normalize anyway: skip at least one block
+    skip = max(trajectory.block_size, skip)
     skip = min(len(trajectory.steps), skip)
     return skip
 
-- 
2.43.0


From a25a1da833d3841be2351597fba29fdc58579b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 02/40] fix: use the default time grid of the velocity
 autocorrelation function

---
 atooms/postprocessing/vacf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index b0a7657..642fba5 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -24,7 +24,7 @@ class VelocityAutocorrelation(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
             self.grid = linear_grid(0.0, trajectory.total_time * 0.10, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
 
     def _compute(self):
         def f(x, y):
-- 
2.43.0


From c03c2177459d646988ca12024da7abe34841f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 03/40] fix: honour norigins in velocity and stress
 autocorrelation functions

---
 atooms/postprocessing/sacf.py | 2 +-
 atooms/postprocessing/vacf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/sacf.py b/atooms/postprocessing/sacf.py
index e26682e..ef611cb 100644
--- a/atooms/postprocessing/sacf.py
+++ b/atooms/postprocessing/sacf.py
@@ -46,7 +46,7 @@ class StressAutocorrelation(Correlation):
 
         self._get_stress()
         V = self.trajectory.read(0).cell.volume
-        self.grid, self.value = gcf_offset(f, self._discrete_tgrid, self.trajectory.block_size,
+        self.grid, self.value = gcf_offset(f, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._stress)
         self.value = [x / V for x in self.value]
         self.grid = [ti * self.trajectory.timestep for ti in self.grid]
diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index 642fba5..0ff5723 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -30,7 +30,7 @@ class VelocityAutocorrelation(Correlation):
         def f(x, y):
             return numpy.sum(x * y) / float(x.shape[0])
         self.grid, self.value = gcf_offset(f, self._discrete_tgrid,
-                                           self.trajectory.block_size,
+                                           self.skip,
                                            self.trajectory.steps,
                                            self._vel)
         self.grid = [ti * self.trajectory.timestep for ti in self.grid]
-- 
2.43.0


From 0d0e48ce3fe95708d6f655839e5010ab3aab9c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 04/40] fix: include the last pair of entries in gcf

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index b28e6e8..445a211 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -63,7 +63,7 @@ def gcf(f, grid, skip, t, x):
     cnt = defaultdict(int)
     for i in grid:
         # Note: len(x) gives x.shape[0]
-        for i0 in progress(range(0, len(x)-i-1, skip)):
+        for i0 in progress(range(0, len(x)-i, skip)):
             # Get the actual time difference
             dt = t[i0+i] - t[i0]
             cf[dt] += f(x[i0+i], x[i0])
-- 
2.43.0


From 486f07db52bf6cf85a44845ad0ab7dbc7c891bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 05/40] fix: average the dynamic susceptibility over all
 available time origins

---
 atooms/postprocessing/chi4t.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index d1e0c72..a4f8810 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -60,7 +60,7 @@ class Chi4SelfOverlap(Correlation):
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
-            for i0 in range(off, len(self._pos_unf)-i-self.skip, self.skip):
+            for i0 in range(off, len(self._pos_unf)-i, self.skip):
                 w = f(self._pos_unf[i0], self._pos_unf[i0 + i])
                 A2 += w**2
                 A += w
@@ -111,7 +111,7 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
-            for i0 in range(off, len(self._pos_unf)-i-self.skip, self.skip):
+            for i0 in range(off, len(self._pos_unf)-i, self.skip):
                 w = f(self._pos_unf[i0], self._pos_unf[i0+i])
                 A2 += w**2
                 A += w
-- 
2.43.0


From aa0ca333d337d95a1bc139541eaf363b987e21a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 06/40] fix: optimized dynamic susceptibility uses the existing
 f90 module

---
 atooms/postprocessing/api.py   | 2 +-
 atooms/postprocessing/chi4t.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index f942436..b2656f3 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -256,7 +256,7 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
     global_args = _compat(global_args)
     func = _func_db[func]
     if global_args['fast']:
-        backend = pp.Chi4SelfOverlapOpti
+        backend = pp.Chi4SelfOverlapOptimized
     else:
         backend = pp.Chi4SelfOverlap
 
diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index a4f8810..9515728 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -99,13 +99,13 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
 
     def _compute(self):
         try:
-            from atooms.postprocessing.realspace_wrap import realspace_module
+            from atooms.postprocessing.realspace_wrap import compute
         except ImportError:
             _log.error('f90 wrapper missing or not functioning')
             raise
 
         def f(x, y):
-            return realspace_module.self_overlap(x, y, numpy.array(self.a_square))
+            return compute.self_overlap(x, y, numpy.array(self.a_square))
 
         self.grid = []
         self.average.tag, self.variance.tag = self.tag, self.tag
@@ -117,7 +117,10 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
                 A += w
                 cnt += 1
             dt = self.trajectory.steps[off+i] - self.trajectory.steps[off]
-            A_av, A2_av = A/cnt, A2/cnt
+            if cnt > 0:
+                A_av, A2_av = A / cnt, A2 / cnt
+            else:
+                A_av, A2_av = 0, 0
             self.grid.append(dt * self.trajectory.timestep)
             self.value.append((A2_av - A_av**2) / self._pos_unf[0].shape[0])
             self.average.value.append(A_av)
-- 
2.43.0


From ead02e5e3c51f4a6c709ebfa95dca74d63d5407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 07/40] fix: compute the dynamic susceptibility of
 one-component systems from the api

---
 atooms/postprocessing/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index b2656f3..0805437 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -267,9 +267,9 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        if total:
-            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
+        if total or len(ids) == 1:
+            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
         if not total and len(ids) > 1:
             Partial(backend, ids, th, t_grid, a=a,
                     norigins=global_args['norigins']).do(update=global_args['update'])
-- 
2.43.0


From 8340b052a3110369f47ba62b9bb349ff666ac18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 08/40] fix: compute the spectral density from the api for
 every input file and radius file

---
 atooms/postprocessing/api.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 0805437..da7dac3 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -136,12 +136,12 @@ def ik(input_file, trajectory_radius=None, nk=20, dk=0.1, kmin=-1.0,
     if kgrid is not None:
         kgrid = [float(_) for _ in kgrid.split(',')]
     for th in _get_trajectories([input_file] + list(input_files), global_args):
-        if trajectory_radius is None:
-            trajectory_radius = input_file
-            pp.SpectralDensity(th, trajectory_radius,
-                               kgrid=kgrid, norigins=global_args['norigins'],
-                               kmin=kmin, kmax=kmax, nk=nk, dk=dk,
-                               ksamples=ksamples).do(update=global_args['update'])
+        # By default the radii are read from the trajectory itself
+        path_radius = trajectory_radius if trajectory_radius is not None else th.filename
+        pp.SpectralDensity(th, path_radius,
+                           kgrid=kgrid, norigins=global_args['norigins'],
+                           kmin=kmin, kmax=kmax, nk=nk, dk=dk,
+                           ksamples=ksamples).do(update=global_args['update'])
 
 def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         sigma=1.0, func='linear', rmsd_max=-1.0, fix_cm=False,
-- 
2.43.0


From f7a64642f03cc469bb6be27c48f50bf017d7bc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 09/40] fix: use the actual norm of the wave-vectors in the
 spectral density

---
 atooms/postprocessing/ik.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index 2053ea0..a431370 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -8,7 +8,7 @@ from atooms.trajectory import Trajectory
 from atooms.trajectory.utils import is_cell_variable
 
 from .progress import progress
-from .fourierspace import FourierSpaceCorrelation, expo_sphere
+from .fourierspace import FourierSpaceCorrelation, expo_sphere, _k_norm
 
 __all__ = ['SpectralDensity']
 
@@ -54,7 +54,7 @@ class SpectralDensity(FourierSpaceCorrelation):
             expo = expo_sphere(self.k0, self._koffset, self._pos[i])
             for k, klist in enumerate(self._kvectors):
                 for kvec in klist:
-                    knorm = numpy.dot(kvec, kvec)**0.5
+                    knorm = _k_norm(kvec, self.k0, self._koffset)
                     Ri = self._radius[i]
                     mk = 4 * numpy.pi / knorm**3 * \
                         (numpy.sin(knorm*Ri) - (knorm*Ri) * numpy.cos(knorm*Ri))
-- 
2.43.0


From 98693d731b32fe011793c47bda19c9a002ff79ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 10/40] fix: non-Gaussian parameter vanishes for Gaussian
 displacements in any dimension

---
 atooms/postprocessing/alpha2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/alpha2.py b/atooms/postprocessing/alpha2.py
index 9dc79f5..1c96532 100644
--- a/atooms/postprocessing/alpha2.py
+++ b/atooms/postprocessing/alpha2.py
@@ -34,7 +34,8 @@ class NonGaussianParameter(Correlation):
             dx2 = (x - y)**2
             dr2 = numpy.sum(dx2) / float(x.shape[0])
             dr4 = numpy.sum(numpy.sum(dx2, axis=1)**2) / float(x.shape[0])
-            return 3 * dr4 / (5 * dr2**2) - 1
+            ndims = x.shape[1]
+            return ndims * dr4 / ((ndims + 2) * dr2**2) - 1
 
         self.grid, self.value = gcf_offset(alpha_2, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._pos_unf)
-- 
2.43.0


From a98fca80d521bd054440a96b497b1747c9ff0ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 11/40] fix: do not accept more filters than the number of
 bodies

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 445a211..37c1d52 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -290,7 +290,7 @@ class Correlation(object):
 
     def add_filter(self, cbk, *args, **kwargs):
         """Add filter callback `cbk` along with positional and keyword arguments"""
-        if len(self._cbk) > self.nbodies:
+        if len(self._cbk) >= self.nbodies:
             raise ValueError('number of filters cannot exceed n. of bodies')
         self._cbk.append(cbk)
         self._cbk_args.append(args)
-- 
2.43.0


From e9beb976a0217bf8076525507f9de0c872008272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 12/40] fix: linked cells with numpy versions that removed
 numpy.int

---
 atooms/postprocessing/linkedcells.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index d9f496a..9459705 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -123,7 +123,7 @@ class LinkedCells(object):
 
     def _index(self, pos):
         x = ((pos + self.hbox) / self.box_cell)
-        return x.astype(numpy.int)
+        return x.astype(int)
 
     def on_border(self, pos):
         index = list(self._index(pos))
@@ -179,7 +179,7 @@ class LinkedCells(object):
         if as_array:
             npart = len(self.neighbors)
             number_of_neighbors = numpy.array(self.number_of_neighbors)
-            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=numpy.int)
+            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=int)
             for ipart in range(len(self.neighbors)):
                 neighbors_array[ipart, 0:len(self.neighbors[ipart])] = self.neighbors[ipart]
             self.neighbors = neighbors_array
-- 
2.43.0


From f2a77e2920c6f5ab4533e6c185425ae05163b8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 13/40] fix: adjust the linked cells when the cell changes

---
 atooms/postprocessing/linkedcells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 9459705..f59e746 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -135,7 +135,7 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
-        if not self._is_adjusted:
+        if not self._is_adjusted or numpy.any(box != self.box):
             self.adjust(box, newton=other is None and newton, periodic=periodic)
             self._is_adjusted = True
         # We only need positions here but how can we be sure that
-- 
2.43.0


From decf81286ba523acd2ad670d791b1753e0050c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 14/40] fix: discard neighbors at distances beyond the
 histogram of g(r)

---
 atooms/postprocessing/realspace.f90 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index 835f3e1..7e93bd1 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -287,7 +287,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -332,7 +332,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -388,7 +388,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -433,7 +433,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
-- 
2.43.0


From 84b89ecc10b0e7e1938fff7442a3f795e0ed2867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 15/40] fix: buffer of neighbors in bond-angle distribution
 must fit any number of neighbors

---
 atooms/postprocessing/ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 2b9a724..15bc85a 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -95,7 +95,7 @@ class BondAngleDistribution(Correlation):
             # system = change_species(system, 'F')  # species are in fortran style
             # ids = numpy.array(system.dump('spe'), dtype=numpy.int32)
             nn = numpy.array(0, dtype=numpy.int32)
-            neighbors = numpy.ndarray(50, dtype=numpy.int32)
+            neighbors = numpy.ndarray(len(self._pos_1[i]), dtype=numpy.int32)
             for idx in range(len(self._pos_0[i])):
                 isp = self._ids_0[i][idx]
                 compute.neighbors('C', side, self._pos_0[i][idx],
-- 
2.43.0


From 529a81dc45f692ddf29aa34cb14b43f9fb4ef533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 16/40] fix: integer dtheta is the width of the bins in
 bond-angle distribution

---
 atooms/postprocessing/ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 15bc85a..d831847 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -59,7 +59,7 @@ class BondAngleDistribution(Correlation):
 
     def __init__(self, trajectory, norigins=None, dtheta=4.0, rcut=None):
         Correlation.__init__(self, trajectory, None, norigins=norigins)
-        self.grid = linear_grid(0.0, 180.0, dtheta)  # reassign grid anyway
+        self.grid = linear_grid(0.0, 180.0, float(dtheta))  # reassign grid anyway
         self.rcut = rcut
 
     def _compute(self):
-- 
2.43.0


From 2216ff3e5330a51534db6ad541e36eebba7e069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 17/40] fix: do not modify the grid of wave-vectors provided by
 the user

---
 atooms/postprocessing/fourierspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 9e8a36f..4ed1789 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -214,7 +214,8 @@ class FourierSpaceCorrelation(Correlation):
                 self.kgrid = linear_grid(min(self.k0), self.kmax, self.ksamples)
         else:
             # Sort, since code below depends on kgrid[0] being the smallest k-value.
-            self.kgrid.sort()
+            # Make a copy, not to modify the grid provided by the user
+            self.kgrid = sorted(self.kgrid)
             # If the first wave-vector is negative we replace it by k0
             if self.kgrid[0] < 0.0:
                 self.kgrid[0] = min(self.k0)
-- 
2.43.0


From 353fc11b2565b99cb80e8fa4333fd93516d58ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 18/40] fix: reset arrays when computing a correlation function
 more than once

---
 atooms/postprocessing/chi4t.py       | 6 ++++--
 atooms/postprocessing/correlation.py | 9 ++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 9515728..4044624 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -55,7 +55,8 @@ class Chi4SelfOverlap(Correlation):
             return self_overlap(x, y, self.a_square).sum()
 
         side = self.trajectory.read(0).cell.side
-        self.grid = []
+        self.grid, self.value = [], []
+        self.average.value, self.variance.value = [], []
         # At this stage, we can copy the tags
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
@@ -107,7 +108,8 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
         def f(x, y):
             return compute.self_overlap(x, y, numpy.array(self.a_square))
 
-        self.grid = []
+        self.grid, self.value = [], []
+        self.average.value, self.variance.value = [], []
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 37c1d52..34a9888 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -310,7 +310,13 @@ class Correlation(object):
         Dump positions and/or velocities at different time frames as a
         list of numpy array.
         """
-        # TODO: what happens if we call compute twice?? Shouldnt we reset the arrays?
+        # Reset the arrays, otherwise calling compute() twice accumulates frames
+        self._unfolded = None
+        self._pos, self._vel, self._ids, self._pos_unf = [], [], [], []
+        self._pos_0, self._pos_1 = [], []
+        self._vel_0, self._vel_1 = [], []
+        self._ids_0, self._ids_1 = [], []
+        self._pos_unf_0, self._pos_unf_1 = [], []
         # Ensure phasespace is a list.
         # It may not be a class variable anymore after this
         if not isinstance(self.phasespace, list) and \
@@ -405,6 +411,7 @@ class Correlation(object):
             return
 
         # Dump arrays of weights
+        self._weight = []
         for s in progress(self.trajectory):
             # Apply filter if there is one
             # TODO: fix when weight trajectory does not contain actual particle info
-- 
2.43.0


From cbd446b2eba53bca25163a8f8c1793fe060f3af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 19/40] fix: bins of bond-angle distribution when it is
 computed more than once

---
 atooms/postprocessing/ba.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index d831847..50a43e0 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -59,7 +59,8 @@ class BondAngleDistribution(Correlation):
 
     def __init__(self, trajectory, norigins=None, dtheta=4.0, rcut=None):
         Correlation.__init__(self, trajectory, None, norigins=norigins)
-        self.grid = linear_grid(0.0, 180.0, float(dtheta))  # reassign grid anyway
+        self.dtheta = float(dtheta)
+        self.grid = linear_grid(0.0, 180.0, self.dtheta)  # reassign grid anyway
         self.rcut = rcut
 
     def _compute(self):
@@ -67,6 +68,8 @@ class BondAngleDistribution(Correlation):
         from atooms.postprocessing.realspace_wrap import compute
         from atooms.system.particle import distinct_species
 
+        # Bin edges, setup anew because the grid stores the bin centers after compute()
+        self.grid = linear_grid(0.0, 180.0, self.dtheta)
         hist_all = []
         hist_one = numpy.ndarray(len(self.grid), dtype=numpy.int32)
         origins = range(0, len(self.trajectory), self.skip)
-- 
2.43.0


From a2990adc811f67748e196d323247c0c60119e714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 20/40] fix: fast structure factor ignored weights and cross
 correlations

---
 atooms/postprocessing/sk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index f81bb33..fd189ed 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -184,6 +184,11 @@ class StructureFactorFast(StructureFactorLegacy):
             _log.error('f90 wrapper missing or not functioning')
             raise
 
+        # The f90 kernel only handles unweighted auto-correlations in 3d
+        if self._weight is not None or self._pos_0 is not self._pos_1 or len(self.k0) != 3:
+            super(StructureFactorFast, self)._compute()
+            return
+
         nsteps = len(self._pos_0)
         kgrid = self.kgrid
 
-- 
2.43.0


From 532cdeb1df98fe355cdda1de2b6d37fd19f41789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 21/40] fix: honour fix_cm in two-body correlations with two
 filters

---
 atooms/postprocessing/correlation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 34a9888..36faece 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -472,7 +472,12 @@ class Correlation(object):
 
         if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:
             ids = distinct_species(self.trajectory[0].particle)
-            for s in progress(self.trajectory):
+            th = self.trajectory
+            if 'pos' in self.phasespace and self._fix_cm:
+                # Unfold the positions, fix the CM and fold them back
+                th = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
+                th.add_callback(fold)
+            for s in progress(th):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
                 if 'pos' in self.phasespace:
-- 
2.43.0


From 868aef60e552db8d41e77a0f5818f59ba1bf7f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 22/40] fix: indices of wave-vectors in the fast structure
 factor start from 1

---
 atooms/postprocessing/sk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index fd189ed..4ebab27 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -225,7 +225,8 @@ class StructureFactorFast(StructureFactorLegacy):
                 # Fill array of kvectors in this bin
                 ikvec = numpy.ndarray((3, len(klist)), order='F', dtype=numpy.int32)
                 for i, kvec in enumerate(klist):
-                    ikvec[:, i] = kvec
+                    # Indices start from 1 in fortran
+                    ikvec[:, i] = numpy.array(kvec) + 1
                 rho = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
                 fourierspace_module.sk_bare(expo_0, ikvec, rho)
                 rho_0 = rho
-- 
2.43.0


From 0aec731fba33cd09f58eff16c8b23d52a4b4f2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 23/40] fix: tabulate the exponentials up to the largest
 component of the wave-vectors assigned by the user

---
 atooms/postprocessing/fourierspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 4ed1789..849aaed 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -321,11 +321,11 @@ class FourierSpaceCorrelation(Correlation):
             for kvec in klist:
                 rounded = numpy.rint(kvec / self.k0)
                 self._kvectors[-1].append(numpy.array(rounded, dtype=int))
-                # Update shift
-                shift = min(shift, int(min(rounded)))
+                # Update shift, the tabulated exponentials are symmetric
+                shift = max(shift, int(max(abs(rounded))))
 
         # Shift to make all array indices start from 0
-        self._koffset = int(abs(shift)) + 1
+        self._koffset = shift + 1
         for klist in self._kvectors:
             for i in range(len(klist)):
                 klist[i] = tuple(klist[i] + self._koffset)
-- 
2.43.0


From 8e801d6ebdabc21f36cb978b73ae86dc1e890046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 24/40] fix: honour no_partial in the dynamic susceptibility
 from the api

---
 atooms/postprocessing/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index da7dac3..9eebbd6 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -270,7 +270,7 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
         ids = distinct_species(th[0].particle)
         if total or len(ids) == 1:
             backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
-        if not total and len(ids) > 1:
+        if not total and len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, t_grid, a=a,
                     norigins=global_args['norigins']).do(update=global_args['update'])
 
-- 
2.43.0


From 299c286985b34e7bbff90b4042153b6dbe87163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 25/40] fix: weight trajectory with several input files in the
 structure factor from the api

---
 atooms/postprocessing/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 9eebbd6..5141d27 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -104,14 +104,14 @@ def sk(input_file, nk=20, dk=0.1, kmin=-1.0, kmax=15.0, ksamples=30,
         backend = pp.StructureFactorLegacy
     if kgrid is not None:
         kgrid = [float(_) for _ in kgrid.split(',')]
+    if weight_trajectory is not None:
+        weight_trajectory = TrajectoryXYZ(weight_trajectory)
     for th in _get_trajectories([input_file] + list(input_files), global_args):
         cf = backend(th, kgrid=kgrid,
                      norigins=global_args['norigins'], kmin=kmin,
                      kmax=kmax, nk=nk, dk=dk, ksamples=ksamples)
         if global_args['filter'] is not None:
             cf = pp.Filter(cf, global_args['filter'])
-        if weight_trajectory is not None:
-            weight_trajectory = TrajectoryXYZ(weight_trajectory)
         cf.add_weight(trajectory=weight_trajectory,
                       field=weight,
                       fluctuations=weight_fluctuations)
-- 
2.43.0


From ad43b33a589cfabc186eba91dc899340e9c13586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 26/40] fix: wave-vectors of the structure factor with changing
 cell when it is computed more than once

---
 atooms/postprocessing/fourierspace.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 849aaed..b4b1755 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -179,12 +179,16 @@ class FourierSpaceCorrelation(Correlation):
         self.k0 = []
         self._kvectors = []
         self._koffset = 0
+        self._kgrid_input = []
 
     def compute(self):
         # Setup grid once. If cell changes we'll call it again
         self._setup()
+        first = self.kgrid, self.k0, self._kvectors, self._koffset
         # Now compute
         super(FourierSpaceCorrelation, self).compute()
+        # Restore the wave-vectors of the first frame, in case the cell has changed
+        self.kgrid, self.k0, self._kvectors, self._koffset = first
 
     def _setup(self, sample=0):
         # We skip setup if the kgrid is already set up and we are not
@@ -197,10 +201,14 @@ class FourierSpaceCorrelation(Correlation):
         # Find k-norms grid and store it a self.kgrid (the norms are sorted)
         variables = self.short_name.split('(')[1][:-1]
         variables = variables.split(',')
-        if len(variables) > 1:
-            self.kgrid = self.grid[variables.index('k')]
-        else:
-            self.kgrid = self.grid
+        # The grid is redefined at the end of the calculation, so we
+        # store the input one the first time
+        if len(self._kgrid_input) == 0:
+            if len(variables) > 1:
+                self._kgrid_input.append(self.grid[variables.index('k')])
+            else:
+                self._kgrid_input.append(self.grid)
+        self.kgrid = self._kgrid_input[0]
 
         # Smallest kvector
         self.k0 = 2*math.pi/self.trajectory[sample].cell.side
-- 
2.43.0


From 087fd9832652a75d069774c1b92bd0e2a8120b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 27/40] fix: forward fix_cm to the partial mean square
 displacements from the api

---
 atooms/postprocessing/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 5141d27..794c9f0 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -165,7 +165,8 @@ def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.MeanSquareDisplacement, ids, th, tgrid=t_grid,
                     norigins=global_args['norigins'], sigma=sigma,
-                    rmax=rmsd_max, no_offset=no_offset).do(update=global_args['update'])
+                    rmax=rmsd_max, no_offset=no_offset,
+                    fix_cm=fix_cm).do(update=global_args['update'])
 
 def vacf(input_file, tmax=-1.0, tmax_fraction=0.10,
          tsamples=30, func='linear', *input_files, **global_args):
-- 
2.43.0


From 5eb7601fd5df846c574311cb689edcbe5c29b33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 28/40] fix: unfolded positions in two-body correlations with
 less than two filters or fixed center of mass

---
 atooms/postprocessing/correlation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 36faece..6b52227 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -468,6 +468,8 @@ class Correlation(object):
             self._vel_1 = self._vel
             self._ids_0 = self._ids
             self._ids_1 = self._ids
+            self._pos_unf_0 = self._pos_unf
+            self._pos_unf_1 = self._pos_unf
             return
 
         if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:
@@ -496,7 +498,7 @@ class Correlation(object):
 
         # Dump unfolded positions if requested
         if 'pos-unf' in self.phasespace:
-            for s in progress(Unfolded(self.trajectory)):
+            for s in progress(Unfolded(self.trajectory, fixed_cm=self._fix_cm)):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
                 self._pos_unf_0.append(s0.dump('pos'))
-- 
2.43.0


From 7ed3ca2966a9e1d5376748408e16024e04c1d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 29/40] fix: write the output file when its path has no
 directory

---
 atooms/postprocessing/correlation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 6b52227..a1c832e 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -647,7 +647,9 @@ class Correlation(object):
         import os
         from atooms.core.utils import mkdir
         if self._output_file is not None:
-            mkdir(os.path.dirname(self._output_file))
+            # There is no directory to create in the current one
+            if os.path.dirname(self._output_file):
+                mkdir(os.path.dirname(self._output_file))
             with open(self._output_file, 'w') as fh:
                 fh.write(comments)
                 if len(analysis) > 0:
-- 
2.43.0


From c3ff42d4d6ba33c8eec5309b0c99c205bfa889af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 30/40] fix: first frame with fixed center of mass when the
 trajectory is cached

---
 atooms/postprocessing/correlation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index a1c832e..754a58b 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -349,6 +349,8 @@ class Correlation(object):
             # We unfold the positions, caching the trajectory
             if self._unfolded is None:
                 self._unfolded = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
+                # Systems in the cache would be folded at every read
+                self._unfolded.cache = False
                 # We must fold positions back in this case
                 if 'pos' in self.phasespace:
                     self._unfolded.add_callback(fold)
-- 
2.43.0


From 5a8b0f15a2778dc39470f8c504777826fa2345d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 31/40] fix: center the system from the api when the trajectory
 is cached

---
 atooms/postprocessing/api.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 794c9f0..2a5ec06 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -1,5 +1,7 @@
 """Post processing API."""
 
+import copy
+
 import atooms.postprocessing as pp
 from atooms.postprocessing.progress import progress
 from atooms.postprocessing.partial import Partial
@@ -14,13 +16,17 @@ _func_db = {'linear_grid': linear_grid,
             'logx_grid': logx_grid,
             'logx': logx_grid}
 
+def _center(system):
+    """Center a copy of the system, the one in the cache must not change"""
+    return center(copy.deepcopy(system))
+
 def _get_trajectories(input_files, args):
     from atooms.trajectory import Sliced
     from atooms.core.utils import fractional_slice
     for input_file in input_files:
         with Trajectory(input_file, fmt=args['fmt']) as th:
             if args['center']:
-                th.add_callback(center)
+                th.add_callback(_center)
             # Caching is useful for systems with multiple species but
             # it will increase the memory footprint. Use --no-cache to
             # disable it
-- 
2.43.0


From f2b7ce4967d2389cf475aca90fc5866afb3b945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:53 +0000
Subject: [PATCH 32/40] fix: keep the last point of the grid in the fast g(r)

---
 atooms/postprocessing/gr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 742183e..bdbb235 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -332,6 +332,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         # Normalization
         # Array r is used to compute shells, we thus use the bin boundaries
         r = bins - (bins[1] - bins[0]) / 2
+        r = numpy.append(r, bins[-1] + (bins[1] - bins[0]) / 2)
         N_0 = numpy.average(N_0)
         N_1 = numpy.average(N_1)
         if system.cell is not None:
@@ -356,8 +357,8 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
         gr = numpy.average(gr_all, axis=0)
 
         # Normalize and clean up boundaries
-        self.value = gr[:-1] / norm
-        self.grid = bins[:-1]
+        self.value = gr / norm
+        self.grid = bins
         if remove_self_term:
             self.value[0] = self.value[1]
 
-- 
2.43.0


From 40df46df0153e7905017018b56439b6d52f5ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 33/40] fix: pairs in the last bin of the fast g(r) were missed
 with linked cells

---
 atooms/postprocessing/gr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index bdbb235..daea75b 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -238,9 +238,11 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             n_0 = len(self._pos_0[0])
             n_1 = len(self._pos_1[0])
             rho = n_1 / system.cell.volume
-            nmax = self.rmax**ndims * rho
-            if int(min(system.cell.side / self.rmax)) > 3 and nmax * n_0 < 1e6:
-                linkedcells = LinkedCells(rcut=self.rmax)
+            # The last bin, centered at most at rmax, may extend beyond rmax
+            rcut = self.rmax + dr / 2
+            nmax = rcut**ndims * rho
+            if int(min(system.cell.side / rcut)) > 3 and nmax * n_0 < 1e6:
+                linkedcells = LinkedCells(rcut=rcut)
             else:
                 linkedcells = None
 
-- 
2.43.0


From 79e62b874844691b967a1011183aa0a510a93e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 34/40] fix: g(r) kernels could write past the end of the
 histogram by rounding

---
 atooms/postprocessing/realspace.f90 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index 7e93bd1..b17fd59 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -479,7 +479,7 @@ contains
        end do
        ! Bin distances
        do j=1,k
-          bin = floor(distances(j) / dr) + 1
+          bin = min(floor(distances(j) / dr) + 1, size(hist))
           hist(bin) = hist(bin) + 1
        end do
     end do
@@ -519,7 +519,7 @@ contains
        end do
        ! Bin distances
        do j=1,k
-          bin = floor(distances(j) / dr) + 1
+          bin = min(floor(distances(j) / dr) + 1, size(hist))
           hist(bin) = hist(bin) + 1
        end do
     end do
@@ -566,7 +566,7 @@ contains
        end do
        ! Bin distances
        do j=1,k
-          bin = floor(distances(j) / dr) + 1
+          bin = min(floor(distances(j) / dr) + 1, size(hist))
           hist(bin) = hist(bin) + 1
        end do
     end do
@@ -606,7 +606,7 @@ contains
        end do
        ! Bin distances
        do j=1,k
-          bin = floor(distances(j) / dr) + 1
+          bin = min(floor(distances(j) / dr) + 1, size(hist))
           hist(bin) = hist(bin) + 1
        end do
     end do
-- 
2.43.0


From 7972fc6fdcb26dc20a8206870244a9416ab6a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 35/40] fix: buffer of g(r) kernel with neighbours of other
 particles was too small

---
 atooms/postprocessing/realspace.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index b17fd59..e071296 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -347,7 +347,7 @@ contains
     integer(8), intent(in)    :: neighbors(:,:), number_of_neighbors(:)
     integer(8), intent(inout) :: hist(:)
     real(8), intent(inout) :: bins(:)
-    real(8)                   :: distances(size(positions,2))  ! stack
+    real(8)                   :: distances(size(other,2))  ! stack
     real(8), intent(in)       :: box(:)
     real(8)    :: dist(size(box)), dist_sq, pos(size(box)), rmax, hbox(size(box))
     integer(8) :: i, j, ii, jj, bin, k, delta
-- 
2.43.0


From 829869dbfc9fabb16e15683363994c24da3c9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 36/40] fix: neighbours of other positions were written beyond
 the list

---
 atooms/postprocessing/realspace.f90 | 2 --
 1 file changed, 2 deletions(-)

diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index e071296..3365b85 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -199,9 +199,7 @@ contains
           rijsq = dot_product(rij,rij)
           if (rijsq < rcutsq(isp,jsp)) then
              nn(i) = nn(i) + 1
-             nn(j) = nn(j) + 1
              neigh(i,nn(i)) = j+delta
-             neigh(j,nn(j)) = i+delta
           end if
        end do
     end do
-- 
2.43.0


From 4f7ebea3aab3f75d813ab8f9216c7f939a6457b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:02 +0000
Subject: [PATCH 37/40] fix: linked cells raised KeyError for particles at the
 upper edge of the cell

---
 atooms/postprocessing/linkedcells.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index f59e746..256b286 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -122,8 +122,10 @@ class LinkedCells(object):
         self._neigh_cell = new_neigh_cell
 
     def _index(self, pos):
-        x = ((pos + self.hbox) / self.box_cell)
-        return x.astype(int)
+        x = ((pos + self.hbox) / self.box_cell).astype(int)
+        # Particles at the upper edge of the cell belong to the last
+        # subcell, even if they are put past it because of rounding
+        return numpy.where(x == self.n_cell, x - 1, x)
 
     def on_border(self, pos):
         index = list(self._index(pos))
-- 
2.43.0


From 423d0833c5cec2697bc50348ba06f7b3c6e9db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 38/40] fix: linked cells did not notice a cell modified in
 place

---
 atooms/postprocessing/linkedcells.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 256b286..dc73aaa 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -16,7 +16,8 @@ class LinkedCells(object):
         self._is_adjusted = False
 
     def adjust(self, box, newton, periodic=None):
-        self.box = box
+        # Keep a copy: the cell may be modified in place
+        self.box = numpy.array(box)
         self.hbox = box / 2
         self.n_cell = (box / self.rcut).astype(int)
         self.box_cell = self.box / self.n_cell
-- 
2.43.0


From dff7b8ea4564ba7e790043715095397ce39ce88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 39/40] fix: linked cells reused subcells set up for one set of
 particles with two, or for other periodic directions

---
 atooms/postprocessing/linkedcells.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index dc73aaa..e179317 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -138,8 +138,14 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
-        if not self._is_adjusted or numpy.any(box != self.box):
-            self.adjust(box, newton=other is None and newton, periodic=periodic)
+        newton = other is None and newton
+        if periodic is None:
+            periodic = [True] * len(box)
+        # The neighboring subcells depend on the setup, not only on the cell
+        setup = (newton, list(periodic))
+        if not self._is_adjusted or numpy.any(box != self.box) or setup != self._setup:
+            self.adjust(box, newton=newton, periodic=periodic)
+            self._setup = setup
             self._is_adjusted = True
         # We only need positions here but how can we be sure that
         # this is the same set of particles we use when retrieving
-- 
2.43.0


From 10b8adc9aa8dcdc012224525e73f4f3dfca740f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:49 +0000
Subject: [PATCH 40/40] fix: unfolded positions of the trajectory are not
 modified when fixing the center of mass

---
 atooms/postprocessing/correlation.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 754a58b..f5fdd2b 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -390,14 +390,17 @@ class Correlation(object):
                             cm += p.position_unfolded * p.mass
                             mtot += p.mass
                         cm /= mtot
-                        # Subtract it
-                        for p in s.particle:
-                            p.position_unfolded -= cm
                     # Apply filter if there is one
-                    # This must be done after the CM has been fixed
+                    # The CM is the one of the whole system
                     if len(self._cbk) > 0:
                         s = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
-                    self._pos_unf.append(s.dump('particle.position_unfolded'))
+                    if self._fix_cm:
+                        # Subtract it, without modifying the particles
+                        # in the trajectory, which may be cached
+                        pos = numpy.array([p.position_unfolded - cm for p in s.particle])
+                    else:
+                        pos = s.dump('particle.position_unfolded')
+                    self._pos_unf.append(pos)
             else:
                 for s in progress(th):
                     # Apply filter if there is one
-- 
2.43.0

