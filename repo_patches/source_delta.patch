From 6bffbf9e27731ff7ddc2b89eb9febee038fda222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:23 +0000
Subject: [PATCH 01/54] fix: periodic decompose visits every domain a wide or
 uneven volume touches

---
 pmesh/domain.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 8768aac..439a7af 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -614,14 +614,15 @@ class GridND(object):
                     if periodic:
                         boxsize = self.edges[j][-1]
                         c = tmp % boxsize
-                        l = self._digitize((c - smoothing[j]) % boxsize, self.edges[j], right=False)
-                        r = self._digitize((c + smoothing[j]) % boxsize, self.edges[j], right=False)
-                        p = self._digitize(c, self.edges[j], right=False)
-                        l = p - (p - l) % self.shape[j] - 1
-                        r = p + (r - p) % self.shape[j]
-                        #print(l, p, r)
-                        sil[j, s] = l
-                        sir[j, s] = r
+                        # domain indices of both ends of the volume, counted through the periodic images
+                        nl, l = numpy.divmod(c - smoothing[j], boxsize)
+                        nr, r = numpy.divmod(c + smoothing[j], boxsize)
+                        l = self._digitize(l, self.edges[j], right=False) - 1 + numpy.intp(nl) * self.shape[j]
+                        r = self._digitize(r, self.edges[j], right=False) + numpy.intp(nr) * self.shape[j]
+                        # the volume covers the period: visit every domain once
+                        full = r - l >= self.shape[j]
+                        sil[j, s] = numpy.where(full, 0, l)
+                        sir[j, s] = numpy.where(full, self.shape[j], r)
                     else:
                         l = self._digitize(tmp - smoothing[j], self.edges[j], right=False)
                         r = self._digitize(tmp + smoothing[j], self.edges[j], right=False)
-- 
2.43.0


From 4c1f2669451c6b342172bdfd92bd88a1dd7289e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:23 +0000
Subject: [PATCH 02/54] fix: look up degenerate domains by domain, not by the
 rank they are assigned to

---
 pmesh/_domain.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pmesh/_domain.pyx b/pmesh/_domain.pyx
index cd54a08..f303492 100644
--- a/pmesh/_domain.pyx
+++ b/pmesh/_domain.pyx
@@ -78,9 +78,8 @@ def gridnd_fill(
                     while t < 0:
                         t += dims[j]
                 target = target + t * strides[j]
-            target = DomainAssign[target]
-
             if not domain_is_degenerate[target]:
+                target = DomainAssign[target]
                 # build a sorted target_list
                 # bubble sort (for patch_size is small)
                 target_list[k] = target
-- 
2.43.0


From dffc0868f8c64fd8531019b12ed6af663e65bdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:23 +0000
Subject: [PATCH 03/54] fix: decompose, load and isprimary place positions a
 rounding error below zero in the first domain

---
 pmesh/domain.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 439a7af..eabcc3e 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -346,6 +346,12 @@ class GridND(object):
         else:
             return numpy.digitize(data, bins, right)
 
+    @staticmethod
+    def _wrap(pos, boxsize):
+        # the remainder of a tiny negative position rounds to boxsize, which is 0
+        pos = numpy.remainder(pos, boxsize)
+        return numpy.where(pos >= boxsize, 0, pos)
+
     @classmethod
     def uniform(cls, BoxSize, comm=MPI.COMM_WORLD, periodic=True):
         ndim = len(BoxSize)
@@ -441,7 +447,7 @@ class GridND(object):
                 chunk = transform(pos[s])
                 for j in range(self.ndim):
                     if periodic:
-                        tmp = numpy.remainder(chunk[:, j], self.edges[j][-1])
+                        tmp = self._wrap(chunk[:, j], self.edges[j][-1])
                     else:
                         tmp = chunk[:, j]
                     sil[j, s] = self._digitize(tmp, self.edges[j]) - 1
@@ -552,7 +558,7 @@ class GridND(object):
             s = slice(i, i + chunksize)
             chunk = transform(pos[s])[..., :self.ndim]
             if self.periodic:
-                chunk = numpy.remainder(chunk,  BoxSize)
+                chunk = self._wrap(chunk, BoxSize)
             # looping over all primary regions.
             for j in range(len(x0)):
                 r[s] += ((chunk >= x0[j]) & (chunk < x1[j])).all(axis=-1)
@@ -613,7 +619,7 @@ class GridND(object):
                     tmp = chunk[:, j]
                     if periodic:
                         boxsize = self.edges[j][-1]
-                        c = tmp % boxsize
+                        c = self._wrap(tmp, boxsize)
                         # domain indices of both ends of the volume, counted through the periodic images
                         nl, l = numpy.divmod(c - smoothing[j], boxsize)
                         nr, r = numpy.divmod(c + smoothing[j], boxsize)
-- 
2.43.0


From 0d016d96184dabfd11dc3442712f5bbb3f5dadfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 04/54] fix: uniform grid for any units and proportions of the
 box

---
 pmesh/domain.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index eabcc3e..7b1cd2d 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -358,13 +358,17 @@ class GridND(object):
 
         # compute a optimal shape where each domain is as cubical as possible
 
-        r = (1.0 * comm.size / numpy.prod(BoxSize) * min(BoxSize)) ** (1.0 / ndim)
-        shape = [ r * (BoxSize[i] / min(BoxSize)) for i in range(ndim)]
-        shape = numpy.array(shape)
+        # only the proportions of the box matter
+        length = numpy.array([1.0 * L / min(BoxSize) for L in BoxSize])
+        shape = length * (comm.size / numpy.prod(length)) ** (1.0 / ndim)
         imax = shape.argmax()
-        shape = numpy.int32(shape)
+        # do not let rounding errors remove a domain
+        shape = numpy.int32(shape * (1 + 1e-9))
         shape[shape < 1] = 1
         shape[imax] = 1
+        # thin directions still take one domain, leaving fewer for the others
+        while numpy.prod(shape) > comm.size:
+            shape[shape.argmax()] -= 1
         shape[imax] = comm.size // numpy.prod(shape)
         assert numpy.prod(shape) <= comm.size
 
-- 
2.43.0


From 47379efab8fbf4215e7b0871f4930ba3dbdc56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 05/54] fix: mismatched data raises on all ranks instead of
 leaving the others waiting

---
 pmesh/domain.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 7b1cd2d..3cac26f 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -49,12 +49,20 @@ def bincountv(x, weights, minlength=None, dtype=None, out=None):
 
 def promote(data, comm):
     data = numpy.asarray(data)
-    dtype_root = comm.bcast(data.dtype)
-    data = data.astype(dtype_root)
-    shape_root = comm.bcast(data.shape)
-    if shape_root[1:] != data.shape[1:]:
+    dtype_root, shape_root = comm.bcast((data.dtype, data.shape[1:]))
+
+    mismatch = shape_root != data.shape[1:]
+    if len(data) > 0:
+        mismatch = mismatch or columns(dtype_root) != columns(data.dtype)
+
+    # all ranks must raise, or those that do not will wait for those that do.
+    if any(comm.allgather(mismatch)):
         raise ValueError('the shape of the data does not match across ranks.')
-    return data
+    return data.astype(dtype_root)
+
+def columns(dtype):
+    """ shape of the columns of a packed array """
+    return [dtype[name].shape for name in dtype.names or ()]
 
 def pack_arrays(seq):
     """
@@ -159,6 +167,10 @@ class Layout(object):
 
         """
         if pack:
+            # pack_arrays raises if columns mismatch; make sure all ranks do.
+            if any(self.comm.allgather(any(len(arg) != self.sendlength for arg in args))):
+                raise ValueError(
+                'the length of data does not match that used to build the layout')
             data = pack_arrays(args)
             newdata = self._exchange(data)
             r = tuple([newdata[name] for name in newdata.dtype.names])
-- 
2.43.0


From f48e0e7a9605f7aa47968eeca0a4fa50e2e99983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 06/54] fix: gather sums integers and complex numbers exactly

---
 pmesh/domain.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 3cac26f..0ecc232 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -42,6 +42,12 @@ def bincountv(x, weights, minlength=None, dtype=None, out=None):
     if out is None:
         out = numpy.empty(shape, dtype=dtype)
 
+    if weights.dtype.kind not in 'fb' or weights.dtype.itemsize > 8:
+        # numpy.bincount is limited to the range and precision of double
+        out[...] = 0
+        numpy.add.at(out, x, weights)
+        return out
+
     for index in numpy.ndindex(*shape[1:]):
         ind = tuple([Ellipsis] + list(index))
         out[ind] = numpy.bincount(x, weights[ind], minlength=minlength)
-- 
2.43.0


From a6c900f332ead17eec88941fbafd258cabd71bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 07/54] fix: gather with a ufunc when some particles were
 delivered nowhere

---
 pmesh/domain.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 0ecc232..a9ea2b1 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -318,7 +318,12 @@ class Layout(object):
             N = numpy.bincount(self.indices, minlength=self.sendlength)
             offset = numpy.zeros(self.sendlength, 'intp')
             offset[1:] = numpy.cumsum(N)[:-1]
-            return mode.reduceat(recvbuffer, offset, out=out)
+            # reduceat does not know about empty segments
+            reduced = mode.reduceat(recvbuffer, offset[N > 0])
+            if out is None:
+                out = numpy.zeros(self.sendlength, dtype=(reduced.dtype, reduced.shape[1:]))
+            out[N > 0] = reduced
+            return out
 
         if mode == 'mean':
             N = numpy.bincount(self.indices, minlength=self.sendlength)
-- 
2.43.0


From dd2ac9a689a2889161e1d694cdb70324faba745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:55 +0000
Subject: [PATCH 08/54] fix: gather with the mean of integers

---
 pmesh/domain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index a9ea2b1..d6c2946 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -329,8 +329,11 @@ class Layout(object):
             N = numpy.bincount(self.indices, minlength=self.sendlength)
             s = [self.sendlength] + [1] * (len(recvbuffer.shape) - 1)
             N = N.reshape(s)
+            if recvbuffer.dtype.kind not in 'fc':
+                # the mean of integers is not an integer
+                recvbuffer = recvbuffer.astype('f8')
             out = bincountv(self.indices, recvbuffer, minlength=self.sendlength, out=out)
-            out[...] /= N
+            out[...] = out / N
             return out
 
         if mode == 'any':
-- 
2.43.0


From 19844daa911eed67d4b0baa04563a229b280d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:47 +0000
Subject: [PATCH 09/54] fix: ranks holding no cells do not claim the domain of
 another rank

---
 pmesh/pm.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 1ebc8c7..073e696 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1449,14 +1449,16 @@ class ParticleMesh(object):
         edges = partition.i_edges
         shape = numpy.array([len(g) - 1 for g in edges], dtype='int32')
         size = numpy.prod(shape)
-        ilocal = tuple(numpy.flatnonzero(iedges == istart)[0] for istart, iedges in zip(partition.local_i_start, partition.i_edges))
-        ilocal = numpy.ravel_multi_index(ilocal, shape, mode='raise', order='C')
+        # A rank without any cells starts at 0 in pfft, and owns none of the non-empty domains.
+        if all(partition.local_i_shape > 0):
+            ilocal = tuple(numpy.flatnonzero(iedges == istart)[0] for istart, iedges in zip(partition.local_i_start, partition.i_edges))
+            ilocal = numpy.ravel_multi_index(ilocal, shape, mode='raise', order='C')
+        else:
+            ilocal = -1
         ilocals = numpy.array(self.comm.allgather(ilocal))
-        DomainAssign = numpy.empty(size, dtype='int32')
-        for irank, ilocal in enumerate(ilocals):
-            start = ilocal * size // self.comm.size
-            end = (ilocal + 1) * size // self.comm.size
-            DomainAssign[start:end] = irank
+        # empty domains receive nothing; any valid rank will do.
+        DomainAssign = numpy.arange(size, dtype='int32') % self.comm.size
+        DomainAssign[ilocals[ilocals >= 0]] = numpy.flatnonzero(ilocals >= 0)
         self.domain = domain.GridND(edges, comm=self.comm, DomainAssign=DomainAssign)
 
         self.procmesh = procmesh
-- 
2.43.0


From eb5bb3c064d4eb632269069d43956571b01819e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:56 +0000
Subject: [PATCH 10/54] fix: coordinates and wavenumbers of meshes with an odd
 number of points

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 073e696..3dc6d12 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1188,7 +1188,7 @@ def _init_i_coords(partition, Nmesh, BoxSize, dtype):
 
         ri = numpy.arange(t[d], dtype=dtype) + partition.local_i_start[d]
 
-        ri[ri >= Nmesh[d] // 2] -= Nmesh[d]
+        ri[ri >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         xi = ri * BoxSize[d] / Nmesh[d]
 
@@ -1212,7 +1212,7 @@ def _init_o_coords(partition, Nmesh, BoxSize, dtype):
 
         wi = numpy.arange(s[d], dtype=dtype) + partition.local_o_start[d]
 
-        wi[wi >= Nmesh[d] // 2] -= Nmesh[d]
+        wi[wi >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         wi *= (2 * numpy.pi / Nmesh[d])
         ki = wi * Nmesh[d] / BoxSize[d]
-- 
2.43.0


From f1261181c455d3cb25478eefb9643eeb37c5f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:49 +0000
Subject: [PATCH 11/54] fix: slabs of one dimensional fields

---
 pmesh/pm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 3dc6d12..8b44cd5 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -87,8 +87,9 @@ class slab(numpy.ndarray):
 class slabiter(object):
     def __init__(self, field, value):
         # we iterate over the slowest axis to gain locality.
-        if field.ndim == 2:
-            axis = 2
+        if field.ndim <= 2:
+            # the whole field is a single slab.
+            axis = field.ndim
             self.optimized_view = value[None, ...]
             self.nslabs = 1
             self.optx = [xx[None, ...] for xx in field.x]
-- 
2.43.0


From 868fe3a562e99f878cc209bc4d2bec04d0227a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:24 +0000
Subject: [PATCH 12/54] fix: norms and inner products of compressed fields with
 an odd number of points

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 8b44cd5..d2b20b9 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -914,7 +914,7 @@ class BaseComplexField(Field):
         y = y.copy()
         # if a conjugate is not stored and not self, increase the weight
         # because we shall add it.
-        mask = (i[-1] != 0) & (i[-1] != self.Nmesh[-1] // 2)
+        mask = (i[-1] != 0) & (2 * i[-1] != self.Nmesh[-1])
         y += mask * y
         return y
 
-- 
2.43.0


From 759fc0d23e23dd0e66dca38996ba647f53eadf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 13/54] fix: inner product of a real field with an array

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index d2b20b9..ee9cfd5 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -213,7 +213,7 @@ class Field(NDArrayLike):
             if not isinstance(other, _gettype(self)):
                 raise TypeError("type of two operands of cdot must be the same type")
         else:
-            assert all(numpy.shape(other) == self.shape)
+            assert numpy.shape(other) == self.shape
 
     def copy(self):
         return self.pm.create(_gettype(self), value=self.value)
-- 
2.43.0


From 7a4b1bd98cbe609528d621529ae706423884d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:28 +0000
Subject: [PATCH 14/54] fix: the tuned cubic window scales its derivative to
 the mesh like the other windows

---
 pmesh/_window_tuned_pcs.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pmesh/_window_tuned_pcs.h b/pmesh/_window_tuned_pcs.h
index eb92dca..538c9ed 100644
--- a/pmesh/_window_tuned_pcs.h
+++ b/pmesh/_window_tuned_pcs.h
@@ -28,12 +28,12 @@
                               * (2 + (XYZ[d] - IJK3[d])) \
                               * (2 + (XYZ[d] - IJK3[d])); \
         } else { \
-            V1[d] = + 1.0 / 6.0 * (- 12 * (XYZ[d] - IJK1[d]) \
+            V1[d] = + painter->scale[d] / 6.0 * (- 12 * (XYZ[d] - IJK1[d]) \
                                    + 9 * (XYZ[d] - IJK1[d]) * (XYZ[d] - IJK1[d])); \
-            V2[d] = - 1.0 / 6.0 * (+ 12 * (XYZ[d] - IJK2[d]) \
+            V2[d] = - painter->scale[d] / 6.0 * (+ 12 * (XYZ[d] - IJK2[d]) \
                                    + 9 * (XYZ[d] - IJK2[d]) * (XYZ[d] - IJK2[d])); \
-            V0[d] = - 1.0 / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])); \
-            V3[d] = + 1.0 / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])); \
+            V0[d] = - painter->scale[d] / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])); \
+            V3[d] = + painter->scale[d] / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])); \
         } \
     } \
 \
-- 
2.43.0


From c01ef0cd70910a008612377c64a4bc91d172311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:56 +0000
Subject: [PATCH 15/54] fix: circular frequencies given to apply have the
 documented normp method

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index ee9cfd5..917be69 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -642,7 +642,7 @@ class Field(NDArrayLike):
                 k = x
                 oslab[...] = func(k, islab)
             elif kind == 'circular':
-                w = [ ki * L / N for ki, L, N in zip(x, self.BoxSize, self.Nmesh)]
+                w = xslab([ ki * L / N for ki, L, N in zip(x, self.BoxSize, self.Nmesh)])
                 oslab[...] = func(w, islab)
             else:
                 raise ValueError("unknown kind of apply function.")
-- 
2.43.0


From 6c3617289adbb079bc652ee9b0118b1b9562418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:28 +0000
Subject: [PATCH 16/54] fix: white noise of meshes with an odd number of points
 or sides that differ

---
 pmesh/_whitenoise_generics.h | 23 ++++++++++++++---------
 pmesh/_whitenoise_imp.c      | 11 ++++++++++-
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 8e3eac1..9f220b4 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -73,23 +73,28 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_ranlxd1);
     gsl_rng_set(rng, seed);
 
-    for(i = 0; i < self->Nmesh[0] / 2; i++) {
+    /* number of non-negative frequencies; there are Nmesh - half negative ones. */
+    int half0 = (self->Nmesh[0] + 1) / 2;
+    int half1 = (self->Nmesh[1] + 1) / 2;
+    int half = half0 > half1 ? half0 : half1;
+
+    for(i = 0; i < half; i++) {
         for(j = 0; j < i; j++)
-            SETSEED(self, i, j, rng);
+            SETSEED(self, i, j, 0, 0, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, j, i, rng);
+            SETSEED(self, j, i, 0, 0, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, self->Nmesh[0] - 1 - i, j, rng);
+            SETSEED(self, i, j, 1, 0, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, i, rng);
+            SETSEED(self, j, i, 1, 0, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, i, self->Nmesh[1] - 1 - j, rng);
+            SETSEED(self, i, j, 0, 1, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, j, i, 0, 1, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, self->Nmesh[0] - 1 - i, self->Nmesh[1] - 1 - j, rng);
+            SETSEED(self, i, j, 1, 1, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, j, i, 1, 1, rng);
     }
     gsl_rng_free(rng);
 
diff --git a/pmesh/_whitenoise_imp.c b/pmesh/_whitenoise_imp.c
index c47324b..e70d89d 100644
--- a/pmesh/_whitenoise_imp.c
+++ b/pmesh/_whitenoise_imp.c
@@ -26,11 +26,20 @@ SAMPLE(gsl_rng * rng, double * ampl, double * phase)
 }
 
 
+/* set the seed of the mode at (i, j), counted from the zero frequency upwards, or
+ * with ni (nj) from the frequency -1 downwards. */
 static inline void 
-SETSEED(PMeshWhiteNoiseGenerator * self, int i, int j, gsl_rng * rng) 
+SETSEED(PMeshWhiteNoiseGenerator * self, int i, int j, int ni, int nj, gsl_rng * rng) 
 { 
     unsigned int seed = 0x7fffffff * gsl_rng_uniform(rng); 
 
+    /* frequencies that are not on this mesh. */
+    if(i >= (self->Nmesh[0] + 1 - ni) / 2) return;
+    if(j >= (self->Nmesh[1] + 1 - nj) / 2) return;
+
+    if(ni) i = self->Nmesh[0] - 1 - i;
+    if(nj) j = self->Nmesh[1] - 1 - j;
+
     int ii[2] = {i, (self->Nmesh[0] - i) % self->Nmesh[0]};
     int jj[2] = {j, (self->Nmesh[1] - j) % self->Nmesh[1]};
     int d1, d2;
-- 
2.43.0


From e9b5eda7d754ab8e1a369d4e4791a2c1890701a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:28 +0000
Subject: [PATCH 17/54] fix: no Nyquist plane in white noise with an odd number
 of points

---
 pmesh/_whitenoise_generics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 9f220b4..d4eaacd 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -154,7 +154,7 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                 gsl_rng_set(this_rng, seed_this);
 
                 for(k = 0; k <= self->Nmesh[2] / 2; k ++) {
-                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || k == self->Nmesh[2] / 2);
+                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || 2 * k == self->Nmesh[2]);
 
                     double ampl, phase;
                     if(use_conj) {
-- 
2.43.0


From 3c8567de34179d171271b0ad6481ae909bc4116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:02 +0000
Subject: [PATCH 18/54] fix: white noise on ranks holding only negative
 frequencies of the last axis

---
 pmesh/_whitenoise_generics.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index d4eaacd..1a6da02 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -167,7 +167,7 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                         SAMPLE(this_rng, &ampl, &phase);
                     }
 
-                    ptrdiff_t iabs[3] = {i, j, k};
+                    ptrdiff_t iabs[3] = {i, j, sign == -1 ? self->Nmesh[2] - k : k};
 
                     /* mode is not there, skip it */
                     if(!mkname(_has_mode)(self, iabs)) {
@@ -198,7 +198,6 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                     */
 
                     if(sign == -1) {
-                        iabs[2] = self->Nmesh[2] - k;
                         im = - im;
                     }
 
-- 
2.43.0


From 910c5ddb6dd8fd7ecfca68044d564ccdc4123655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:44 +0000
Subject: [PATCH 19/54] fix: preview of all axes in another order

---
 pmesh/pm.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 917be69..f2f084d 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -604,13 +604,10 @@ class Field(NDArrayLike):
         # TODO: allow slicing along projected directions.
         out = out[...]
 
-        if len(axes) != self.ndim:
-            removeaxes = set(range(self.ndim)) - set(axes)
-            all_axes = list(axes) + list(removeaxes)
-            removeaxes = tuple(range(len(all_axes) - len(removeaxes), len(all_axes)))
-            result[local_slice] += out.transpose(all_axes).sum(axis=removeaxes)
-        else:
-            result[local_slice] += out
+        removeaxes = set(range(self.ndim)) - set(axes)
+        all_axes = list(axes) + list(removeaxes)
+        removeaxes = tuple(range(len(axes), len(all_axes)))
+        result[local_slice] += out.transpose(all_axes).sum(axis=removeaxes)
 
         self.pm.comm.Allreduce(MPI.IN_PLACE, result)
         return result
-- 
2.43.0


From 96576a0348a8ffeca673ef018c7ddf62ab92b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:16 +0000
Subject: [PATCH 20/54] fix: frequency index table between meshes with odd
 numbers of points

---
 pmesh/pm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index f2f084d..828518c 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1136,9 +1136,11 @@ def reindex(Nsrc, Ndest):
         >>> array([ 0,  1,  2, -1, -1, -1,  -1,  3])
 
     """
-    reindex = numpy.arange(Ndest)
-    reindex[Ndest // 2 + 1:] = numpy.arange(Nsrc - Ndest // 2 + 1, Nsrc, 1)
-    reindex[Nsrc // 2 + 1: Ndest -Nsrc //2 + 1] = -1
+    # signed frequencies of the destination
+    f = numpy.arange(Ndest)
+    f[Ndest // 2 + 1:] -= Ndest
+    reindex = f % Nsrc
+    reindex[(f > Nsrc // 2) | (f < -((Nsrc - 1) // 2))] = -1
     return reindex
 
 def exchange(layout, value):
-- 
2.43.0


From ba75faa695e1d8a11feed2a466051dc7c94fb75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:49 +0000
Subject: [PATCH 21/54] fix: resampling between equal meshes keeps the field,
 and fills untransposed output

An equal mesh fell through to the general path, whose output was zeroed first
when it shared the buffer; an untransposed complex output was filled in the
transposed layout; meshes with an odd number of points lost a mode that is not
a Nyquist mode; complex meshes lost the imaginary part of self-dual modes.
---
 pmesh/pm.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 828518c..cf23e5a 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -489,9 +489,16 @@ class Field(NDArrayLike):
         """
         assert isinstance(out, Field)
 
-        if all(out.Nmesh == self.Nmesh):
+        if all(out.Nmesh == self.Nmesh) \
+            and tuple(out.pm.np) == tuple(self.pm.np) \
+            and out.pm.dtype == self.pm.dtype:
             # no resampling needed. Just do Fourier transforms.
             self.cast(type=_gettype(out), out=out)
+            return out
+
+        # between meshes of the same points every mode is kept
+        resampled = any(out.Nmesh != self.Nmesh)
+        real = out.pm.dtype.kind == 'f'
 
         self = self.cast(type=TransposedComplexField)
 
@@ -526,24 +533,29 @@ class Field(NDArrayLike):
             mask = functools.reduce(numpy.bitwise_and,
                  [(n - ii) % n == ii
                     for ii, n in zip(i, complex.Nmesh)])
-            slab.imag[mask] = 0
+            if real:
+                slab.imag[mask] = 0
+
+            if not resampled: continue
 
             # remove the nyquist of the output
             # FIXME: the nyquist is messy due to hermitian constraints
             # let's do not touch them till we know they are important.
+            # A direction with an odd number of points has no nyquist.
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
+                 [ 2 * ii == n
                    for ii, n in zip(i, complex.Nmesh)])
             slab[mask] = 0
 
-            # also remove the nyquist of the input
+            # also remove the nyquist of the input; if the input is finer
+            # than the output it has been truncated already.
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
-                   for ii, n in zip(i, self.Nmesh)])
+                 [ (2 * ii == n) & (n <= nout)
+                   for ii, n, nout in zip(i, self.Nmesh, complex.Nmesh)])
             slab[mask] = 0
 
-        if isinstance(out, RealField):
-            complex.c2r(out)
+        if not isinstance(out, TransposedComplexField):
+            complex.cast(type=_gettype(out), out=out)
 
         return out
 
-- 
2.43.0


From d9930226b50882337e8a88eddfb50443cdd955cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:49 +0000
Subject: [PATCH 22/54] fix: upsample decomposes with the support of the window
 in use

---
 pmesh/pm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index cf23e5a..77751d8 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1982,7 +1982,6 @@ class ParticleMesh(object):
                     period=source.Nmesh)
 
         layout = source.pm.decompose(q, smoothing=resampler, transform=transform)
-        layout = source.pm.decompose(q, smoothing=1.6, transform=transform)
 
         f = source.readout(q, resampler=resampler, layout=layout, transform=transform)
 
-- 
2.43.0


From 1797f2513aa4b82ed524ca9ca9ee53327a9ae543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:16 +0000
Subject: [PATCH 23/54] fix: coarray constructor

---
 pmesh/coarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/coarray.py b/pmesh/coarray.py
index 01af88c..5a65884 100644
--- a/pmesh/coarray.py
+++ b/pmesh/coarray.py
@@ -194,7 +194,7 @@ class coameta(object):
 
 class coarray(numpy.ndarray):
     def __new__(kls, comm, *args, **kwargs):
-        self = super(coarray, cls).__new__(cls, *args, **kwargs)
+        self = super(coarray, kls).__new__(kls, *args, **kwargs)
         self.__coameta__ = coameta(comm, self)
         return self
 
-- 
2.43.0


From fbb05c1c00fc678d8ea0d6d2ec1ebea1cd92ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:16 +0000
Subject: [PATCH 24/54] fix: pulls and pushes between the same two images are
 not taken for each other

---
 pmesh/coarray.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pmesh/coarray.py b/pmesh/coarray.py
index 5a65884..3ac8aff 100644
--- a/pmesh/coarray.py
+++ b/pmesh/coarray.py
@@ -111,7 +111,11 @@ class coaproxy(object):
     def __str__(self):
         return 'coaproxy:%d/%d %s' % (self.coindex, self.comm.size, self.indices)
 
-class Op(object): pass
+class Op(object):
+    # messages of pulls and pushes between the same two images must not be
+    # taken for each other
+    PULL = 1
+    PUSH = 2
 
 class Pull(Op):
     def __init__(self, coa, localindex, proxy):
@@ -124,7 +128,7 @@ class Pull(Op):
     def start(self):
         comm = self.proxy.comm
     #    print('irecv into', self.proxy.coindex, self.buffer.data)
-        return comm.Irecv(buf=self.buffer, source=self.proxy.coindex)
+        return comm.Irecv(buf=self.buffer, source=self.proxy.coindex, tag=self.PULL)
 
     def finish(self):
         self.coa[self.localindex] = self.buffer
@@ -140,7 +144,7 @@ class Push(Op):
     def start(self):
         comm = self.proxy.comm
     #    print('isend to ', self.proxy.coindex, self.buffer.data)
-        return comm.Isend(self.buffer, dest=self.proxy.coindex)
+        return comm.Isend(self.buffer, dest=self.proxy.coindex, tag=self.PUSH)
 
     def finish(self):
         self.done = True
@@ -271,7 +275,7 @@ class coarray(numpy.ndarray):
                 value = value[index]
 
             print('sending to', senddest, value.data, value, self)
-            comm.Send(value, dest=senddest)
+            comm.Send(value, dest=senddest, tag=Op.PULL)
 
         for recvindices, recvsource in recvactions:
             value = self
@@ -284,7 +288,7 @@ class coarray(numpy.ndarray):
             print('receiving from ', recvsource, value.data)
             # trigger setitem
             buf = numpy.zeros_like(value[recvindices[-1]])
-            comm.Recv(buf, recvsource)
+            comm.Recv(buf, recvsource, tag=Op.PUSH)
             value[recvindices[-1]] = buf
 
         MPI.Request.waitall(requests)
-- 
2.43.0


From 5d9f117f16b8cb88a92106f8165c8e312339dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:16 +0000
Subject: [PATCH 25/54] fix: coarray sends contiguous copies of what is pushed
 and pulled

---
 pmesh/coarray.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pmesh/coarray.py b/pmesh/coarray.py
index 3ac8aff..d0db37b 100644
--- a/pmesh/coarray.py
+++ b/pmesh/coarray.py
@@ -144,6 +144,9 @@ class Push(Op):
     def start(self):
         comm = self.proxy.comm
     #    print('isend to ', self.proxy.coindex, self.buffer.data)
+        # the value may be a view of an array that is modified by the messages
+        # received while this one is pending, and it may be non-contiguous.
+        self.buffer = numpy.array(self.buffer, dtype=self.proxy.coa.dtype, order='C', copy=True)
         return comm.Isend(self.buffer, dest=self.proxy.coindex, tag=self.PUSH)
 
     def finish(self):
@@ -275,7 +278,7 @@ class coarray(numpy.ndarray):
                 value = value[index]
 
             print('sending to', senddest, value.data, value, self)
-            comm.Send(value, dest=senddest, tag=Op.PULL)
+            comm.Send(numpy.ascontiguousarray(value), dest=senddest, tag=Op.PULL)
 
         for recvindices, recvsource in recvactions:
             value = self
@@ -287,7 +290,7 @@ class coarray(numpy.ndarray):
 
             print('receiving from ', recvsource, value.data)
             # trigger setitem
-            buf = numpy.zeros_like(value[recvindices[-1]])
+            buf = numpy.zeros_like(value[recvindices[-1]], order='C')
             comm.Recv(buf, recvsource, tag=Op.PUSH)
             value[recvindices[-1]] = buf
 
-- 
2.43.0


From a7f492164199fd0fce7ff607ade340e08de9cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:21 +0000
Subject: [PATCH 26/54] fix: FromRoot raises on all ranks if the function
 raises on the root

---
 pmesh/tools.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pmesh/tools.py b/pmesh/tools.py
index 8a52011..5d4109d 100644
--- a/pmesh/tools.py
+++ b/pmesh/tools.py
@@ -20,10 +20,16 @@ class Rotator(object):
 def FromRoot(comm):
     def decorator(func):
         def wrapped(*args, **kwargs):
+            rt = None
+            error = None
             if comm.rank == 0:
-                rt = func(*args, **kwargs)
-            else:
-                rt = None
+                try:
+                    rt = func(*args, **kwargs)
+                except Exception as e:
+                    error = e
+            # do not leave the others waiting if the function raised on root
+            if comm.bcast(error is not None):
+                raise error or RuntimeError("the function raised on the root rank")
             rt = comm.bcast(rt)
             return rt
         return wrapped
-- 
2.43.0


From 0b3f6e6ca0dc7fe41f4a76b7f8c99dba6a926020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:59 +0000
Subject: [PATCH 27/54] fix: lic paints the integral, not ones scaled by it

---
 pmesh/lic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index a8c4df2..67e52e8 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -75,4 +75,4 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
 
             s += ds
 
-    return pm.paint(Q, f, resampler='nearest')
+    return pm.paint(Q, mass=f, resampler='nearest')
-- 
2.43.0


From df45099673219e64320b674ad9d0fbf0141bd9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:59 +0000
Subject: [PATCH 28/54] fix: lic reads the texture with a layout of the points
 it reads at

The margin of the layout was in simulation units, though smoothing is in mesh
units, was taken from the fastest vector of each rank only, and could not be
computed on ranks without cells.
---
 pmesh/lic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index 67e52e8..07a5aab 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -58,7 +58,6 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
     resampler = FindResampler(resampler)
 
     f = texture.readout(Q, resampler='nearest')
-    vmax = max(abs(v[...]).max() for v in vectors)
 
     for sign in [-1, +1]:
         x = Q.copy()
@@ -66,10 +65,12 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
         while s < length * 0.5:
             k = kernel(s * sign / (length * 0.5))
             dx = x * 0.0
-            layout = pm.decompose(x, smoothing=vmax * ds * 0.5 + resampler.support * 0.5)
+            layout = pm.decompose(x, smoothing=resampler)
             for d, v in enumerate(vectors):
                 dx[..., d] = v.readout(x, layout=layout, resampler=resampler) * ds
             x[...] += dx * 0.5 * sign
+            # the points have moved, maybe to another domain
+            layout = pm.decompose(x, smoothing=resampler)
             f[...] += texture.readout(x, layout=layout, resampler=resampler) * k * ds
             x[...] += dx * 0.5 * sign
 
-- 
2.43.0


From b904f800a7a8cfc1e6f49494bc91c3f168b11ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:39 +0000
Subject: [PATCH 29/54] fix: Trilinear takes the arguments of a transfer
 function

---
 pmesh/transfer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index c23a503..dbf701e 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -66,7 +66,8 @@ class TransferFunction:
         ind = tuple(ind)
         complex[ind] = 0
     @staticmethod
-    def Trilinear(comm, complex, w):
+    def Trilinear(pm, complex):
+        w = pm.w
         for wi in w:
             # convert to 
             tmp = numpy.sinc(wi / (2 * numpy.pi)) ** 2
-- 
2.43.0


From 1bd48cb5ba164d78a56fbe321aa5129946674d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:39 +0000
Subject: [PATCH 30/54] fix: Laplace multiplies every row by its own
 frequencies

---
 pmesh/transfer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index dbf701e..2253a4d 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -201,9 +201,8 @@ class TransferFunction:
             w2 = w[0][row] ** 2
             for wi in w[1:]:
                 w2 = w2 + wi[0] ** 2
-            w2[w2 == 0] = numpy.inf
             w2 *= -1
-        complex[:] *= w2
+            complex[row] *= w2
 
     @staticmethod
     def Poisson(pm, complex):
-- 
2.43.0


From 69767fe6e3535eef936ae3c4285a6aefee5fc37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:39 +0000
Subject: [PATCH 31/54] fix: PowerSpectrum sums over all rows of all ranks

---
 pmesh/transfer.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index 2253a4d..5a9e018 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -143,14 +143,17 @@ class TransferFunction:
 
             P = numpy.zeros(len(psout))
             N = numpy.zeros(len(psout))
+            W = numpy.zeros(len(psout))
 
             for row in range(complex.shape[0]):
-                # pickup the singular plane that is single counted (r2c transform)
-                singular = w[0][-1] == 0
                 scratch = w[0][row] ** 2
                 for wi in w[1:]:
                     scratch = scratch + wi[0] ** 2
 
+                # pickup the singular planes that are single counted (r2c transform)
+                singular = (w[-1][0] == 0) | (w[-1][0] < -3.14159)
+                singular = numpy.broadcast_to(singular, scratch.shape)
+
                 # now scratch stores w ** 2
                 dig = numpy.digitize(scratch.flat, w2edges)
 
@@ -159,16 +162,14 @@ class TransferFunction:
                 # the singular plane is down weighted by 0.5
                 scratch[singular] *= 0.5
 
-                wsum = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
-                wsum = comm.allreduce(wsum, MPI.SUM)
+                W += numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
 
                 # take the sum of weights
                 scratch[...] = 1.0
                 # the singular plane is down weighted by 0.5
                 scratch[singular] = 0.5
 
-                N1 = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
-                N += comm.allreduce(N1, MPI.SUM)
+                N += numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
 
                 # take the sum of power
                 numpy.abs(complex[row], out=scratch)
@@ -176,11 +177,15 @@ class TransferFunction:
                 # the singular plane is down weighted by 0.5
                 scratch[singular] *= 0.5
 
-                P1 = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
-                P += comm.allreduce(P1, MPI.SUM)
+                P += numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
+
+            # ranks may hold different numbers of rows
+            W = comm.allreduce(W, MPI.SUM)
+            N = comm.allreduce(N, MPI.SUM)
+            P = comm.allreduce(P, MPI.SUM)
 
             psout[:] = P / N 
-            wout[:] = wsum / N
+            wout[:] = W / N
         return PS
 
     @staticmethod
-- 
2.43.0


From cfeb217b357527a388d95d25e78f6bfabcd957e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:39 +0000
Subject: [PATCH 32/54] fix: tsc paints to the nearest grid point and its
 neighbours

---
 pmesh/tsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/tsc.py b/pmesh/tsc.py
index 782a4e5..195c914 100644
--- a/pmesh/tsc.py
+++ b/pmesh/tsc.py
@@ -84,7 +84,7 @@ def paint_some(pos, mesh, meshflat, weights, period):
                 intpos = numpy.rint(pos[i, d]) # NGP index
                 diff = intpos - pos[i, d]
                 rel = (n // 3**d) % 3 - 1 # maps offset (rel. to NGP) to (-1, 0, 1)
-                targetpos = intpos + rel - 1
+                targetpos = intpos + rel
                 if rel == -1: # before NGP
                     kernel *= 0.5 * (0.5+diff)*(0.5+diff)
                 elif rel == 0: # NGP
-- 
2.43.0


From 50b154269319953f72ccf344142b4f33c07e7027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:39 +0000
Subject: [PATCH 33/54] fix: legacy mesh decomposes with the support of the
 paintbrush

---
 pmesh/particlemesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/particlemesh.py b/pmesh/particlemesh.py
index 1d683b7..e52ef75 100644
--- a/pmesh/particlemesh.py
+++ b/pmesh/particlemesh.py
@@ -215,7 +215,9 @@ class ParticleMesh(object):
         to the correct MPI ranks that hosts the PM local mesh
         """
         with self.T['Decompose']:
-            return self.domain.decompose(pos, smoothing=1.0,
+            # half the support of the paintbrush
+            smoothing = 1.5 if self.paintbrush == 'tsc' else 1.0
+            return self.domain.decompose(pos, smoothing=smoothing,
                     transform=self.transform0)
     def clear(self):
         """ 
-- 
2.43.0


From fb03ef1dc22bfe0a128e9135ead19d76d0e69587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:39 +0000
Subject: [PATCH 34/54] fix: coordinates of legacy meshes with an odd number of
 points

---
 pmesh/particlemesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/particlemesh.py b/pmesh/particlemesh.py
index e52ef75..6fbe24f 100644
--- a/pmesh/particlemesh.py
+++ b/pmesh/particlemesh.py
@@ -136,8 +136,8 @@ class ParticleMesh(object):
             wi = numpy.arange(s[d], dtype='f4') + self.partition.local_o_start[d] 
             ri = numpy.arange(t[d], dtype='f4') + self.partition.local_i_start[d] 
 
-            wi[wi >= self.Nmesh // 2] -= self.Nmesh
-            ri[ri >= self.Nmesh // 2] -= self.Nmesh
+            wi[wi >= (self.Nmesh + 1) // 2] -= self.Nmesh
+            ri[ri >= (self.Nmesh + 1) // 2] -= self.Nmesh
 
             wi *= (2 * numpy.pi / self.Nmesh)
             ki = wi * self.Nmesh / self.BoxSize[d]
-- 
2.43.0


From 9baa85bf42bbfe3f4b3f91bbb0ef89f98e433408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 35/54] fix: hold domain indices in 32 bits in GridND

load() and decompose() kept the domain indices in 16 bit integers, which
overflow for more than 32767 domains in one direction (half of it with
periodic images); decompose then read and wrote out of bounds.
---
 pmesh/_domain.pyx | 4 ++--
 pmesh/domain.py   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pmesh/_domain.pyx b/pmesh/_domain.pyx
index f303492..c19df0e 100644
--- a/pmesh/_domain.pyx
+++ b/pmesh/_domain.pyx
@@ -10,8 +10,8 @@ def gridnd_fill(
         int mode,
         int [::1] counts,
         int [:] adims,
-        short int [:, ::1] sil,
-        short int [:, ::1] sir,
+        int [:, ::1] sil,
+        int [:, ::1] sir,
         int periodic,
         short int [::1] domain_is_degenerate,
         int [::1] DomainAssign,
diff --git a/pmesh/domain.py b/pmesh/domain.py
index d6c2946..a76a792 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -470,7 +470,7 @@ class GridND(object):
         periodic = self.periodic
 
         if Npoint != 0:
-            sil = numpy.empty((self.ndim, Npoint), dtype='i2', order='C')
+            sil = numpy.empty((self.ndim, Npoint), dtype='i4', order='C')
             chunksize = 1024 * 48
             for i in range(0, Npoint, chunksize):
                 s = slice(i, i + chunksize)
@@ -639,8 +639,8 @@ class GridND(object):
         periodic = self.periodic
 
         if Npoint != 0:
-            sil = numpy.empty((self.ndim, Npoint), dtype='i2', order='C')
-            sir = numpy.empty((self.ndim, Npoint), dtype='i2', order='C')
+            sil = numpy.empty((self.ndim, Npoint), dtype='i4', order='C')
+            sir = numpy.empty((self.ndim, Npoint), dtype='i4', order='C')
             chunksize = 1024 * 48
             for i in range(0, Npoint, chunksize):
                 s = slice(i, i + chunksize)
-- 
2.43.0


From 05b8b329a432287e19b00becd517feb6e916b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 36/54] fix: readout_jvp differentiates the readout of the
 requested gradient

---
 pmesh/pm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 77751d8..4bfc1ec 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -860,11 +860,13 @@ class RealField(Field):
         jvp = numpy.zeros(len(pos))
 
         if v_pos is not None:
+            if gradient is not None:
+                raise ValueError("gradient of gradient is not yet supported")
             for d in range(self.ndim):
                 jvp[...] += self.readout(pos, resampler=resampler, transform=transform, gradient=d, layout=layout) * v_pos[..., d]
 
         if v_self is not None:
-            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=None, layout=layout)
+            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=gradient, layout=layout)
 
         return jvp
 
-- 
2.43.0


From 4f15fe4c9502b49409e3b6ad79a3c6cb6a89d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 37/54] fix: paint and readout with a layout take masses and
 widths given as lists

---
 pmesh/pm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 4bfc1ec..2d5d0f5 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1161,8 +1161,7 @@ def exchange(layout, value):
     if value is None:
         return None
 
-    if numpy.isscalar(value):
-        value = numpy.array(value)
+    value = numpy.asarray(value)
 
     if value.ndim != 0:
         localvalue = layout.exchange(value)
-- 
2.43.0


From b95932f7d5abb3ffbefd1b3162ac5a61a50e21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:33 +0000
Subject: [PATCH 38/54] fix: abopt: reduce masks of broadcast coordinates

numpy.bitwise_and.reduce wants an array of them, which arrays of different shapes no longer make.
---
 pmesh/abopt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index dec6048..1f3c0a4 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -4,6 +4,7 @@ from warnings import warn
 
 warn("This module is deprecated and likely no longer maintained; a maintained version is moved to cosmo4d to minimize changes in pmesh.", DeprecationWarning)
 
+from functools import reduce
 import numpy
 from abopt.vmad2 import ZERO, Engine, statement, programme, CodeSegment, Literal
 from abopt.abopt2 import VectorSpace
@@ -12,7 +13,7 @@ from pmesh.pm import ParticleMesh, RealField, ComplexField
 def nyquist_mask(factor, v):
     # any nyquist modes are set to 0 if the transfer function is complex
     mask = (numpy.imag(factor) == 0) | \
-            ~numpy.bitwise_and.reduce([(ii == 0) | (ii == ni // 2) for ii, ni in zip(v.i, v.Nmesh)])
+            ~reduce(numpy.bitwise_and, [(ii == 0) | (ii == ni // 2) for ii, ni in zip(v.i, v.Nmesh)])
     return factor * mask
 
 class ParticleMeshVectorSpace(VectorSpace):
@@ -109,7 +110,7 @@ class ParticleMeshEngine(Engine):
     @staticmethod
     def _lowpass_filter(k, v, Neff):
         k0s = 2 * numpy.pi / v.BoxSize
-        mask = numpy.bitwise_and.reduce([abs(ki) <= Neff//2 * k0 for ki, k0 in zip(k, k0s)])
+        mask = reduce(numpy.bitwise_and, [abs(ki) <= Neff//2 * k0 for ki, k0 in zip(k, k0s)])
         return v * mask
 
     @statement(aout=['real'], ain=['real'])
-- 
2.43.0


From 57119a81ac083a78d320b59c2c067480f7570f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:33 +0000
Subject: [PATCH 39/54] fix: abopt: inner product of arrays is a scalar

dot of two [N, d] arrays is a matrix product, of the wrong shape.
---
 pmesh/abopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index 1f3c0a4..8b4222a 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -53,7 +53,7 @@ class ParticleMeshVectorSpace(VectorSpace):
         elif isinstance(a, numpy.ndarray):
             assert len(a) == len(b)
             assert len(a) == self.qshape[0]
-            return self.pm.comm.allreduce(a.dot(b))
+            return self.pm.comm.allreduce((a * b).sum())
         else:
             raise TypeError("type unknown")
 
-- 
2.43.0


From c80c4631688ecd079e4c9e72a4dd42c1b783fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:33 +0000
Subject: [PATCH 40/54] fix: abopt: derivatives of lowpass are assigned

The result was computed and dropped.
---
 pmesh/abopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index 8b4222a..ea08462 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -121,13 +121,13 @@ class ParticleMeshEngine(Engine):
 
     @lowpass.defvjp
     def _(engine, _real, Neff):
-        _real.c2r_vjp().apply(
+        _real[...] = _real.c2r_vjp().apply(
             lambda k, v: engine._lowpass_filter(k, v, Neff),
             out=Ellipsis).r2c_vjp(out=Ellipsis)
 
     @lowpass.defjvp
     def _(engine, real_, Neff):
-        real_.r2c().apply(
+        real_[...] = real_.r2c().apply(
             lambda k, v: engine._lowpass_filter(k, v, Neff),
             out=Ellipsis).c2r(out=Ellipsis)
 
-- 
2.43.0


From e79f19f7a85a2e55aca8eb9c491aba1b8335e389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:33 +0000
Subject: [PATCH 41/54] fix: abopt: tangent of paint is normalized like paint

---
 pmesh/abopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index ea08462..22d5176 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -164,7 +164,9 @@ class ParticleMeshEngine(Engine):
     def _(engine, x_, mesh_, x, layout, layout_):
         pm = engine.pm
         if x_ is ZERO: x_ = None
+        N = pm.comm.allreduce(len(x))
         mesh_[...] = pm.paint_jvp(x, v_pos=x_, layout=layout)
+        mesh_[...][...] *= 1.0 * pm.Nmesh.prod() / N
 
     @statement(aout=['value'], ain=['x', 'mesh', 'layout'])
     def readout(engine, value, x, mesh, layout):
-- 
2.43.0


From 4701e15a81d27686665dee76ef9e950c6354cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:33 +0000
Subject: [PATCH 42/54] fix: abopt: fields are added to ZERO in the order that
 works

ZERO + field is the field, field + ZERO raises.
---
 pmesh/abopt.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index 22d5176..a0a4a61 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -16,6 +16,10 @@ def nyquist_mask(factor, v):
             ~reduce(numpy.bitwise_and, [(ii == 0) | (ii == ni // 2) for ii, ni in zip(v.i, v.Nmesh)])
     return factor * mask
 
+def add_zero(a, b):
+    # fields cannot add ZERO, but ZERO can add fields
+    return b + a if b is ZERO else a + b
+
 class ParticleMeshVectorSpace(VectorSpace):
     def __init__(self, pm, q):
         self.qshape = q.shape
@@ -242,7 +246,7 @@ class ParticleMeshEngine(Engine):
 
     @statement(ain=['x1', 'x2'], aout=['y'])
     def add(engine, x1, x2, y):
-        y[...] = x1 + x2
+        y[...] = add_zero(x1, x2)
 
     @add.defvjp
     def _(engine, _y, _x1, _x2):
@@ -251,7 +255,7 @@ class ParticleMeshEngine(Engine):
 
     @add.defjvp
     def _(engine, y_, x1_, x2_):
-        y_[...] = x1_ + x2_
+        y_[...] = add_zero(x1_, x2_)
 
     @statement(aout=['y'], ain=['x1', 'x2'])
     def multiply(engine, x1, x2, y):
@@ -264,7 +268,7 @@ class ParticleMeshEngine(Engine):
 
     @multiply.defjvp
     def _(engine, x1_, x2_, y_, x1, x2):
-        y_[...] = x1_ * x2 + x1 * x2_
+        y_[...] = add_zero(x1_ * x2, x2_ * x1)
 
     @statement(ain=['x'], aout=['y'])
     def to_scalar(engine, x, y):
-- 
2.43.0


From cd9cdf56f7e919938f84bb0f67625e93bc0b16fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:33 +0000
Subject: [PATCH 43/54] fix: abopt: gradients of the operands of add are two
 objects

Operators change gradients in place; the one of the other operand must not follow.
---
 pmesh/abopt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index a0a4a61..f9a8bf9 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -250,8 +250,9 @@ class ParticleMeshEngine(Engine):
 
     @add.defvjp
     def _(engine, _y, _x1, _x2):
+        # two objects, because some operators change them in place
         _x1[...] = _y
-        _x2[...] = _y
+        _x2[...] = _y * 1
 
     @add.defjvp
     def _(engine, y_, x1_, x2_):
-- 
2.43.0


From 5f1d8dce3e0fa2438a4649d0de9ec60c4a79720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:33 +0000
Subject: [PATCH 44/54] fix: abopt: gradient of assign_component

The gradient given was a view of the one of the attribute, and the component assigned over still received one.
---
 pmesh/abopt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index f9a8bf9..c180d12 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -225,7 +225,9 @@ class ParticleMeshEngine(Engine):
 
     @assign_component.defvjp
     def _(engine, _attribute, _value, dim):
-        _value[...] = _attribute[..., dim]
+        # the previous content of the component is forgotten
+        _value[...] = _attribute[..., dim].copy()
+        _attribute[..., dim] = 0
 
     @assign_component.defjvp
     def _(engine, attribute_, value_, dim):
-- 
2.43.0


From 09e6fe630582b5e2a772912ae3e7229cfcef4396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:28 +0000
Subject: [PATCH 45/54] fix: a domain grid keeps its own copy of the assignment

loadbalance changes it in place, and with it that of other grids made with the same array, whose primary regions did not follow.
---
 pmesh/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index a76a792..7d775c1 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -428,7 +428,8 @@ class GridND(object):
                     end = (i + 1) * self.size // comm.size
                     DomainAssign[start:end] = i
 
-        self.DomainAssign = DomainAssign
+        # a copy, which loadbalance changes
+        self.DomainAssign = numpy.array(DomainAssign, dtype='int32')
 
         dd = numpy.zeros(self.shape, dtype='int16')
 
-- 
2.43.0


From 266fcb0cc64f7dfc25b5207694b03d7d1274125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:28 +0000
Subject: [PATCH 46/54] fix: in-place operations on a field return the field

They returned a new field with a copy of the values, so that after f += 1 further changes of f were not seen by those holding the field.
---
 pmesh/pm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 2d5d0f5..194f8c7 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -200,13 +200,14 @@ class Field(NDArrayLike):
             return self.pm.create(_gettype(self), value=result)
         if type(result) is tuple:
             # multiple return values
-            return tuple(cast(x) for x in result)
+            return tuple(cast(x) if y is None else y
+                for x, y in zip(result, out or (None,) * len(result)))
         elif method == 'at':
             # no return value
             return None
         else:
-            # one return value
-            return cast(result)
+            # one return value; an output given is the result
+            return out[0] if out else cast(result)
 
     def _check_compatible(self, other):
         if isinstance(other, Field):
-- 
2.43.0


From d29c0defe096cbb7c434c4d567a6b73ad018b51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:27 +0000
Subject: [PATCH 47/54] fix: gather data in any memory layout

Data in Fortran order was sent as it lay in memory, scrambling the columns.
---
 pmesh/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 7d775c1..9d350c0 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -64,7 +64,8 @@ def promote(data, comm):
     # all ranks must raise, or those that do not will wait for those that do.
     if any(comm.allgather(mismatch)):
         raise ValueError('the shape of the data does not match across ranks.')
-    return data.astype(dtype_root)
+    # in C order, because gather sends it as it is
+    return data.astype(dtype_root, order='C')
 
 def columns(dtype):
     """ shape of the columns of a packed array """
-- 
2.43.0


From 813f31b6e96821775b5d97b221d3506b74b60cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:54 +0000
Subject: [PATCH 48/54] fix: wrap single precision positions in the precision
 of the edges

---
 pmesh/domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 9d350c0..d70979d 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -375,7 +375,10 @@ class GridND(object):
 
     @staticmethod
     def _wrap(pos, boxsize):
+        # in the precision of boxsize, or the sides of an edge depend on how pos is wrapped.
         # the remainder of a tiny negative position rounds to boxsize, which is 0
+        pos = numpy.asarray(pos)
+        pos = pos.astype(numpy.promote_types(pos.dtype, numpy.asarray(boxsize).dtype))
         pos = numpy.remainder(pos, boxsize)
         return numpy.where(pos >= boxsize, 0, pos)
 
-- 
2.43.0


From 235e05712a3229c345b245628119e5d13d0c8be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:54 +0000
Subject: [PATCH 49/54] fix: isprimary takes nested lists

---
 pmesh/domain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index d70979d..c2398d3 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -575,6 +575,8 @@ class GridND(object):
 
         """
 
+        pos = numpy.asarray(pos)
+
         if self.primary_region is None:
             return numpy.zeros(len(pos), dtype='?')
 
-- 
2.43.0


From b641b6c0f43b5ede5706dd99c92040da6b275f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:54 +0000
Subject: [PATCH 50/54] fix: ravel into an array of the wrong size raises on
 every rank

---
 pmesh/pm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 194f8c7..8fdaad9 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -416,7 +416,8 @@ class Field(NDArrayLike):
             out = out.flat
 
         assert isinstance(out, numpy.flatiter)
-        assert len(out) == self.size
+        # all ranks must raise, or those that do not will wait for those that do.
+        assert all(self.pm.comm.allgather(len(out) == self.size))
         if self.pm.comm.size > 1:
             ind = numpy.ravel_multi_index(numpy.mgrid[self.slices], self.cshape)
             return mpsort.sort(self.flat, orderby=ind.flat, comm=self.pm.comm, out=out)
-- 
2.43.0


From b8d4ca9c79ffa6a9de017e8a9bef65e4c2db99e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:08 +0000
Subject: [PATCH 51/54] fix: ctranspose takes axes as a tuple

---
 pmesh/pm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 8fdaad9..d06d5d6 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -718,6 +718,9 @@ class RealField(Field):
         assert len(numpy.unique(axes)) == self.ndim
         assert numpy.max(axes) == self.ndim - 1
 
+        # a tuple would be an index in several dimensions
+        axes = list(axes)
+
         # create a new pm with transposed BoxSize and Nmesh
         pm = self.pm.reshape(BoxSize=self.BoxSize[axes], Nmesh=self.Nmesh[axes])
 
-- 
2.43.0


From a97e61ebf48b6c5f3dad5b34f41f60923618dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:08 +0000
Subject: [PATCH 52/54] fix: resample from a real to a complex mesh

---
 pmesh/pm.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index d06d5d6..b619928 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -519,6 +519,16 @@ class Field(NDArrayLike):
                 for t, s in zip(indtable, complex.slices) ],
                 self.cshape)
 
+        # the half that pmsrc does not store is the conjugate of the other half
+        conj = numpy.zeros(ind.shape, dtype='?')
+        if self.compressed and not complex.compressed:
+            conj[...] = indtable[-1][complex.slices[-1]] >= self.cshape[-1]
+            dual = build_index(
+                    [numpy.where(t < 0, t, -t % n)[s]
+                    for t, n, s in zip(indtable, self.Nmesh, complex.slices) ],
+                    self.cshape)
+            ind[conj] = dual[conj]
+
         # fill the points that has values in pmsrc
         mask = ind >= 0
         # their indices
@@ -529,6 +539,7 @@ class Field(NDArrayLike):
 
         # fill in the value
         complex[mask] = data
+        numpy.conjugate(complex.value, out=complex.value, where=conj)
 
         # ensure the down sample is real
         for i, slab in zip(complex.slabs.i, complex.slabs):
-- 
2.43.0


From 6d8036c4e0823204f1da410ecf9a621e47bed96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:04 +0000
Subject: [PATCH 53/54] fix: abopt: an odd mesh has no nyquist modes

---
 pmesh/abopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index c180d12..5b788b4 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -13,7 +13,7 @@ from pmesh.pm import ParticleMesh, RealField, ComplexField
 def nyquist_mask(factor, v):
     # any nyquist modes are set to 0 if the transfer function is complex
     mask = (numpy.imag(factor) == 0) | \
-            ~reduce(numpy.bitwise_and, [(ii == 0) | (ii == ni // 2) for ii, ni in zip(v.i, v.Nmesh)])
+            ~reduce(numpy.bitwise_and, [(ii == 0) | (2 * ii == ni) for ii, ni in zip(v.i, v.Nmesh)])
     return factor * mask
 
 def add_zero(a, b):
-- 
2.43.0


From 6056656845cedbed394354135d3329f0515e8cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 54/54] fix: arithmetic on a real field keeps imaginary parts

---
 pmesh/pm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index b619928..f14d352 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -192,6 +192,9 @@ class Field(NDArrayLike):
             # just return the ndarray
             if result.dtype == '?':
                 return result
+            # complex, a field of a real mesh would lose the imaginary part
+            if result.dtype.kind == 'c' and self.dtype.kind != 'c':
+                return result
             # different shape, cannot be reasonable Field objects
             # just return the ndarray
             if result.shape != self.shape:
-- 
2.43.0

