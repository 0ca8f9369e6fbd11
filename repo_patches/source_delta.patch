From e54a40628194ebb3d36a044d0cc2579cda4ee482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 01/58] fix: store refuses chains whose structure the file
 cannot describe, loading checks sizes

---
 xmps/fMPS.py | 9 ++++++++-
 xmps/iMPS.py | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 084d638..3b84522 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -443,6 +443,8 @@ class fMPS(object):
 
         if D is None:
             D = d**L
+        if L == 1:
+            return [(self.d, 1, 1)] if phys else [(1, 1)]
         left = [(min(d**n, D), min(d**(n+1), D)) for n in range(L//2)]
 
         def transpose(ltups):
@@ -1033,6 +1035,8 @@ class fMPS(object):
             vec = reduce(lambda x, y: x+1j*y, chop(vec, 2))
         if structure is None and L is not None and d is not None and D is not None:
             structure = [(d, *x) for x in self.create_structure(L, d, D)]
+        if sum([prod(shape) for shape in structure]) != len(vec):
+            raise ValueError('vector does not have the size of the structure')
         new_data = []
         for shape in structure:
             new_data.append(vec[:prod(shape)].reshape(shape))
@@ -1047,7 +1051,10 @@ class fMPS(object):
                            but bd varies along chain.
         """
         if not structured:
-            save(filename, ct([array([self.L, self.d, self.D]), self.serialize()]))
+            L, d, D = len(self.data), self.data[0].shape[0], self.bond_dimension
+            if [x.shape for x in self.data] != [(d, *x) for x in self.create_structure(L, d, D)]:
+                raise ValueError('non standard structure: store with structured=True')
+            save(filename, ct([array([L, d, D]), self.serialize()]))
         else:
             st = reduce(tuple.__add__, [x.shape for x in self.data])
             st = (len(st),)+st
diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 5d87640..82d39ae 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -515,6 +515,8 @@ class iMPS(object):
             vec = reduce(lambda x, y: x+1j*y, chop(vec, 2))
         self.period, self.d, self.D = p, d, D
         structure = [x for x in self.create_structure(d, D, p)]
+        if sum([prod(shape) for shape in structure]) != len(vec):
+            raise ValueError('vector does not have the size of the structure')
         self.data = []
         for shape in structure:
             self.data.append(vec[:prod(shape)].reshape(shape))
@@ -525,7 +527,10 @@ class iMPS(object):
         """store in file
         :param filename: filename to store in
         """
-        save(filename, ct([array([self.d, self.D, self.period]), self.serialize()]))
+        d, D, p = self.data[0].shape[0], self.data[0].shape[-1], len(self.data)
+        if [x.shape for x in self.data] != self.create_structure(d, D, p):
+            raise ValueError('cannot store a unit cell with different tensor shapes')
+        save(filename, ct([array([d, D, p]), self.serialize()]))
 
     def load(self, filename):
         """load from file
-- 
2.43.0


From 263fc5207ef6b7049a4d917fce3ff0b9b9493997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 02/58] fix: measurements re-centre a chain whose tensors
 changed since its last gauge

The canonical/orthogonal flags and the position of the orthogonality centre
were kept when sites were replaced, gates applied, sites post-selected or
only part of the chain swept, so E, E_k and rho contracted the wrong
environment. post_select and apply_two_site also left L and D stale.
---
 xmps/fMPS.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 3b84522..b132b90 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -145,6 +145,10 @@ class fMPS(object):
     """finite MPS:
     lists of numpy arrays (1d) of numpy arrays (2d). Finite"""
 
+    # what is known about the gauge: only valid together with self.oc
+    canonical = False
+    orthogonal = False
+
     def __init__(self, data=None, d=None, D=None):
         """__init__
 
@@ -188,6 +192,16 @@ class fMPS(object):
         """__setitem__
         """
         self.data[key] = value
+        self.forget_gauge()
+
+    def forget_gauge(self):
+        """forget_gauge: the tensors changed, nothing is known about the gauge"""
+        self.canonical = False
+        self.orthogonal = False
+
+    def has_centre_in(self, sites):
+        """has_centre_in: is the orthogonality centre known to be on one of sites"""
+        return (self.canonical or self.orthogonal) and hasattr(self, 'oc') and self.oc in sites
 
     def __eq__(self, other):
         """__eq__
@@ -408,6 +422,7 @@ class fMPS(object):
         """
         self.L = L
         self.d = d
+        self.forget_gauge()
         if D == 1:
             self.D = 1
             # random product states
@@ -429,8 +444,6 @@ class fMPS(object):
                 for shape in self.create_structure(L, d, D)]
         self.D = max([max(shape[1:]) for shape in self.create_structure(L, d, D)])
         self.data = MPS
-        self.canonical = False
-        self.orthogonal = False
         return self
 
     def create_structure(self, L, d, D, phys=False):
@@ -474,6 +487,7 @@ class fMPS(object):
         if D is not None:
             self.D = min(D, self.D)
 
+        self.forget_gauge()
         self.ok = True
 
         def split(M):
@@ -546,6 +560,7 @@ class fMPS(object):
         if D is not None:
             self.D = min(D, self.D)
 
+        self.forget_gauge()
         self.ok = True
 
         def split(M):
@@ -623,8 +638,8 @@ class fMPS(object):
         :param testing: test canonicalness
         """
         self.ok = True
-        self.oc = oc
         self.right_canonicalise(D, minD=False, sweep_back=sweep_back)
+        self.forget_gauge()
 
         def split(M):
             """split: Do SVD and reshape A matrix
@@ -647,6 +662,7 @@ class fMPS(object):
 
         self.canonical = True
         self.orthogonal = True
+        self.oc = oc
         return self
 
     def right_orthogonalise(self, fr=0, to=None):
@@ -654,6 +670,7 @@ class fMPS(object):
            (no sweeping back to sort out left envs, no info on rank anywhere. Uses QR)
            :param fr: where to orthogonalise from. Inclusive (self[fr] gets orthoed)"""
         to = self.L if to is None else to
+        self.forget_gauge()
         for m in reversed(range(fr, to)):
             A, pipe = group_legs(self.data[m], [[1], [0, 2]])
             R, Q = sp.linalg.rq(A, mode='economic')
@@ -672,6 +689,7 @@ class fMPS(object):
            (no sweeping back to sort out right envs, no info on rank anywhere. Uses QR)
            :param to: where to orthogonalise to. Exclusive (self[to] doesn't get orthoed"""
         to = self.L if to is None else to
+        self.forget_gauge()
         for m in range(fr, to):
             A, pipe = group_legs(self.data[m], [[0, 1], [2]])
             Q, R = sp.linalg.qr(A, mode='economic')
@@ -862,6 +880,9 @@ class fMPS(object):
         else:
             self.data[site+1] = self.data[site][which, :, :]@self.data[site+1]
         del self.data[site]
+        self.forget_gauge()
+        self.L = len(self.data)
+        self.D = self.bond_dimension
         return self
 
     def apply_two_site(self, opsites, which='l', D=None, truncate_swaps=False):
@@ -894,6 +915,7 @@ class fMPS(object):
                 i_ = i_+1
                 self[i_], self[i_+1] = apply_unitary([self[i_], self[i_+1]], SWAP, which, swap_D)
                 #self.apply_two_site((SWAP, (i_, i_+1)))
+            self.D = self.bond_dimension
             return self
 
     def apply_two_site_isometry(self, opsites, lr=0):
@@ -921,7 +943,7 @@ class fMPS(object):
         :param op: 1 site operator
         :param site: site
         """
-        if (not self.canonical and not self.orthogonal) or (hasattr(self, 'oc') and self.oc != site):
+        if not self.has_centre_in([site]):
             self.mixed_orthogonalise(site)
         M = self[site]
         return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]], [3, 4, 1, 2]))
@@ -948,7 +970,7 @@ class fMPS(object):
         :param sites: sites operator acts on. Should be contiguous
         :param single_string: whether the operator is of the form OxO'xO''x... (vs. sum of similar) 
                if so, op should be list [(d, d), (d, d), ..]'''
-        if (not self.canonical and not self.orthogonal) or (hasattr(self, 'oc') and self.oc not in sites):
+        if not self.has_centre_in(sites):
             self.mixed_orthogonalise(sites[0])
         Ms = [self.data[x] for x in sites]
         k = len(sites)
@@ -978,7 +1000,7 @@ class fMPS(object):
         if self.bond_dimension == 1 and single_string:
             return [ncon([np.squeeze(self[i])]+[np.squeeze(self[i].conj())], [[-1], [-2]]) for i in sites]
         else:
-            if not hasattr(self, 'oc') or self.oc not in sites:
+            if not self.has_centre_in(sites):
                 self.mixed_orthogonalise(sites[0])
             links = [([-i, i, i+1] if i!= len(sites) else [-i, i, 2*len(sites)+1]) for i in range(1, len(sites)+1)]+\
                     [([-i, i, i+1] if i != len(sites)+1 else [-i, 1, i+1]) for i in range(len(sites)+1, 2*len(sites)+1)]
@@ -1162,6 +1184,7 @@ class fMPS(object):
             A[m], A[m+1] = ct([A[m]+dt*dA_dt[m], dA01], 2), ct([A[m+1]+dt*dA_dt[m+1], dA10], 1)
 
         self.D = max([max(shape) for shape in self.structure()])
+        self.forget_gauge()
 
         return self
 
-- 
2.43.0


From 20e38d28d1ba33dd4460e681e56fb7266de7ae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 03/58] fix: canonicalising a chain with degenerate Schmidt
 values keeps its state

The environments are hermitian, but were diagonalised with a general solver,
whose eigenvectors are not orthogonal in degenerate subspaces.
---
 xmps/tensor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 2212f12..f296053 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -3,7 +3,7 @@ import unittest
 from numpy.random import randn
 from scipy.sparse.linalg import eigs as arnoldi
 from scipy.linalg import qr, expm, norm, svd
-from numpy.linalg import eig as neig, eigvals, inv
+from numpy.linalg import eig as neig, eigh, eigvals, inv
 from numpy import swapaxes, count_nonzero, diag, insert, pad, dot, argmax, sqrt
 from numpy import allclose, array, tensordot, transpose, all, identity, squeeze
 from numpy import isclose, mean, sign, kron, zeros, conj, max, concatenate, eye
@@ -236,10 +236,11 @@ def tr_svd(A, D):
     return U[:, :D], diag(s[:D]), V[:D, :]
 
 def diagonalise(M):
-    """diagonalise: wrap eig better
+    """diagonalise: orthonormal eigenvectors of a hermitian matrix,
+       largest eigenvalue first
        :param M: matrix to diagonalise """
-    S, V = neig(M)
-    return (V, diag(S))
+    S, V = eigh((M + M.conj().T)/2)
+    return (V[:, ::-1], diag(S[::-1]))
 
 def rotate_to_hermitian(r, testing=False, ret_phase=False):
     """rotate_to_hermitian: arnoldi returns matrices that are hermitian up
-- 
2.43.0


From 076b42a1431c9ba620b3f5390d6c20aa082f4d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 04/58] fix: two-site gates honour the order of their sites and
 any local dimension

A gate on (i, j) with i > j acted as if it was given for (j, i), long range
gates swapped two-level systems whatever the local dimension was, and a
one-site operator with two sites named raised NameError.
---
 xmps/fMPS.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index b132b90..ab33a41 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -61,6 +61,10 @@ SWAP = np.array([[1, 0, 0, 0],
                  [0, 1, 0, 0],
                  [0, 0, 0, 1]])
 
+def swap_gate(d):
+    '''swap two sites of local dimension d'''
+    return np.eye(d**2).reshape([d]*4).transpose([1, 0, 2, 3]).reshape(d**2, d**2)
+
 from .ncon import ncon as nc
 def ncon(*args, **kwargs): return nc(*args, check_indices=False, **kwargs) # make default ncon not check indices
 
@@ -895,25 +899,27 @@ class fMPS(object):
         swap_D = None if not truncate_swaps else D
         op, sites = opsites
         assert op.shape[0]==op.shape[1]
-        if op.shape[0] == 2:
-            if len(sites) == 1:
-                self = self.apply((op, sites[0]))
-                return self
-            else:
-                self = self.apply((op, [i, j][{'l':0, 'r':1}[which]]))
-                return self
+        if op.shape[0] == self.d:
+            site = sites[0] if len(sites) == 1 else sites[{'l':0, 'r':1}[which]]
+            self = self.apply((op, site))
+            return self
         else:
             i, j = sites
-            i, j = (i, j) if (j > i) else (j, i)
+            assert i != j
+            swap = swap_gate(self.d)
+            if j < i:
+                # op acts on (i, j) in this order
+                i, j = j, i
+                op = swap@op@swap
             i_ = j-1
             while i_ >= i+1:
-                self[i_], self[i_+1] = apply_unitary([self[i_], self[i_+1]], SWAP, which, swap_D)
+                self[i_], self[i_+1] = apply_unitary([self[i_], self[i_+1]], swap, which, swap_D)
                 #self.apply_two_site((SWAP, (i_, i_+1)))
                 i_ = i_-1
             self[i], self[i+1] = apply_unitary([self[i], self[i+1]], op, which, D)
             while i_ < j-1:
                 i_ = i_+1
-                self[i_], self[i_+1] = apply_unitary([self[i_], self[i_+1]], SWAP, which, swap_D)
+                self[i_], self[i_+1] = apply_unitary([self[i_], self[i_+1]], swap, which, swap_D)
                 #self.apply_two_site((SWAP, (i_, i_+1)))
             self.D = self.bond_dimension
             return self
@@ -926,12 +932,12 @@ class fMPS(object):
             j, i = i, j
         i_ = j-1
         while i_ >= i+1:
-            self.apply_two_site((SWAP, (i_, i_+1)))
+            self.apply_two_site((swap_gate(self.d), (i_, i_+1)))
             i_ = i_-1
         self[(i, j)[lr]] = apply_isometry([self[i], self[i+1]], op)
         while i_ < j-1:
             i_ = i_+1
-            self.apply_two_site((SWAP, (i_, i_+1)))
+            self.apply_two_site((swap_gate(self.d), (i_, i_+1)))
         return self
 
     def copy(self):
-- 
2.43.0


From 1f942cd01ed3f8c84e83f8f9528ce020f97603ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 05/58] fix: fMPS(data, D=...) truncates instead of raising,
 and keeps its own list of tensors

---
 xmps/fMPS.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ab33a41..c711d7a 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -170,13 +170,10 @@ class fMPS(object):
                 self.d = d
             else:
                 self.d = data[0].shape[0]
+            self.data = list(data)
+            self.D = self.bond_dimension
             if D is not None:
                 self.right_canonicalise(D)
-            else:
-                self.D = max([max(x.shape[1:]) for x in data])
-            self.data = data
-            self.canonical = False
-            self.orthogonal = False
 
     def __call__(self, k):
         """__call__: 1-based indexing
-- 
2.43.0


From 8f9c96c908626405f37039f4a55f8339e44fdeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 06/58] fix: copies, loaded and deserialised states own their
 tensors

copy() shared arrays (and made a plain fMPS out of a thermofield double),
deserialised tensors were views of the vector passed in, and iMPS shared
the list it was given.
---
 xmps/fMPS.py | 4 ++--
 xmps/iMPS.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index c711d7a..132b072 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -938,7 +938,7 @@ class fMPS(object):
         return self
 
     def copy(self):
-        return fMPS(self.data.copy())
+        return type(self)([x.copy() for x in self.data])
 
     def E(self, op, site):
         """E: one site expectation value
@@ -1064,7 +1064,7 @@ class fMPS(object):
             raise ValueError('vector does not have the size of the structure')
         new_data = []
         for shape in structure:
-            new_data.append(vec[:prod(shape)].reshape(shape))
+            new_data.append(vec[:prod(shape)].reshape(shape).copy())
             _, vec = chop(vec, [prod(shape)])
         return fMPS(new_data)
 
diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 82d39ae..456d41d 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -169,7 +169,7 @@ class iMPS(object):
             self.period = len(data)
             self.D = data[0].shape[-1]
             self.d = data[0].shape[0]
-            self.data = data
+            self.data = list(data)
             self.canonical = canonical
 
     def __call__(self, k):
@@ -259,9 +259,9 @@ class iMPS(object):
         return self.data[0].shape
 
     def copy(self):
-        A = iMPS(self.data.copy())
+        A = iMPS([x.copy() for x in self.data])
         if hasattr(self, 'r') or hasattr(self, 'l'):
-            A.l, A.r = self.l, self.r
+            A.l, A.r = self.l.copy(), self.r.copy()
         return A
 
     def random(self, d, D, period=1):
@@ -519,7 +519,7 @@ class iMPS(object):
             raise ValueError('vector does not have the size of the structure')
         self.data = []
         for shape in structure:
-            self.data.append(vec[:prod(shape)].reshape(shape))
+            self.data.append(vec[:prod(shape)].reshape(shape).copy())
             _, vec = chop(vec, [prod(shape)])
         return self
 
-- 
2.43.0


From bf1e7a494abb54ff3f6dfa21f967d26697d98e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 07/58] fix: trajectories keep the shape of every record

Records made after expanding, contracting or rank loss were read with the
bond dimension of another record; clear() left stale bond dimensions and
results behind; integrating changed the current state in place before the
first record; copies shared their history.
---
 xmps/fMPS.py  |   2 +-
 xmps/fTDVP.py | 125 ++++++++++++++++++++++++++++++--------------------
 2 files changed, 75 insertions(+), 52 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 132b072..ea5e35d 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1143,7 +1143,7 @@ class fMPS(object):
         L, d, D = self.L, self.d, self.D
         for m, (sh, sh_) in enumerate(zip(self.structure(), self.create_structure(L, d, D_))):
             self[m] = pad(self[m], list(zip([0, 0, 0], (0, *tuple(array(sh_)-array(sh))))), 'constant')
-        self.D = D_
+        self.D = self.bond_dimension
         return self.left_canonicalise(minD=False)
 
     def should_expand(self, H, dt, threshold):
diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c804f38..f898d66 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -60,24 +60,57 @@ class Trajectory(object):
 
         self.mps_0 = mps_0.copy() if mps_0 is not None else mps_0
         self.mps = mps_0.copy() if mps_0 is not None else mps_0
-        self.Ds = [self.mps.D] if self.mps is not None else []
         self.fullH = fullH
-        self.mps_history = []
+        self.clear_history()
         self.run_name = run_name
         self.continuous = continuous
 
+    def clear_history(self):
+        """clear_history: forget all records"""
+        self.mps_history = []
+        self.structures = []
+        # bond dimensions of the records, and (last) of the current state
+        self.Ds = [self.mps.D] if self.mps is not None else []
+
+    def record(self, mps):
+        """record: add a state to the history
+
+        :param mps: state to add
+        """
+        n = len(self.mps_history)
+        self.structures[n:] = [[x.shape for x in mps.data]]
+        self.Ds[n:] = [mps.bond_dimension]*2
+        self.mps_history.append(mps.serialize(real=True))
+
+    def records(self):
+        """records: all recorded states"""
+        return [self.read_record(n) for n in range(len(self.mps_history))]
+
+    def read_record(self, n):
+        """read_record: the nth recorded state"""
+        n = range(len(self.mps_history))[n]
+        if n < len(self.structures):
+            return fMPS().deserialize(self.mps_history[n], real=True, structure=self.structures[n])
+        else:
+            return fMPS().deserialize(self.mps_history[n], self.mps.L, self.mps.d, self.Ds[n], real=True)
+
+    def record_ed_history(self):
+        """record_ed_history: if there is only exact diagonalisation data, make records from it"""
+        if hasattr(self, 'ed_history') and not self.mps_history:
+            for x in tqdm(self.ed_history):
+                self.record(fMPS().left_from_state(
+                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise())
+
     def euler(self, mps, dt, H=None, store=True):
         H = self.H if H is None else H
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         return (mps + mps.dA_dt(H, fullH=self.fullH)*dt).left_canonicalise(mps.D)
 
     def rk4(self, mps, dt, H=None, store=True):
         H = self.H if H is None else H
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         k1 = mps.dA_dt(H, fullH=self.fullH)*dt
         k2 = (mps+k1/2).dA_dt(H, fullH=self.fullH)*dt
         k3 = (mps+k2/2).dA_dt(H, fullH=self.fullH)*dt
@@ -88,8 +121,7 @@ class Trajectory(object):
     def invfree(self, mps, dt, W=None, store=True):
         W = W if W is not None else self.W
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         if self.continuous:
             A_old = mps.copy()
         A = tdvp(mps.data, W, 1j*dt/2)
@@ -99,8 +131,7 @@ class Trajectory(object):
         """invfree4 fourth order symmetric composition
         """
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         if self.continuous:
             A_old = mps.copy()
         a1, a2, a3 = b5, b4, b3 = (146+5*sqrt(19)) / \
@@ -119,25 +150,23 @@ class Trajectory(object):
 
         :param T:
         """
-        mps, H = self.mps.left_canonicalise(), self.H
-        L, d, D = mps.L, mps.d, mps.D
+        mps = self.mps.copy().left_canonicalise()
 
         for t in tqdm(T):
             mps = self.euler(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
+        self.mps = self.read_record(-1)
         return self
 
     def rk4int(self, T):
         """rk4int: integrate with rk4 timesteps
         """
-        mps, H = self.mps.left_canonicalise(), self.H
-        L, d, D = mps.L, mps.d, mps.D
+        mps = self.mps.copy().left_canonicalise()
 
         for t in tqdm(T):
             mps = self.rk4(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
+        self.mps = self.read_record(-1)
         return self
 
     def invfreeint(self, T, D=None, order='low'):
@@ -149,8 +178,7 @@ class Trajectory(object):
         :param D: bond dimension to run simulation at
         """
         assert self.W is not None
-        mps, H = self.mps, self.H
-        L, d, D = mps.L, mps.d, mps.D
+        mps = self.mps
         # if D> mps.D:
         #    mps.expand(D)
         # else:
@@ -162,25 +190,25 @@ class Trajectory(object):
             elif order == 'low':
                 mps = self.invfree(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
+        self.mps = self.read_record(-1)
         return self
 
     def expand(self, D):
         self.mps.expand(D)
-        self.Ds[-1] = D
+        self.Ds[-1] = self.mps.bond_dimension
         return self
 
     def dynamical_expand(self, D, dt, H=None):
         assert self.H is not None or H is not None
         H = self.H if H is None and self.H is not None else H
 
-        self.mps.dynamical_expand(self.H, dt, D, None)
-        self.Ds[-1] = D
+        self.mps.dynamical_expand(H, dt, D, None)
+        self.Ds[-1] = self.mps.bond_dimension
         return self
 
     def contract(self, D):
         self.mps.left_canonicalise(D)
-        self.Ds[-1] = D
+        self.Ds[-1] = self.mps.bond_dimension
         return self
 
     def odeint(self, T):
@@ -258,7 +286,7 @@ class Trajectory(object):
                 self.invfreeint(
                     linspace(0, t_burn, int(50*t_burn)), order='high')
                 self.burn_len = int(200*t_burn)
-                self.mps_history = []
+                self.clear_history()
             else:
                 self.mps = self.mps.grow(self.H, 0.1, D).right_canonicalise()
                 self.rk4int(linspace(0, 1, 100))
@@ -301,7 +329,7 @@ class Trajectory(object):
                     linspace(0, t_burn, int(50*t_burn)), order=order)
                 self.burn_len = int(200*t_burn)
                 self.mps = self.mps.left_canonicalise()
-                self.mps_history = []
+                self.clear_history()
             else:
                 self.mps = self.mps.grow(self.H, 0.1, D).right_canonicalise()
                 self.rk4int(linspace(0, 1, 100))
@@ -485,25 +513,14 @@ class Trajectory(object):
         return Ws
 
     def mps_list(self):
-        if hasattr(self, 'ed_history') and not self.mps_history:
-            for x in tqdm(self.ed_history):
-                mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
-                self.mps_history.append(mps.serialize(real=True))
+        self.record_ed_history()
         assert self.mps_history
-        L, d, D = self.mps.L, self.mps.d, self.mps.D
-        return [fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
+        return self.records()
 
     def mps_evs(self, ops, site):
-        if hasattr(self, 'ed_history') and not self.mps_history:
-            for x in self.ed_history:
-                mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
-                self.mps_history.append(mps.serialize(real=True))
+        self.record_ed_history()
         assert self.mps_history
-        L, d, D = self.mps.L, self.mps.d, self.mps.D
-        return array([mps.Es(ops, site)
-                      for mps in (fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history))])
+        return array([mps.Es(ops, site) for mps in self.records()])
 
     def mps_energies(self):
         assert self.H is not None
@@ -519,8 +536,7 @@ class Trajectory(object):
         return self.ed_evs([H])
 
     def deserialize(self):
-        L, d, D = self.mps.L, self.mps.d, self.mps.D
-        return list(map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history))
+        return self.records()
 
     def schmidts(self):
         if hasattr(self, 'ed_history'):
@@ -534,9 +550,8 @@ class Trajectory(object):
             return sch
         else:
             assert self.mps_history
-            L, d, D = self.mps.L, self.mps.d, self.mps.D
             sch = []
-            for mps in (fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)):
+            for mps in self.records():
                 sch.append([diag(x) for x in mps.left_canonicalise().Ls])
             return sch
 
@@ -551,10 +566,9 @@ class Trajectory(object):
             return sch
         else:
             assert self.mps_history
-            L, d, D = self.mps.L, self.mps.d, self.mps.D
-            psi_0 = fMPS().deserialize(self.mps_history[0], L, d, D, real=True)
+            psi_0 = self.read_record(0)
             lss = []
-            for psi in map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history):
+            for psi in self.records():
                 lss.append(np.abs(psi_0.overlap(psi)))
             return lss
 
@@ -573,10 +587,11 @@ class Trajectory(object):
         return array([[re(psi.conj()@op@psi) for op in ops] for psi in self.ed_history])
 
     def clear(self):
-        self.mps_history = []
         self.mps = self.mps_0.copy()
-        if hasattr(self, 'lys'):
-            delattr(self, 'lys')
+        self.clear_history()
+        for result in ['ed_history', 'psi', 'lys', 'lys_', 'exps', 'exps_', 'q', 'Q', 'vL']:
+            if hasattr(self, result):
+                delattr(self, result)
 
     def save(self, loc='data/', exps=True, clear=True):
         assert self.mps_history
@@ -645,4 +660,12 @@ class Trajectory(object):
             glob.glob(os.path.join(self.run_dir, '*state*')))
 
     def copy(self):
-        return copy(self)
+        other = copy(self)
+        for state in ['mps', 'mps_0']:
+            mps = getattr(self, state)
+            if mps is not None:
+                setattr(other, state, deepcopy(mps))
+        other.mps_history = list(self.mps_history)
+        other.structures = list(self.structures)
+        other.Ds = list(self.Ds)
+        return other
-- 
2.43.0


From 3ca5ff2ee08a71151a8a361bb4c6affdce2b28bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 08/58] fix: time derivatives are right whatever gauge the
 chain is in

---
 xmps/fMPS.py | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ea5e35d..dfeceb7 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1207,6 +1207,17 @@ class fMPS(object):
         :param self: matrix product state @ current time
         :param H: Hamiltonian
         """
+        if prs_vLs is None:
+            # everything below assumes identity left, and diagonal right environments
+            gauge = self.to_diagonal_envs()
+            if gauge is not None:
+                mps, G = gauge
+                dA = mps.dA_dt(H, store_energy, fullH)
+                self.dA_cache = {}
+                self.get_envs(True)
+                self.e = getattr(mps, 'e', None)
+                return fMPS([inv(G[m])@B@G[m+1] for m, B in enumerate(dA)])
+
         self.dA_cache = {}
         L, d, A = self.L, self.d, self.data
         l, r = self.get_envs(True)
@@ -1263,6 +1274,34 @@ class fMPS(object):
 
         return fMPS([B(i) for i in range(L)])
 
+    def to_diagonal_envs(self, tol=1e-12):
+        """to_diagonal_envs: mps (same state up to norm), G with self[m] = inv(G[m])@mps[m]@G[m+1],
+        where mps is left canonical with diagonal right environments.
+        None if self has this form already or there is no such G (bond dimension larger than the state needs)."""
+        Gs, As = [identity(1)], []
+        for A in self.data:
+            A = Gs[-1]@A
+            if A.shape[2] > A.shape[0]*A.shape[1]:
+                return None
+            Q, R = sp.linalg.qr(A.reshape(-1, A.shape[2]), mode='economic')
+            As.append(Q.reshape(A.shape))
+            Gs.append(R)
+        rs = [identity(1)]
+        for A in As[::-1]:
+            rs.append(sum(A@rs[-1]@cT(A), axis=0))
+        rs = rs[::-1]
+
+        if all([allclose(cT(R)@R, identity(len(R)), rtol=0, atol=tol) for R in Gs]) and \
+           all([allclose(r_, diag(diag(r_)), rtol=0, atol=tol)
+                for r_ in [cT(R)@r@R for R, r in zip(Gs, rs)]]):
+            return None
+        if any([abs(diag(R)).min() < tol*abs(diag(R)).max() for R in Gs]):
+            return None
+
+        Vs = [diagonalise(r)[0] for r in rs]
+        As = [cT(V)@A@W for V, A, W in zip(Vs, As, Vs[1:])]
+        return fMPS(As, self.d), [cT(V)@R for V, R in zip(Vs, Gs)]
+
     def ddA_dt(self, v, H, fullH=False):
         """d(dA)_dt: find ddA_dt - in 2nd tangent space:
            for time evolution of v in tangent space
-- 
2.43.0


From f650f16fd162c098a406b8b17ed942f9fd727006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 09/58] fix: odeint records every time, keeps the run's state
 and reports a failed solver

---
 xmps/fTDVP.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index f898d66..156e6c9 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -33,6 +33,7 @@ import numpy as np
 
 from scipy.linalg import sqrtm, expm, norm, null_space as null, cholesky as ch
 from scipy.sparse.linalg import expm_multiply, expm
+from scipy.integrate import solve_ivp
 
 from matplotlib import pyplot as plt
 from functools import reduce
@@ -219,8 +220,8 @@ class Trajectory(object):
         :param T: timesteps
         :param D: bond dimension to truncate initial state to
         """
-        mps, H = self.mps.left_canonicalise(), self.H
-        L, d, D = mps.L, mps.d, mps.D
+        mps, H = self.mps.copy().left_canonicalise(), self.H
+        structure = [x.shape for x in mps.data]
         bar = tqdm()
         m = 0
 
@@ -234,23 +235,25 @@ class Trajectory(object):
             nonlocal m
             m += 1
             if m == 4:
-                return fMPS().deserialize(v, L, d, D, real=True)\
+                return fMPS().deserialize(v, real=True, structure=structure)\
                     .left_canonicalise()\
                     .dA_dt(H, fullH=self.fullH)\
                     .serialize(real=True)
             else:
-                return fMPS().deserialize(v, L, d, D, real=True)\
+                return fMPS().deserialize(v, real=True, structure=structure)\
                     .dA_dt(H, fullH=self.fullH)\
                     .serialize(real=True)
 
         v = mps.serialize(real=True)
         Q = solve_ivp(f, (T[0], T[-1]), v, method='LSODA', t_eval=T,
-                      max_step=T[1]-T[0], min_step=T[1]-T[0])
-        traj = Q.y.T
+                      max_step=T[1]-T[0])
         bar.close()
+        if not Q.success:
+            raise RuntimeError(Q.message)
 
-        self.mps_history = traj
-        self.mps = fMPS().deserialize(traj[-1], L, d, D, real=True)
+        for v in Q.y.T:
+            self.record(fMPS().deserialize(v, real=True, structure=structure))
+        self.mps = self.read_record(-1)
         return self
 
     def edint(self, T):
-- 
2.43.0


From 31369ab46877e6e116aec023ca06075cee600c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 10/58] fix: lyapunov averages exponents from the first step

---
 xmps/fTDVP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 156e6c9..0f36c7c 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -356,10 +356,10 @@ class Trajectory(object):
         dt = T[1]-T[0]
 
         lys = []
-        exps = [array([0])]
+        exps = [zeros(Q.shape[1])]
 
         lys_ = []
-        exps_ = [array([0])]
+        exps_ = [zeros(Q.shape[1])]
 
         self.vs = []
 
-- 
2.43.0


From 3bed5e78ffd3b47c03378473db4c135d8afbd483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 11/58] fix: return probabilities and entropies of exactly
 evolved and rank deficient runs

---
 xmps/fTDVP.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 0f36c7c..22fbe63 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -560,13 +560,8 @@ class Trajectory(object):
 
     def loschmidt(self):
         if hasattr(self, 'ed_history'):
-            sch = []
-            mpss = []
-            print('calculating mps from ed...')
-            for x in tqdm(self.ed_history):
-                mps = fMPS().left_from_state(x.reshape([self.mps.d]*self.mps.L))
-                sch.append([diag(x) for x in mps.left_canonicalise().Ls])
-            return sch
+            psi_0 = self.ed_history[0]
+            return [np.abs(psi_0.conj()@psi) for psi in self.ed_history]
         else:
             assert self.mps_history
             psi_0 = self.read_record(0)
@@ -576,14 +571,13 @@ class Trajectory(object):
             return lss
 
     def von_neumann(self, i=None):
-        sch = array(self.schmidts())
-        S_max = array([max([-re(s@log(s)) for s in S]) for S in sch])
-        return S_max
+        def S(s):
+            s = s[s > 0]
+            return sum(-s*log(s))
+        return array([max([S(re(s)) for s in sch]) for sch in self.schmidts()])
 
     def renyi(self, α=2):
-        sch = array(self.schmidts())
-        R = array([max([1/(1-α)*log(sum(s**α)) for s in S]) for S in sch])
-        return R
+        return array([max([1/(1-α)*log(sum(re(s)**α)) for s in sch]) for sch in self.schmidts()])
 
     def ed_evs(self, ops):
         assert hasattr(self, "ed_history")
-- 
2.43.0


From 8c386192b2ac0478f5ce1a70edbfb8362c5d4af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 12/58] fix: checkpoints are numbered past nine, appear only
 when complete, and can be resumed

---
 xmps/fTDVP.py | 152 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 111 insertions(+), 41 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 22fbe63..a808461 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -1,10 +1,11 @@
 import os
-import glob
 import shutil
 import unittest
 import pickle
 
+from re import fullmatch as re_match, escape as re_escape
 from time import time
+from uuid import uuid4
 
 from .fMPS import fMPS
 from .tensor import get_null_space, H as cT, C as c
@@ -44,6 +45,31 @@ Sx1, Sy1, Sz1 = N_body_spins(0.5, 1, 2)
 Sx2, Sy2, Sz2 = N_body_spins(0.5, 2, 2)
 
 
+def store_state(mps, filename):
+    """store_state: store a state of any structure
+
+    :param mps: state
+    :param filename: filename: states with a non standard structure are marked by _structured
+    """
+    try:
+        mps.store(filename)
+    except ValueError:
+        mps.store(filename+'_structured', structured=True)
+
+
+def load_state(filename):
+    """load_state: load what store_state stored
+    """
+    return fMPS().load(filename, structured=filename.endswith('_structured.npy'))
+
+
+def saved_runs(loc, run_name):
+    """saved_runs: sorted numbers of the folders saved for run_name in loc
+    """
+    found = [re_match(re_escape(run_name)+r'_([0-9]+)', f) for f in os.listdir(loc or '.')]
+    return sorted([int(f.group(1)) for f in found if f])
+
+
 class Trajectory(object):
     """Trajectory"""
 
@@ -65,6 +91,7 @@ class Trajectory(object):
         self.clear_history()
         self.run_name = run_name
         self.continuous = continuous
+        self.has_run_lyapunov = False
 
     def clear_history(self):
         """clear_history: forget all records"""
@@ -586,6 +613,7 @@ class Trajectory(object):
     def clear(self):
         self.mps = self.mps_0.copy()
         self.clear_history()
+        self.has_run_lyapunov = False
         for result in ['ed_history', 'psi', 'lys', 'lys_', 'exps', 'exps_', 'q', 'Q', 'vL']:
             if hasattr(self, result):
                 delattr(self, result)
@@ -600,61 +628,103 @@ class Trajectory(object):
         if exps:
             if hasattr(self, 'q'):
                 save(loc+'bases/'+self.id+'_basis', self.q)
-                self.mps.store('loc'+'bases/'+self.id+'_state')
+                store_state(self.mps, loc+'bases/'+self.id+'_state')
             elif hasattr(self, 'Q'):
                 save(loc+'bases/'+self.id+'_basis', self.Q)
-                self.mps.store(loc+'bases/'+self.id+'_state')
+                store_state(self.mps, loc+'bases/'+self.id+'_state')
         if clear:
             self.clear()
 
     def stop(self, loc='data'):
-        """stop: save a folder with all the data under loc
+        """stop: save a folder with all the data under loc. The folder appears
+        under its final name only when it is complete
         """
         assert not self.fullH
         assert hasattr(self, 'W')
-        # make directories - doesn't work if more runs than 10
-        # shouldn't be doin more runs than 10
-        # careful that there are no files with run name in the folder
-        run_dir = os.path.join(loc, self.run_name)
-        if not run_dir in map(lambda x: x[:-2], glob.glob(run_dir+'_*')):
-            run_dir = run_dir+'_1'
-            os.makedirs(run_dir)
-        else:
-            n = max(list(map(lambda x: int(x[-1]), glob.glob(run_dir+'_*'))))
-            run_dir = run_dir+'_'+str(n+1)
-            os.makedirs(run_dir)
-
-        self.run_dir = run_dir
-        name = 'L{}_D{}_N{}'.format(
-            self.mps.L, self.mps.D, len(self.mps_history))
-
-        self.mps.store(os.path.join(run_dir, name+'_state'))
-        self.mps_0.store(os.path.join(run_dir, name+'_initial_state'))
-
-        with open(os.path.join(run_dir, name+'_ham'), 'wb') as f:
-            pickle.dump(self.H, f)
-        with open(os.path.join(run_dir, name+'_mpo'), 'wb') as f:
-            pickle.dump(self.W, f)
-        if hasattr(self, 'vL'):
-            with open(os.path.join(run_dir, name+'_vL'), 'wb') as f:
-                pickle.dump(self.vL, f)
-
-        if self.has_run_lyapunov:
-            save(os.path.join(run_dir, name+'_inst_exps'), self.lys)
+        parent, run_name = os.path.split(os.path.join(loc, self.run_name))
+        os.makedirs(parent or '.', exist_ok=True)
+        tmp_dir = os.path.join(parent, '.{}.{}'.format(run_name, uuid4().hex))
+        os.mkdir(tmp_dir)
+        name = os.path.join(tmp_dir, 'L{}_D{}_N{}'.format(
+            self.mps.L, self.mps.D, len(self.mps_history)))
+
+        try:
+            store_state(self.mps, name+'_state')
+            store_state(self.mps_0, name+'_initial_state')
+
+            with open(name+'_ham', 'wb') as f:
+                pickle.dump(self.H, f)
+            with open(name+'_mpo', 'wb') as f:
+                pickle.dump(self.W, f)
+            if hasattr(self, 'vL'):
+                with open(name+'_vL', 'wb') as f:
+                    pickle.dump(self.vL, f)
+
+            if hasattr(self, 'lys'):
+                save(name+'_inst_exps', self.lys)
             if hasattr(self, 'lys_'):
-                save(os.path.join(run_dir, name+'_inst_exps_'), self.lys_)
+                save(name+'_inst_exps_', self.lys_)
             if hasattr(self, 'Q'):
-                save(os.path.join(run_dir, name+'_basis'), self.Q)
+                save(name+'_basis', self.Q)
+
+            n = ([0]+saved_runs(parent, run_name))[-1] + 1
+            run_dir = os.path.join(parent, run_name+'_'+str(n))
+            os.rename(tmp_dir, run_dir)
+        except BaseException:
+            shutil.rmtree(tmp_dir, ignore_errors=True)
+            raise
+
+        self.run_dir = run_dir
         return run_dir
 
     def resume(self, run_name, loc='data', n=None, lys=True):
-        run_dir = os.path.join(loc, run_name)
-        # resume the most recent run if not specified
+        """resume: continue from a folder made by stop
+
+        :param run_name: name of the run
+        :param loc: where the folders are
+        :param n: number of the folder: resume the most recent if not specified
+        :param lys: whether to load the results of lyapunov
+        """
+        parent, base = os.path.split(os.path.join(loc, run_name))
         if n is None:
-            n = max(list(map(lambda x: int(x[-1]), glob.glob(run_dir+'_*'))))
-        self.run_dir = run_dir+'_'+str(n)
-        istate, state = sorted(
-            glob.glob(os.path.join(self.run_dir, '*state*')))
+            if not saved_runs(parent, base):
+                raise FileNotFoundError('no saved run '+os.path.join(loc, run_name))
+            n = saved_runs(parent, base)[-1]
+        run_dir = os.path.join(parent, base+'_'+str(n))
+        files = os.listdir(run_dir)
+
+        def path(suffix, optional=False):
+            found = [f for f in files if re_match(r'L\d+_D\d+_N\d+_'+suffix, f)]
+            if len(found) > 1:
+                raise ValueError('more than one run in '+run_dir)
+            if not found and not optional:
+                raise FileNotFoundError('no {} in {}'.format(suffix, run_dir))
+            return os.path.join(run_dir, found[0]) if found else None
+
+        def unpickle(suffix):
+            with open(path(suffix), 'rb') as f:
+                return pickle.load(f)
+
+        mps_0 = load_state(path(r'initial_state(_structured)?\.npy'))
+        mps = load_state(path(r'state(_structured)?\.npy'))
+        H, W = unpickle('ham'), unpickle('mpo')
+        results = {}
+        if path('vL', optional=True) is not None:
+            results['vL'] = mps.old_vL = unpickle('vL')
+        if lys:
+            for key, suffix in [('lys', 'inst_exps'), ('lys_', 'inst_exps_'), ('Q', 'basis')]:
+                file = path(suffix+r'\.npy', optional=True)
+                if file is not None:
+                    results[key] = load(file)
+
+        self.mps_0, self.H, self.W, self.fullH = mps_0, H, W, False
+        self.clear()
+        self.mps = mps
+        self.clear_history()
+        self.__dict__.update(results)
+        self.has_run_lyapunov = 'lys' in results
+        self.run_name, self.run_dir = run_name, run_dir
+        return self
 
     def copy(self):
         other = copy(self)
-- 
2.43.0


From 80ec50451ef367260fc47cb42587298a5898978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 13/58] fix: tangent space caches cannot return another
 question's answer

---
 xmps/fMPS.py | 78 +++++++++++++++++++++++-----------------------------
 1 file changed, 34 insertions(+), 44 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index dfeceb7..ec0cbfa 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1213,12 +1213,10 @@ class fMPS(object):
             if gauge is not None:
                 mps, G = gauge
                 dA = mps.dA_dt(H, store_energy, fullH)
-                self.dA_cache = {}
                 self.get_envs(True)
                 self.e = getattr(mps, 'e', None)
                 return fMPS([inv(G[m])@B@G[m+1] for m, B in enumerate(dA)])
 
-        self.dA_cache = {}
         L, d, A = self.L, self.d, self.data
         l, r = self.get_envs(True)
         prs_vLs = [self.left_null_projector(n, l, get_vL=True) for n in range(self.L)] if prs_vLs is None else prs_vLs
@@ -1238,7 +1236,6 @@ class fMPS(object):
 
                 R = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
                 Rs = self.left_transfer(R, 0, i) # list of E**k @ R - see left_transfer docs
-                self.dA_cache[str(i)] = Rs
 
                 for m, h in reversed(list(enumerate(H))):
                     if m > i:
@@ -1387,7 +1384,7 @@ class fMPS(object):
 
         ## non unitary (from projection): -<d_id_kψ|(d_t |ψ> +iH|ψ>) (dA_k*) (should be zero for no projection)
         #-<d_id_kψ|d_jψ> dA_j/dt (dA_k*)
-        def Γ2(i, k): return self.christoffel(i, k, min(i, k), envs=(l, r), prs_vLs=prs_vLs, closed=(None, None, l(min(i, k)-1)@dA_dt[min(i, k)]@r(min(i, k))))
+        def Γ2(i, k): return self.christoffel(i, k, min(i, k), envs=(l, r), prs_vLs=prs_vLs, id=id, closed=(None, None, l(min(i, k)-1)@dA_dt[min(i, k)]@r(min(i, k))))
 
         #-i<d_id_k ψ|H|ψ> (dA_k*)
         def F2(i, k): return -1j*self.F2(i, k, H, envs=(l, r), inv_envs=inv_envs, prs_vLs=prs_vLs, id=id)
@@ -1446,15 +1443,15 @@ class fMPS(object):
             self.F1_i_mem_ = {}
             self.F1_j_mem_ = {}
             self.F1_tot_ij_mem = {}
-        else:
+        elif not testing:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F1_tot_ij_mem:
-                return self.F1_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F1_tot_ij_mem:
+                return self.F1_tot_ij_mem[(i_, j_)]
 
             ## have we cached its conjugate?
-            if str(j_)+str(i_) in self.F1_tot_ij_mem:
-                return c(tra(self.F1_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F1_tot_ij_mem:
+                return c(tra(self.F1_tot_ij_mem[(j_, i_)],
                                 [2, 3, 0, 1]))
 
         L, d, A = self.L, self.d, self.data
@@ -1482,7 +1479,7 @@ class fMPS(object):
             d, Din_1, Di = self[i].shape
 
             if not d*Din_1==Di:
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(*[self.d]*4) for h in H]
                 if str(i) not in self.F1_i_mem_:
                     # compute i properties, and store in cache
                     Rd_ = ncon([inv_ch_l(i-1)@c(vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
@@ -1560,7 +1557,7 @@ class fMPS(object):
             if testing:
                 G = 1j*zeros((*A[i].shape, *A[j].shape))
                 d, Din_1, Di = self[i].shape
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(*[self.d]*4) for h in H]
 
                 Rd = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
                 Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -7], [-6, -8]])
@@ -1696,7 +1693,7 @@ class fMPS(object):
             return G
 
         G_ = c(tra(G_, [2, 3, 0, 1])) if j_<i_ else G_
-        self.F1_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F1_tot_ij_mem[(i_, j_)] = G_
         return G_
 
     def F2(self, i_, j_, H, envs=None, inv_envs=None, prs_vLs=None, fullH=False, testing=False, id=None):
@@ -1705,20 +1702,18 @@ class fMPS(object):
         id = id if id is not None else uuid.uuid4().hex
         if self.id_ != id:
             self.id_ = id
-            self.F2_ij_mem = {}
-            self.F2_i_mem = {}
             self.F2_ij_mem_ = {}
             self.F2_i_mem_ = {}
             self.F2_tot_ij_mem = {}
-        else:
+        elif not testing:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F2_tot_ij_mem:
-                return self.F2_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F2_tot_ij_mem:
+                return self.F2_tot_ij_mem[(i_, j_)]
 
             # have we cached its transpose?
-            if str(j_)+str(i_) in self.F2_tot_ij_mem:
-                return tra(self.F2_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F2_tot_ij_mem:
+                return tra(self.F2_tot_ij_mem[(j_, i_)],
                            [2, 3, 0, 1])
 
         L, d, A = self.L, self.d, self.data
@@ -1756,15 +1751,15 @@ class fMPS(object):
 
             d, Din_1, Di = self[i].shape
             if not d*Din_1==Di:
-                if str(i)+str(j) not in self.F2_ij_mem:
+                if (i, j) not in self.F2_ij_mem_:
                     # new stuff
                     Rj_ = ncon([inv_ch_l(j-1)@c(vL(j)), A[j]@ch_r(j)], [[1, -2, -3], [1, -1, -4]])
                     Rjs_ = self.left_transfer(Rj_, i, j)
-                    self.F2_ij_mem_[str(i)+str(j)] = Rjs_
+                    self.F2_ij_mem_[(i, j)] = Rjs_
                 else:
-                    Rjs_ = self.F2_ij_mem_[str(i)+str(j)]
+                    Rjs_ = self.F2_ij_mem_[(i, j)]
 
-                if str(i) not in self.F2_i_mem:
+                if str(i) not in self.F2_i_mem_:
                     # new stuff
                     Ri_ = ncon([inv_ch_l(i-1)@c(vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
                     Ris_ = self.left_transfer(Ri_, 0, i)
@@ -1860,7 +1855,7 @@ class fMPS(object):
             return G
 
         G_ = tra(G_, [2, 3, 0, 1]) if j_<i_ else G_
-        self.F2_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F2_tot_ij_mem[(i_, j_)] = G_
         return G_
 
     def christoffel(self, i, j, k, envs=None, prs_vLs=None, id=None, testing=True, closed=(None, None, None)):
@@ -1872,18 +1867,18 @@ class fMPS(object):
             self.id__ = id
             # initialize the memories
             # we only don't try the cache on the first call from jac
-            self.christ_ij_mem = {}
+            self.christ_j_mem = {}
             self.christ_tot_ij_mem = {}
-        else:
+        elif all([x is None for x in closed]):
             # read from cache:
             # have we cached this tensor?
-            if str(i)+str(j)+str(k) in self.christ_tot_ij_mem:
-                return self.christ_tot_ij_mem[str(i)+str(j)+str(k)]
+            if (i, j, k) in self.christ_tot_ij_mem:
+                return self.christ_tot_ij_mem[(i, j, k)]
 
-            ## have we cached its conjugate?
-            if str(j)+str(i)+str(k) in self.christ_tot_ij_mem:
-                return tra(self.christ_tot_ij_mem[str(j)+str(i)+str(k)],
-                           [3, 4, 5, 0, 1, 2])
+            ## have we cached its transpose?
+            if (j, i, k) in self.christ_tot_ij_mem:
+                return tra(self.christ_tot_ij_mem[(j, i, k)],
+                           [3, 4, 5, 0, 1, 2, 6, 7, 8])
 
         L, d, A = self.L, self.d, self.data
         l, r = self.get_envs() if envs is None else envs
@@ -1925,15 +1920,10 @@ class fMPS(object):
                     G = 1j*zeros((*A[i].shape, *A[j].shape, *A[k].shape))
             else:
                 if contracted:
-                    if str(i)+str(j) not in self.christ_ij_mem:
-                        if hasattr(self, 'dA_cache') and str(j) in self.dA_cache:
-                            Rs = self.dA_cache[str(j)]
-                        else:
-                            R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
-                            Rs = self.left_transfer(R, i, j)
-                            self.christ_ij_mem[str(i)+str(j)] = Rs
-                    else:
-                        Rs = self.christ_ij_mem[str(i)+str(j)]
+                    if j not in self.christ_j_mem:
+                        R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
+                        self.christ_j_mem[j] = self.left_transfer(R, 0, j)
+                    Rs = self.christ_j_mem[j]
 
                     G = ncon([pr(i), closed[-1]@inv(r(i)), Rs(i+1), inv(r(i))], [[-1, -2, 1, 2], [1, 2, 3], [3, 4, -4, -5, -6], [4, -3]],
                              [1, 2, 3, 4])
@@ -1961,11 +1951,11 @@ class fMPS(object):
         else:
             Γ_c = Γ(i, j, k)
 
-        self.christ_tot_ij_mem[str(i)+str(j)+str(k)] = Γ_c
         if contracted:
             return ungauge(Γ_c, i, j, (True, True))
-        else:
-            return Γ_c
+        if all([x is None for x in closed]):
+            self.christ_tot_ij_mem[(i, j, k)] = Γ_c
+        return Γ_c
 
     def left_null_projector(self, n, l=None, get_vL=False, store_envs=False, vL=None):
         """left_null_projector:           |
-- 
2.43.0


From 74c18400b99a0e4ac4cac8cddcdd04d4749fc63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 14/58] fix: states on a rectangular lattice keep their width
 and height, copy(data) copies data

---
 xmps/fPEPS.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index c629764..963fd87 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -256,8 +256,8 @@ class fPEPS(object):
 
     def __init__(self, data=None, d=None, X=None):
         if data is not None:
-            self.Lx = len(data)
-            self.Ly = len(data[0])
+            self.Lx = len(data[0])
+            self.Ly = len(data)
             if d is not None:
                 self.d = d
             else:
@@ -421,7 +421,7 @@ class fPEPS(object):
 
     def truncate_below(self, row, D):
         '''truncate bonds below row to size D'''
-        if row == self.Lx-1:
+        if row == self.Ly-1:
             raise Exception('nothing below row L-1')
         self.data[row] = [x[:, :, :, :D, :] for x in self.data[row]]
         self.data[row+1] = [x[:, :D, :, :, :] for x in self.data[row+1]]
@@ -430,7 +430,7 @@ class fPEPS(object):
     def truncate_left(self, col, D):
         if col == 0:
             raise Exception('nothing to the left of col 0')
-        for row in range(self.Lx):
+        for row in range(self.Ly):
             self.data[row][col] = self.data[row][col][:, :, :, :, :D]
             self.data[row][col-1] = self.data[row][col-1][:, :, :D, :, :]
         return self
@@ -913,7 +913,7 @@ class fPEPS(object):
     def copy(self, data=None):
         # copy self (or data) into new fPEPS with all of the stuff this fPEPS has (oc, X, d, etc.)
         data = self.data if data is None else data
-        ret = fPEPS([[x.copy() for x in row] for row in self.data])
+        ret = fPEPS([[x.copy() for x in row] for row in data])
         if hasattr(self, 'oc'):
             ret.oc = self.oc
         if hasattr(self, 'X'):
-- 
2.43.0


From 324713bbac40b70bbb0a4e72f628f55cd135d1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 15/58] fix: block expectation values take operators in reading
 order, on blocks of any width

---
 xmps/fPEPS.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 963fd87..62ece65 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -243,6 +243,8 @@ class fMPO(object):
         return self
 
     def recombine(self):
+        if self.L == 1:
+            return np.trace(self.data[0], axis1=1, axis2=3).conj().T
         ncon_indices = [[-1, 1, -self.L-1, self.L+1]]+[[-n-2, n+2, -self.L-2-n, n+1]
                                                        for n in range(self.L-2)] + [[-self.L, self.L+1, -2*self.L, self.L-1]]
         M = ncon(self.data, ncon_indices)
@@ -300,17 +302,17 @@ class fPEPS(object):
 
     def rho(self, sites, single_string=True):
         '''reduced density matrix on sites
-        :param sites: sites to reduce to. specify as ((x, y), (width, height))
+        :param sites: sites to reduce to. specify as ((x, y), (width, height)): returned in reading order
         :param single_string: whether to return a list of density matrices if D=1
         '''
         if not single_string:
             raise NotImplementedError('only implemented for D=1')
         assert self.bond_dimension==1
         (x, y), (width, height) = sites
-        rhos = np.zeros((width, height, self.d, self.d))*1j
+        rhos = np.zeros((height, width, self.d, self.d))*1j
         for i, j in product(range(width), range(height)):
             dd = np.squeeze(self.data[y+j][x+i])
-            rhos[i, j] = np.outer(dd, dd.conj())
+            rhos[j, i] = np.outer(dd, dd.conj())
         return rhos
 
     def rho_proj(self, other, sites, single_string=True):
@@ -323,11 +325,11 @@ class fPEPS(object):
             raise NotImplementedError('only implemented for D=1')
         assert self.bond_dimension==1
         (x, y), (width, height) = sites
-        rhos = np.zeros((width, height, self.d, self.d))*1j
+        rhos = np.zeros((height, width, self.d, self.d))*1j
         for i, j in product(range(width), range(height)):
             dd = np.squeeze(self.data[y+j][x+i])
             ddother = np.squeeze(other.data[y+j][x+i])
-            rhos[i, j] = np.outer(dd, ddother.conj())
+            rhos[j, i] = np.outer(dd, ddother.conj())
         return rhos
 
     def from_state(self, state):
@@ -344,9 +346,9 @@ class fPEPS(object):
 
     def contract(self, sites, single_string=False):
         '''sites as a pair, coords_of_top_left, width_height,
-            contracts rows of peps that sites covers'''
+            contracts columns, then rows of peps that sites covers (physical legs in reading order)'''
         (x, y), (width, height) = sites
-        E = self.row_contract(y, y+height).col_contract(x, x+width)
+        E = self.col_contract(x, x+width).row_contract(y, y+height)
         return E
 
     def E_k(self, op, sites):
-- 
2.43.0


From 5bfed7b4055ca0b58bc5e022c3ff9224b0a3f6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 16/58] fix: normalising or truncating a view of a PEPS leaves
 the PEPS alone

---
 xmps/fPEPS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 62ece65..a77141b 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -338,7 +338,8 @@ class fPEPS(object):
 
     def row_contract(self, fr, to):
         cols = list(map(list, zip(*self.data[fr:to])))
-        new_data = self.data[:fr]+ [[reduce(col_contract, x) for x in cols]]+self.data[to:]
+        above, below = [[list(row) for row in rows] for rows in [self.data[:fr], self.data[to:]]]
+        new_data = above + [[reduce(col_contract, x) for x in cols]] + below
         return fPEPS(new_data)
 
     def col_contract(self, fr, to):
@@ -637,7 +638,7 @@ class fPEPS(object):
         if self.bond_dimension==1:
             self.data = [[x/norm(x) for x in row] for row in self.data]
         else:
-            self.data[0][0] /= self.norm()
+            self.data[0][0] = self.data[0][0]/self.norm()
         return self
 
     def norm(self):
-- 
2.43.0


From 91970b1fbee700f089949dcf14d061052837b42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 17/58] fix: the disentangler finishes, and returns the best
 unitary it found

---
 xmps/peps_tools.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xmps/peps_tools.py b/xmps/peps_tools.py
index 5c09efa..7a7ec44 100644
--- a/xmps/peps_tools.py
+++ b/xmps/peps_tools.py
@@ -92,14 +92,18 @@ def U2(*args, **kwargs):
 #raise Exception
 from scipy.linalg import polar
 
-def renyi_2_disentangler(psi, eps=1e-6, max_iter=1000):
+def renyi_2_disentangler(psi, eps=1e-6, max_iter=1000, max_restarts=10):
+    """unitary on the physical legs of psi that lowers the renyi-2 entropy: the best found
+    when the entropy has converged to eps, or after max_restarts random restarts."""
     Ss = []
     d1, d2, Xl, Xr = psi.shape
     U = np.eye(d1 * d2, dtype = psi.dtype)
     #H = np.random.randn(d1*d2, d1*d2)+1j*np.random.randn(d1*d2, d1*d2)
     #H = H+H.conj().T
     #U = np.linalg.qr(H)[0]
+    S_best, U_best = renyi(U.reshape(d1, d2, d1, d2), psi), U
     m = 0
+    restarts = 0
     go = True
     stop=False
     while not stop:
@@ -110,12 +114,15 @@ def renyi_2_disentangler(psi, eps=1e-6, max_iter=1000):
             S = renyi(Unew.reshape(d1, d2, d1, d2), psi)
             Ss.append(S)
             U = Unew
+            if S < S_best:
+                S_best, U_best = S, U
 
             if m > 1:
                 print(np.abs(Ss[-2]-Ss[-1]))
                 go = np.abs(Ss[-2] - Ss[-1]) > eps
             m += 1
-        if go:
+        if go and restarts < max_restarts:
+            restarts += 1
             H = np.random.randn(d1*d2, d1*d2)+1j*np.random.randn(d1*d2, d1*d2)
             H = H+H.conj().T
             U = np.linalg.qr(H)[0]
@@ -123,7 +130,7 @@ def renyi_2_disentangler(psi, eps=1e-6, max_iter=1000):
         else:
             stop=True
 
-    return U, Ss
+    return U_best, Ss
 
 #X = 3
 #d = 2
-- 
2.43.0


From be5a67c03874b3020e6d11857006cf067c64e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 18/58] fix: fourth order integrator of infinite chains takes
 its third step once

---
 xmps/iTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iTDVP.py b/xmps/iTDVP.py
index faf1957..53bff60 100644
--- a/xmps/iTDVP.py
+++ b/xmps/iTDVP.py
@@ -69,7 +69,7 @@ class Trajectory(object):
             self.Ds.append(mps.D)
         k1 = mps.dA_dt(H)
         k2 = (mps+k1/2*dt).dA_dt(H)
-        k3 = (mps+k2/2*dt).dA_dt(H)*dt
+        k3 = (mps+k2/2*dt).dA_dt(H)
         k4 = (mps+k3*dt).dA_dt(H)
 
         return (mps+(k1+2*k2+2*k3+k4)*dt/6).left_canonicalise()
-- 
2.43.0


From 02a8706b55c708ae83ff1be17131d2b7d284e139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 19/58] fix: an environment solver that fails raises instead of
 returning its last guess

---
 xmps/iMPS.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 456d41d..19708dc 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -34,6 +34,12 @@ Sx, Sy, Sz = spins(0.5)
 import numpy as np
 
 class Map(object):
+def solution(result):
+    """solution: x of a scipy.optimize result, if there is one"""
+    if not result.success:
+        raise RuntimeError(result.message)
+    return result.x
+
     """Map: transfer matrix with A and B"""
 
     def __init__(self, A, B):
@@ -579,7 +585,7 @@ class iMPS(object):
         K0 = (randn(D, D)+1j*randn(D, D)).reshape(D**2)
         K0 = concatenate([real(K0), imag(K0)])
 
-        K = root(O, K0, args=(RHS(),), method=method, tol=tol).x
+        K = solution(root(O, K0, args=(RHS(),), method=method, tol=tol))
         K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
         if testing: 
             def O_(K):
@@ -626,7 +632,7 @@ class iMPS(object):
         K0 = (randn(D, D)+1j*randn(D, D)).reshape(D**2)
         K0 = concatenate([real(K0), imag(K0)])
 
-        K = root(O, K0, args=(RHS(),), method=method, tol=1e-10).x
+        K = solution(root(O, K0, args=(RHS(),), method=method, tol=1e-10))
         K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
         if testing: 
             def O_(K):
-- 
2.43.0


From edce340eb42f31f4d28ceb43ef607639743b6f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 20/58] fix: the overlap of infinite chains leaves both chains
 alone

---
 xmps/iMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 19708dc..2b09b40 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -412,7 +412,7 @@ class iMPS(object):
         return self.l, self.r
 
     def overlap(self, other):
-        A, B = self.left_canonicalise()[0], other.left_canonicalise()[0]
+        A, B = self.copy().left_canonicalise()[0], other.copy().left_canonicalise()[0]
         return np.abs(Map(A, B).left_fixed_point()[0])**2
 
     def E(self, op, c=None):
-- 
2.43.0


From 369ba86d6351fa779c64843375375aef98f245a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 21/58] fix: mixed canonicalisation stops when it does not
 converge, and keeps its starting guess

---
 xmps/iMPS.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 2b09b40..d153948 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -288,7 +288,7 @@ class iMPS(object):
         assert self.period == 1
         return [TransferMatrix(A) for A in self.data][0]
 
-    def _lmixed(self, η=1e-10, L0=None):
+    def _lmixed(self, η=1e-10, L0=None, maxiters=100000):
         '''canonicalisation algorithm described in https://arxiv.org/pdf/1810.07006.pdf'''
         d, D = self.d, self.D
         A = self.data[0]
@@ -297,14 +297,18 @@ class iMPS(object):
             L = L0
         else:
             L = randn(D, D)
-        L /= norm(L)
+        L = L/norm(L)
 
         L_ = copy(L)
         AL, L = uqr((L@A).reshape(d*D, D))
         λ = norm(L)
         L /= λ
         δ = norm(L-L_)
-        while δ > η:
+        n = 0
+        while not δ <= η:
+            n += 1
+            if n > maxiters:
+                raise RuntimeError('mixed canonicalisation did not converge')
             #E = Map(A, AL.reshape(d, D, D))
             #_, L = E.right_fixed_point()
             #_, L = uqr(L)
@@ -318,7 +322,7 @@ class iMPS(object):
         AL = AL.reshape(d, D, D)
         return AL, L, λ
 
-    def _rmixed(self, η=1e-10, R0=None):
+    def _rmixed(self, η=1e-10, R0=None, maxiters=100000):
         '''canonicalisation algorithm described in https://arxiv.org/pdf/1810.07006.pdf'''
         d, D = self.d, self.D
         A = self.data[0]
@@ -328,14 +332,18 @@ class iMPS(object):
         else:
             R = randn(D, D)
 
-        R /= norm(R)
+        R = R/norm(R)
 
         R_ = copy(R)
         R, AR = urq((A@R).transpose([1, 0, 2]).reshape(D, d*D))
         λ = norm(R)
         R /= λ
         δ = norm(R-R_)
-        while δ > η:
+        n = 0
+        while not δ <= η:
+            n += 1
+            if n > maxiters:
+                raise RuntimeError('mixed canonicalisation did not converge')
             #_, L = Map(A, AL.reshape(d, D, D)).left_fixed_point(l0=L, tol=δ/10)
             #_, L = uqr(L)
             R_ = copy(R)
-- 
2.43.0


From eb66ceeb042816117f3bb7b879cd54816da1241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 22/58] fix: environments and right null projectors of infinite
 chains can be asked for

---
 xmps/iMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index d153948..52ae62f 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -415,7 +415,7 @@ class iMPS(object):
         """eigs: dominant eigenvectors and values of the transfer matrix."""
         return self.transfer_matrix().eigs(l0, r0)
 
-    def get_envs():
+    def get_envs(self):
         _, self.l, self.r = self.eigs()
         return self.l, self.r
 
@@ -665,7 +665,7 @@ class iMPS(object):
             return pr, vL
         return pr
 
-    def right_null_projector(self, get_vL=False):
+    def right_null_projector(self, get_vR=False):
         _, _, r = self.eigs()
         R_ = sw(c(self[0])@r, 0, 1)
         R = R_.reshape(-1, self.d*R_.shape[-1])
-- 
2.43.0


From 13a7618c3894480f685363b5c21f5dd39e584ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 23/58] fix: every truncated svd falls back to the robust
 driver

---
 xmps/fMPS.py   | 2 +-
 xmps/fPEPS.py  | 7 ++++---
 xmps/tensor.py | 3 ++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ec0cbfa..50b6d1c 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2038,7 +2038,7 @@ class fMPS(object):
             assert np.allclose(norm(J2-J2.T), 0) # J2 is the symmetric part
             assert np.allclose(norm(J1+J1.T), 0) # J1 the antisymmetric part
 
-            V, _, _ = sp.linalg.svd(M)
+            V, _, _ = svd(M)
             M = M@V
             Q, R1 = sp.linalg.qr(M)
             v = log(abs(diag(R1)))
diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index a77141b..ebeb18f 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -7,6 +7,7 @@ from scipy.linalg import norm
 from xmps.fMPS import fMPS, ncon
 from xmps.spin import paulis
 from xmps.tensor import T
+from xmps.svd_robust import svd
 X, Y, Z = paulis(0.5)
 I = np.eye(2)
 
@@ -109,7 +110,7 @@ def tensor_isometrise_diag(tensor, where):
     map, pipe = tensor_grouping_diag(tensor, where)
     in_s, out_s = map.shape
     if in_s >= out_s:
-        U, S, V = np.linalg.svd(map, full_matrices=False)
+        U, S, V = svd(map, full_matrices=False)
         map = U
         return ungroup_legs(map, pipe)
     else:
@@ -128,7 +129,7 @@ def tensor_isometrise_lrud(tensor, where):
     map, pipe = tensor_grouping_lrud(tensor, where)
     in_s, out_s = map.shape
     if in_s >= out_s:
-        U, S, V = np.linalg.svd(map, full_matrices=False)
+        U, S, V = svd(map, full_matrices=False)
         map = U
         return ungroup_legs(map, pipe)
     else:
@@ -930,7 +931,7 @@ class fPEPS(object):
 
 
 def tr_svd(a, D):
-    u, s, v = np.linalg.svd(a, full_matrices=False)
+    u, s, v = svd(a, full_matrices=False)
     D = u.shape[1] if D is None else D
     u, s, v = u[:, :D], np.diag(s)[:D, :D], v[:D, :]
     return u, s, v
diff --git a/xmps/tensor.py b/xmps/tensor.py
index f296053..e37d83c 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -2,7 +2,7 @@
 import unittest
 from numpy.random import randn
 from scipy.sparse.linalg import eigs as arnoldi
-from scipy.linalg import qr, expm, norm, svd
+from scipy.linalg import qr, expm, norm
 from numpy.linalg import eig as neig, eigh, eigvals, inv
 from numpy import swapaxes, count_nonzero, diag, insert, pad, dot, argmax, sqrt
 from numpy import allclose, array, tensordot, transpose, all, identity, squeeze
@@ -15,6 +15,7 @@ from scipy.sparse.linalg import LinearOperator, expm_multiply
 from scipy.linalg import null_space, rq
 
 from time import time
+from .svd_robust import svd
 
 try:
     from expokitpy import zgexpv, zhexpv
-- 
2.43.0


From b9087abde16c92a175eebe9444610cd2f6fb88d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 24/58] fix: canonicalising infinite chains falls back to the
 robust svd

---
 xmps/iMPS.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 52ae62f..a8c4ef6 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -11,11 +11,11 @@ from numpy import concatenate, array, stack, sum, identity, zeros, abs
 from numpy import sqrt, real_if_close, around, prod, sign, newaxis
 from numpy import concatenate as ct, split as chop, save, load
 
-from numpy.linalg import cholesky, eigvals, svd, inv, norm
+from numpy.linalg import cholesky, eigvals, inv, norm
 from numpy.linalg import inv, cholesky as ch
 
 from scipy.sparse.linalg import LinearOperator, eigs as arnoldi
-from scipy.linalg import svd as svd_s, cholesky as cholesky_s
+from scipy.linalg import cholesky as cholesky_s
 from scipy.linalg import null_space as null
 from scipy.optimize import root
 
@@ -29,6 +29,7 @@ from .tensor import basis_iterator, T, rotate_to_hermitian
 from .tensor import C as c, H as cT, uqr, urq, eye_like
 
 from .ncon import ncon
+from .svd_robust import svd
 from .spin import spins
 Sx, Sy, Sz = spins(0.5)
 import numpy as np
@@ -375,9 +376,9 @@ class iMPS(object):
         X = cholesky_s(v_r, lower=True, check_finite=False, overwrite_a=True)
         Y = cholesky_s(v_l, lower=True, check_finite=False, overwrite_a=True)
 
-        U, L, V = svd_s(Y.T.dot(X), full_matrices=False,
-                                    overwrite_a=True,
-                                    check_finite=False)
+        U, L, V = svd(Y.T.dot(X), full_matrices=False,
+                                  overwrite_a=True,
+                                  check_finite=False)
         ll = sum(L*L)
 
         G_ = (V @ inv(X)) @ A @ (inv(Y.T) @ U)
-- 
2.43.0


From a0cf8f54a309b7cf75f224660fc8623a8b317cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 25/58] fix: energies and time derivatives of infinite chains
 follow the Schroedinger equation in every gauge

---
 xmps/iMPS.py | 51 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index a8c4ef6..8e6c7e7 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -34,13 +34,13 @@ from .spin import spins
 Sx, Sy, Sz = spins(0.5)
 import numpy as np
 
-class Map(object):
 def solution(result):
     """solution: x of a scipy.optimize result, if there is one"""
     if not result.success:
         raise RuntimeError(result.message)
     return result.x
 
+class Map(object):
     """Map: transfer matrix with A and B"""
 
     def __init__(self, A, B):
@@ -501,12 +501,12 @@ class iMPS(object):
         d, D = self.d, self.D
         h = H[0].reshape(d, d, d, d)
         A = self.data[0]
-        _, l, r = self.eigs()
+        eta, l, r = self.eigs()
 
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
-        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
-        self.e = tr(K@r)
+        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
+        self.e = tr(K@r)/(tr(T(l)@r)*eta[0]**2)
         return real(self.e)
 
     def serialize(self, real=False):
@@ -561,16 +561,18 @@ class iMPS(object):
         /--|   |--|          |-- 
         l  | h |  |(I-E)^{-1}|  
         \--|   |--|          |--
+        first index of the result contracts with conj(A), second with A
         """
         _, l, r = self.eigs()
+        l_ = T(l)/tr(T(l)@r)
         d, D = self.d, self.D
         h = H[0].reshape(d, d, d, d)
         A = self.data[0]
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
-            K -= l*tr(K@r)
+            K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
+            K -= l_*tr(K@r)
             return K
 
         def O(K, RHS):
@@ -585,7 +587,7 @@ class iMPS(object):
             K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
 
             def LHS(K):
-                return K-sum(cT(A)@K@A, axis=0) + l*tr(K@r)
+                return K-sum(cT(A)@K@A, axis=0) + l_*tr(K@r)
 
             O_n = reshape(LHS(K) - RHS , (D**2,))
             O_n = concatenate([real(O_n), imag(O_n)])
@@ -607,16 +609,18 @@ class iMPS(object):
         --|          |--|   |--\ 
           |(I-E)^{-1}|  | h |  r
         --|          |--|   |--/
+        first index of the result contracts with conj(A), second with A
         """
         _, l, r = self.eigs()
+        r_ = T(r)/tr(l@T(r))
         d, D = self.d, self.D
         h = H[0].reshape(d, d, d, d)
         A = self.data[0]
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([A.conj(), A.conj()@r]+[C@r], [[1, -1, 4], [2, 4, 3], [1, 2, -2, 3]]) #AAHAA
-            K -= r*tr(l@K)
+            K = ncon([A.conj(), A.conj()]+[C@r], [[1, -1, 4], [2, 4, 3], [1, 2, -2, 3]]) #AAHAA
+            K -= r_*tr(l@K)
             return K
 
 
@@ -632,7 +636,7 @@ class iMPS(object):
             K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
 
             def LHS(K):
-                return K-sum(c(A)@K@T(A), axis=0) + r*tr(l@K)
+                return K-sum(c(A)@K@T(A), axis=0) + r_*tr(l@K)
 
             O_n = reshape(LHS(K) - RHS , (D**2,))
             O_n = concatenate([real(O_n), imag(O_n)])
@@ -677,11 +681,34 @@ class iMPS(object):
             return pr, vR
         return pr
 
+    def left_gauge(self):
+        """left_gauge: η, G with G@A@inv(G)/sqrt(η) left canonical, with diagonal right environment"""
+        eta, l, r = self.eigs()
+        X, Y = ch(r), ch(l)
+        U, L, V = svd(Y.T.dot(X), full_matrices=False)
+        return re(eta[0]), diag(L)@V@inv(X)
+
     def dA_dt(self, H):
+        A = self.data[0]
+        _, l, r = self.eigs()
+        if allclose(sum(cT(A)@A, axis=0), eye(self.D), rtol=0, atol=1e-12) and \
+           allclose(r, diag(diag(r)), rtol=0, atol=1e-12):
+            return self.canonical_dA_dt(H, l, r)
+
+        η, G = self.left_gauge()
+        mps = iMPS([G@A@inv(G)/sqrt(η)])
+        B = mps.canonical_dA_dt(H, *mps.eigs()[1:])
+        self.e, self.vL = mps.e, mps.vL
+        dA = iMPS([sqrt(η)*(inv(G)@B[0]@G)])
+        dA.l, dA.r, dA.vL = l, r, self.vL
+        return dA
+
+    def canonical_dA_dt(self, H, l, r):
+        """canonical_dA_dt: dA_dt of a normalised, left canonical state
+           with left, and (diagonal) right environments l, r"""
         d, D = self.d, self.D
         h = H[0].reshape(d, d, d, d)
         A = self.data[0]
-        _, l, r = self.eigs()
 
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
@@ -696,7 +723,7 @@ class iMPS(object):
         B = -1j*zl(A)
         B += -1j*ncon([l@C@r, pr, inv(r)@A.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
         B += -1j*ncon([l@A.conj(), pr]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
-        B += -1j *ncon([K, R], [[1, 2], [1, 2, -1, -2, -3]])
+        B += -1j *ncon([K, R], [[2, 1], [1, 2, -1, -2, -3]])
         B = iMPS([B])
         B.l, B.r, B.vL = l, r, self.vL
         return B
-- 
2.43.0


From 52acc0f2846c4161546405858f37fdbc948b6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 26/58] fix: search for a state with a given energy always
 finishes

---
 xmps/fMPS.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 50b6d1c..72cfd44 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -380,6 +380,7 @@ class fMPS(object):
 
         dt = 0.1
         iters = 0
+        steps = 0
         while abs(self.energy(H)-E)>tol:
             if iters>maxiters:
                 raise Exception("Too many iterations")
@@ -391,6 +392,9 @@ class fMPS(object):
                 while (self.energy(H)-E) < 0:
                     if ddE<1e-5 and abs(dE)>1e-2:
                         raise Exception("local minimum")
+                    steps += 1
+                    if steps>10*maxiters:
+                        raise Exception("Too many iterations")
                     self.data = (self+1j*dt*self.dA_dt(H)).left_canonicalise().data
 
                     #print('up')
@@ -402,6 +406,9 @@ class fMPS(object):
                 while (self.energy(H)-E) > 0:
                     if ddE<1e-5 and abs(dE)>1e-2:
                         raise Exception("local minimum")
+                    steps += 1
+                    if steps>10*maxiters:
+                        raise Exception("Too many iterations")
                     self.data = (self-1j*dt*self.dA_dt(H)).left_canonicalise().data
 
                     #print('down')
-- 
2.43.0


From aef7244cd6b11ad6aa2dfaac4f013ba996cf45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 27/58] fix: thermofield doubles pass fullH on, and have local
 overlaps with chains

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 72cfd44..3af4ff6 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2179,7 +2179,7 @@ class fTFD(fMPS):
         partition should be contiguous
         should be local overlap with fMPS (NOT fTFD)
         """
-        if not isinstance(other, 'fMPS'):
+        if not isinstance(other, fMPS):
             raise NotImplementedError('other should be an fMPS, set double to get the overlap with the embedded fTFD')
         if not other.bond_dimension == 1:
             raise NotImplementedError('Only implemented local overlaps for <ψψ|data>')
@@ -2233,7 +2233,7 @@ class fTFD(fMPS):
 
     def dA_dt(self, H, fullH=False):
         H_ = [(kron(eye(len(h)), h)+kron(h, eye(len(h)))) for h in H]
-        dA_dt = super().dA_dt(H_, fullH)
+        dA_dt = super().dA_dt(H_, fullH=fullH)
         return dA_dt
 
     def E(self, op, site, lr=0):
-- 
2.43.0


From 3b1eab375b659e14fbf00769bc4e6261eb75256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 28/58] fix: one site expectation values are those of the
 operator, not of its conjugate

---
 xmps/fMPS.py          |  8 ++++----
 xmps/iMPS.py          | 14 +++++++-------
 xmps/projects/fTFD.py |  4 ++--
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 3af4ff6..2be75fb 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -956,7 +956,7 @@ class fMPS(object):
         if not self.has_centre_in([site]):
             self.mixed_orthogonalise(site)
         M = self[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]], [3, 4, 1, 2]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]], [3, 4, 1, 2]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def E_(self, op, site):
@@ -966,7 +966,7 @@ class fMPS(object):
         :param site: site
         """
         M = self.mixed_canonicalise(site, sweep_back=True)[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def Es(self, ops, site):
@@ -2244,12 +2244,12 @@ class fTFD(fMPS):
         """
         op = kron(op, eye(len(op))) if lr == 0 else kron(eye(len(op)), op)
         M = self.mixed_canonicalise(site)[site]
-        return np.real(trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0)))
+        return np.real(trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0)))
 
     def Es(self, ops, site, lr=0):
         ops = [kron(op, eye(len(op))) for op in ops] if lr == 0 else [kron(eye(len(op)), op) for op in ops]
         M = self.mixed_canonicalise(site)[site]
-        return np.array([trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return np.array([trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
                 for op in ops])
 
 class vfMPS(object):
diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 8e6c7e7..1214cb0 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -435,15 +435,15 @@ class iMPS(object):
         if c == 'm':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0])))
+            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0])))
         if c == 'r':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0])))
+            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0])))
         if c == 'l':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0])))
+            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0])))
 
         if c is None:
             G, L = self.canonicalise(to_vidal=True).data[0]
@@ -468,19 +468,19 @@ class iMPS(object):
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0]))))
+                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0]))))
             return ret
         if c == 'r':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0]))))
             return ret
         if c == 'l':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0]))))
             return ret
 
         if c is None:
@@ -860,4 +860,4 @@ class ivMPS(object):
         # |    circle   |,      op
         # |      |1     |       |1
         #  - L - G - L -
-        return real_if_close(tensordot(circle, op, [[0, 1], [0, 1]]))
+        return real_if_close(tr(circle @ op))
diff --git a/xmps/projects/fTFD.py b/xmps/projects/fTFD.py
index d45c0c2..364a496 100644
--- a/xmps/projects/fTFD.py
+++ b/xmps/projects/fTFD.py
@@ -136,12 +136,12 @@ class fTFD(fMPS):
         """
         op = kron(op, eye(len(op)))
         M = self.mixed_canonicalise(site)[site]
-        return trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
 
     def Es(self, ops, site):
         ops = [kron(op, eye(len(op))) for op in ops]
         M = self.mixed_canonicalise(site)[site]
-        return [trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return [trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
                 for op in ops]
 
 class testfTFD(unittest.TestCase):
-- 
2.43.0


From 37df061da7b5ffb10b822d2c6d874ae3c2139f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 29/58] fix: canonical forms are chosen by the value of hand,
 not by its identity

---
 xmps/iMPS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 1214cb0..0436a50 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -389,11 +389,11 @@ class iMPS(object):
 
         self.L = L_  # store singular value
 
-        if hand is 'r':
+        if hand == 'r':
             self.data[0] = G_ @ L_
-        elif hand is 'l':
+        elif hand == 'l':
             self.data[0] = L_ @ G_
-        elif hand is 'm':
+        elif hand == 'm':
             sqrtL_ = diag(sqrt(L))
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
 
-- 
2.43.0


From 4a11bd2a34d89e9f7879f5ffd0e680880d3e78aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:12 +0000
Subject: [PATCH 30/58] fix: a PEPS owns its lists of tensors

---
 xmps/fPEPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index ebeb18f..5bbc1e5 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -267,7 +267,7 @@ class fPEPS(object):
                 self.d = data[0][0].shape[0]
             self.X = X if X is not None else max(
                 [max(x.shape[1:]) for x in flatten(data)])
-            self.data = data
+            self.data = [list(row) for row in data]
 
     def __str__(self):
         assert hasattr(self, 'Lx') and hasattr(self, 'Ly')
-- 
2.43.0


From 3f07577f3ac72cc4d6ee4f3660514aff69620a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:32 +0000
Subject: [PATCH 31/58] fix: Jacobian and tangent vectors of chains whose full
 sites are not the first ones

---
 xmps/fMPS.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 2be75fb..aee82c3 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1397,8 +1397,8 @@ class fMPS(object):
         def F2(i, k): return -1j*self.F2(i, k, H, envs=(l, r), inv_envs=inv_envs, prs_vLs=prs_vLs, id=id)
 
         sh = self.tangent_space_dims(l, vLs=vLs)
-        nulls = len([1 for (a, b) in sh if a==0 or b==0])
-        shapes = list(cs([prod([a, b]) for (a, b) in sh if a!=0 and a!=0]))
+        sites = [n for n, (a, b) in enumerate(sh) if a!=0 and b!=0] # with a tangent space
+        shapes = list(cs([prod(sh[n]) for n in sites]))
         DD = shapes[-1]
         def ind(i):
             slices = [slice(a[0], a[1], 1)
@@ -1410,7 +1410,7 @@ class fMPS(object):
         Γ2_ = -1j*zeros((DD, DD))
         for i_ in range(len(shapes)):
             for j_ in range(len(shapes)):
-                i, j = i_+nulls, j_+nulls
+                i, j = sites[i_], sites[j_]
 
                 J1_ij = F1(i,j)
                 J2_ij = F2(i, j)
@@ -2070,14 +2070,11 @@ class fMPS(object):
     def import_tangent_vector(self, v, xs=False):
         l, r = self.get_envs()
         vLs, shapes = self.tangent_space_dims(l, get_vLs=True)
-        vLs = [vL for vL in vLs if prod(vL.shape)!=0]
         S = [shape for shape in shapes if prod(shape)!=0]
-        nulls = len([shape for shape in shapes if prod(shape)==0])
         vs = chop(v, cs([prod(s) for s in S]))
-        xs = [x.reshape(*shape) for x, shape in zip(vs, S)]
-        l_, r_ = lambda n: l(n+nulls), lambda n: r(n+nulls)
-        Bs = [zl(A) for A in self.data[:nulls]] + \
-             [inv(ch(l_(n-1)))@vL@x@inv(ch(r_(n))) for n, (vL, x) in enumerate(zip(vLs, xs))]
+        xs = iter([x.reshape(*shape) for x, shape in zip(vs, S)])
+        Bs = [inv(ch(l(n-1)))@vL@next(xs)@inv(ch(r(n))) if prod(shape)!=0 else zl(A)
+              for n, (A, vL, shape) in enumerate(zip(self.data, vLs, shapes))]
         return fMPS(Bs)
 
 def fs(X):
-- 
2.43.0


From cdb8e01f3eb611ad27a97e5a99e7ad4478d95db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 32/58] fix: energy of a shared infinite chain is that of the
 Hamiltonian asked for

---
 xmps/iMPS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 0436a50..96029ae 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -506,8 +506,9 @@ class iMPS(object):
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
         K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
-        self.e = tr(K@r)/(tr(T(l)@r)*eta[0]**2)
-        return real(self.e)
+        e = tr(K@r)/(tr(T(l)@r)*eta[0]**2)
+        self.e = e
+        return real(e)
 
     def serialize(self, real=False):
         """serialize: return a vector with mps data in it"""
-- 
2.43.0


From 9142df0c7cee5f20db0ad2accb16c627631a8eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 33/58] fix: integrators take the steps between the times they
 are given

---
 xmps/fTDVP.py | 25 +++++++++++++++----------
 xmps/iTDVP.py |  8 ++++----
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index a808461..5945738 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -70,6 +70,12 @@ def saved_runs(loc, run_name):
     return sorted([int(f.group(1)) for f in found if f])
 
 
+def time_steps(T):
+    """time_steps: the step to take from each of the times T (none from the last one)
+    """
+    return ct([np.diff(T), [0]])[:len(T)]
+
+
 class Trajectory(object):
     """Trajectory"""
 
@@ -180,8 +186,8 @@ class Trajectory(object):
         """
         mps = self.mps.copy().left_canonicalise()
 
-        for t in tqdm(T):
-            mps = self.euler(mps, T[1]-T[0])
+        for dt in tqdm(time_steps(T)):
+            mps = self.euler(mps, dt)
 
         self.mps = self.read_record(-1)
         return self
@@ -191,8 +197,8 @@ class Trajectory(object):
         """
         mps = self.mps.copy().left_canonicalise()
 
-        for t in tqdm(T):
-            mps = self.rk4(mps, T[1]-T[0])
+        for dt in tqdm(time_steps(T)):
+            mps = self.rk4(mps, dt)
 
         self.mps = self.read_record(-1)
         return self
@@ -212,11 +218,11 @@ class Trajectory(object):
         # else:
         #    mps.left_canonicalise(D)
 
-        for t in tqdm(T):
+        for dt in tqdm(time_steps(T)):
             if order == 'high':
-                mps = self.invfree4(mps, T[1]-T[0])
+                mps = self.invfree4(mps, dt)
             elif order == 'low':
-                mps = self.invfree(mps, T[1]-T[0])
+                mps = self.invfree(mps, dt)
 
         self.mps = self.read_record(-1)
         return self
@@ -273,7 +279,7 @@ class Trajectory(object):
 
         v = mps.serialize(real=True)
         Q = solve_ivp(f, (T[0], T[-1]), v, method='LSODA', t_eval=T,
-                      max_step=T[1]-T[0])
+                      max_step=np.max(abs(np.diff(T)), initial=0) or np.inf)
         bar.close()
         if not Q.success:
             raise RuntimeError(Q.message)
@@ -292,8 +298,7 @@ class Trajectory(object):
                  for i, a in enumerate(H)], axis=0) if not self.fullH else H
         psi_n = psi_0
         self.ed_history = [psi_0]
-        dt = T[1]-T[0]
-        for t in tqdm(T[:-1]):
+        for dt in tqdm(np.diff(T)):
             psi_n = expm_multiply(-1j * H*dt, psi_n)
             self.ed_history.append(psi_n)
 
diff --git a/xmps/iTDVP.py b/xmps/iTDVP.py
index 53bff60..7bb905b 100644
--- a/xmps/iTDVP.py
+++ b/xmps/iTDVP.py
@@ -82,8 +82,8 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         d, D = mps.d, mps.D
 
-        for t in tqdm(T):
-            mps = self.euler(mps, T[1]-T[0])
+        for dt in tqdm(ct([np.diff(T), [0]])[:len(T)]):
+            mps = self.euler(mps, dt)
 
         self.mps = iMPS().deserialize(self.mps_history[-1], d, D, real=True)
         return self
@@ -94,8 +94,8 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         d, D = mps.d, mps.D
 
-        for t in tqdm(T):
-            mps = self.rk4(mps, T[1]-T[0])
+        for dt in tqdm(ct([np.diff(T), [0]])[:len(T)]):
+            mps = self.rk4(mps, dt)
 
         self.mps = iMPS().deserialize(self.mps_history[-1], d, D, real=True)
         return self
-- 
2.43.0


From 7c50325790efb0d604513f85fa82becf06cdea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 34/58] fix: exact evolution keeps the states it has recorded

---
 xmps/fTDVP.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 5945738..e2ca544 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -297,12 +297,12 @@ class Trajectory(object):
         H = sum([n_body(a, i, len(H), d=2)
                  for i, a in enumerate(H)], axis=0) if not self.fullH else H
         psi_n = psi_0
-        self.ed_history = [psi_0]
+        ed_history = [*getattr(self, 'ed_history', []), psi_0]
         for dt in tqdm(np.diff(T)):
             psi_n = expm_multiply(-1j * H*dt, psi_n)
-            self.ed_history.append(psi_n)
+            ed_history.append(psi_n)
 
-        self.ed_history = array(self.ed_history)
+        self.ed_history = array(ed_history)
         self.psi = self.ed_history[-1]
         self.mps = fMPS().left_from_state(
             self.psi.reshape([self.mps.d]*self.mps.L))
-- 
2.43.0


From cc9dcaa8b8e6572a0a2307ccd757feb4e0366633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 35/58] fix: states read from exact evolution are complete
 after an interrupted or continued run

---
 xmps/fTDVP.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index e2ca544..e6228fc 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -103,6 +103,8 @@ class Trajectory(object):
         """clear_history: forget all records"""
         self.mps_history = []
         self.structures = []
+        # number of records that were made from exact diagonalisation data
+        self.ed_records = 0
         # bond dimensions of the records, and (last) of the current state
         self.Ds = [self.mps.D] if self.mps is not None else []
 
@@ -130,10 +132,13 @@ class Trajectory(object):
 
     def record_ed_history(self):
         """record_ed_history: if there is only exact diagonalisation data, make records from it"""
-        if hasattr(self, 'ed_history') and not self.mps_history:
-            for x in tqdm(self.ed_history):
-                self.record(fMPS().left_from_state(
+        if hasattr(self, 'ed_history') and len(self.mps_history) == self.ed_records:
+            other = self.copy()
+            for x in tqdm(self.ed_history[self.ed_records:]):
+                other.record(fMPS().left_from_state(
                     x.reshape([self.mps.d]*self.mps.L)).left_canonicalise())
+            self.structures, self.Ds = other.structures, other.Ds
+            self.mps_history, self.ed_records = other.mps_history, len(self.ed_history)
 
     def euler(self, mps, dt, H=None, store=True):
         H = self.H if H is None else H
-- 
2.43.0


From e29bfa7fd5f20d089dbf40912e97478a88cf07bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 36/58] fix: states recorded by odeint are normalised

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index e6228fc..5528e83 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -290,7 +290,7 @@ class Trajectory(object):
             raise RuntimeError(Q.message)
 
         for v in Q.y.T:
-            self.record(fMPS().deserialize(v, real=True, structure=structure))
+            self.record(fMPS().deserialize(v, real=True, structure=structure).left_canonicalise())
         self.mps = self.read_record(-1)
         return self
 
-- 
2.43.0


From 6fb3b8032dd9ec1ce146d5a68d5b556a0e6eb5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 37/58] fix: exact evolution of chains with local dimension
 other than two

---
 xmps/fTDVP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 5528e83..8c35b03 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -299,7 +299,7 @@ class Trajectory(object):
         """
         H = self.H
         psi_0 = self.mps.recombine().reshape(-1)
-        H = sum([n_body(a, i, len(H), d=2)
+        H = sum([n_body(a, i, len(H), d=self.mps.d)
                  for i, a in enumerate(H)], axis=0) if not self.fullH else H
         psi_n = psi_0
         ed_history = [*getattr(self, 'ed_history', []), psi_0]
@@ -571,7 +571,7 @@ class Trajectory(object):
         assert self.H is not None
         assert hasattr(self, 'ed_history')
         H = self.H
-        H = sum([n_body(a, i, len(H), d=2)
+        H = sum([n_body(a, i, len(H), d=self.mps.d)
                  for i, a in enumerate(H)], axis=0) if not self.fullH else H
         return self.ed_evs([H])
 
-- 
2.43.0


From 8e9f5f219ac39255274c4631fed454767d743410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 38/58] fix: full-Hamiltonian derivative needs no environments
 at full sites

---
 xmps/fMPS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index aee82c3..fd26bef 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1266,6 +1266,10 @@ class fMPS(object):
                 return B
         else:
             def B(n, H=H):
+                if A[n].shape[0]*A[n].shape[1] == A[n].shape[2]:
+                    # Projector is full of zeros
+                    return 0*A[n]
+
                 H = H.reshape([self.d, self.d]*self.L)
                 links = self.links()
                 # open up links for projector
-- 
2.43.0


From 1758254b2802c6fd64677209522457538449cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 39/58] fix: canonical flag of an infinite chain after a Vidal
 decomposition

---
 xmps/iMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 96029ae..fb460fe 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -397,10 +397,10 @@ class iMPS(object):
             sqrtL_ = diag(sqrt(L))
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
 
+        self.canonical = hand
         if to_vidal:
             return ivMPS([(G_, L_)])
         else:
-            self.canonical = hand
             return self
 
     def left_canonicalise(self):
-- 
2.43.0


From 73f0d354e426e32ebbada09a39974ef11aa2d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 40/58] fix: norm of the symmetric canonical form of an
 infinite chain

---
 xmps/iMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index fb460fe..9c28f9b 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -394,7 +394,7 @@ class iMPS(object):
         elif hand == 'l':
             self.data[0] = L_ @ G_
         elif hand == 'm':
-            sqrtL_ = diag(sqrt(L))
+            sqrtL_ = sqrt(L_)
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
 
         self.canonical = hand
-- 
2.43.0


From dc45cce29f24b3cbf37e2a9d1b1636dcec2034cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 41/58] fix: projects.fHam and iHam import, use the Heisenberg
 coupling, and report energies of the state they return

---
 xmps/projects/fHam.py |  8 ++++----
 xmps/projects/iHam.py | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/xmps/projects/fHam.py b/xmps/projects/fHam.py
index 21a8950..1bc2382 100644
--- a/xmps/projects/fHam.py
+++ b/xmps/projects/fHam.py
@@ -1,13 +1,13 @@
 
-from .fMPS import fMPS
-from .spin import spins, N_body_spins
+from ..fMPS import fMPS
+from ..spin import spins, N_body_spins
 from numpy import copy, sqrt
 d = 3
 s = (d-1)/2
 Sx, Sy, Sz = spins(s)
 Sx12, Sy12, Sz12 = N_body_spins(s, 1, 2)
 Sx22, Sy22, Sz22 = N_body_spins(s, 2, 2)
-def heis(L, Δ=1): return (L-1)*[Sx12@Sx22+Sy12@Sy22+Δ*Sz12@Sz12]
+def heis(L, Δ=1): return (L-1)*[Sx12@Sx22+Sy12@Sy22+Δ*Sz12@Sz22]
 def isin(L, λ=1/2): return [-Sz12@Sz22+λ*Sx12]+(L-2)*[-Sz12@Sz22+λ*(Sx12+Sx22)]
 
 def optimise(H, L, D, method='euler', max_iters=500, tol=1e-5):
@@ -24,4 +24,4 @@ def optimise(H, L, D, method='euler', max_iters=500, tol=1e-5):
                 break
 
             e_ = copy(e)
-        return A, A.energy(H)/L
+        return A, A.energy(H)
diff --git a/xmps/projects/iHam.py b/xmps/projects/iHam.py
index 6ba1272..c4f3bcc 100644
--- a/xmps/projects/iHam.py
+++ b/xmps/projects/iHam.py
@@ -1,10 +1,10 @@
 '''Module containing representations of TI infinite hamiltonians'''
-from .iMPS import iMPS
-from .spin import spins, N_body_spins
+from ..iMPS import iMPS
+from ..spin import spins, N_body_spins
 from numpy import copy, transpose, prod
 from numpy.linalg import cholesky as ch
-from .tensor import C as c, embed, unitary_extension, direct_sum
-from .ncon import ncon
+from ..tensor import C as c, embed, unitary_extension, direct_sum
+from ..ncon import ncon
 from numpy import zeros_like as zl, array, zeros as z, block , eye
 from numpy.linalg import inv
 from scipy.linalg import norm, expm
@@ -14,7 +14,7 @@ s = (d-1)/2
 Sx, Sy, Sz = spins(s)
 Sx12, Sy12, Sz12 = N_body_spins(s, 1, 2)
 Sx22, Sy22, Sz22 = N_body_spins(s, 2, 2)
-def heis(Δ=1): return [Sx12@Sx22+Sy12@Sy22+Δ*Sz12@Sz12]
+def heis(Δ=1): return [Sx12@Sx22+Sy12@Sy22+Δ*Sz12@Sz22]
 def isin(λ=1/2): return [-Sz12@Sz22+λ*(Sx12+Sx22)]
 
 def ungauge(A, conj=False):
-- 
2.43.0


From 88a3af076ecee548a6dc9ce24e12ec1a77a3d297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 42/58] fix: F1 gives the matrix elements of the Hamiltonian
 for complex states and Hamiltonians, right_transfer keeps the order of its
 legs

---
 xmps/fMPS.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index fd26bef..67cc0ab 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -857,7 +857,7 @@ class fMPS(object):
         Rs = [op]
         oplinks = list(range(-1, -len(op.shape)+1, -1))+[2, 3]
         for m in range(i+1, j+1):
-            Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)+1], [1, 2, -len(op.shape)], oplinks]))
+            Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)], [1, 2, -len(op.shape)+1], oplinks]))
         return (lambda n: Rs[n-i-1]) if ret_all else Rs[0]
 
     def links(self, k=None, op=True):
@@ -1494,7 +1494,7 @@ class fMPS(object):
                 if str(i) not in self.F1_i_mem_:
                     # compute i properties, and store in cache
                     Rd_ = ncon([inv_ch_l(i-1)@c(vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
-                    Lbs_ = self.right_transfer(ncon([inv_ch_r(i), inv_ch_r(i)], [[-1, -3], [-2, -4]]), i, L-1)
+                    Lbs_ = self.right_transfer(ncon([inv_ch_r(i), inv_ch_r(i)], [[-1, -4], [-2, -3]]), i, L-1)
                     Rds_ = self.left_transfer(Rd_, 0, i)
 
                     self.F1_i_mem_[str(i)] = (Lbs_, Rds_)
@@ -1505,7 +1505,7 @@ class fMPS(object):
                 if str(j) not in self.F1_j_mem_:
                     # compute j properties, and store in cache
                     Ru_ = ncon([inv_ch_l(j-1)@vL(j), c(A[j])@ch_r(j)], [[1, -1, -3], [1, -2, -4]])
-                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -1, -3], [1, -2, -4]])
+                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -2, -3], [1, -1, -4]])
                     Rus_ = self.left_transfer(Ru_, 0, j)
                     Rbs_ = self.left_transfer(Rb_, 0, j)
 
@@ -1524,24 +1524,24 @@ class fMPS(object):
                             Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-1,4], [7,-2,5], [7,3,6,2]])
                             #AAHAA
                             Lbs__ = sum(cT(vL(i))@vL(i), axis=0)
-                            G_ += ncon([tr(Lbs_(m)@Kr_, 0, -1, -2), Lbs__], [[-2, -4], [-1, -3]])
+                            G_ += ncon([tensordot(Lbs_(m), Kr_, [[-2, -1], [0, 1]]), Lbs__], [[-2, -4], [-1, -3]])
                     Am, Am_1 = self.data[m:m+2]
                     if m==i:
                         if j==i:
                             # BAHBA
                             G_ += ncon([vL(m), inv_ch_r(m)@Am_1@r(m+1)]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[5, 1, -3], [6, -4, 2], [5, 6, 3, 4], [3, 1, -1], [4, -2, 2]])
+                                        [[5, 1, -3], [6, -4, 2], [3, 4, 5, 6], [3, 1, -1], [4, -2, 2]])
 
                         elif j==i+1:
                             # ABHBA
                             G_ += ncon([Am, inv_ch_l(m)@vL(m+1)]+[h]+[ch_l(m-1)@c(vL(m)), inv_ch_r(m)@c(Am_1)@ch_r(m+1)],
-                                        [[5, 1, 2], [6, 2, -3], [5, 6, 3, 4], [3, 1, -1], [4, -2, -4]])
+                                        [[5, 1, 2], [6, 2, -3], [3, 4, 5, 6], [3, 1, -1], [4, -2, -4]])
                         else:
                             # AAHBA
                             O_ = ncon([ch_l(m-1)@Am, Am_1]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[3, 1, 2], [4, 2, -3], [3, 4, 5, 6], [5, 1, -1], [6, -2, -4]])
+                                        [[3, 1, 2], [4, 2, -3], [5, 6, 3, 4], [5, 1, -1], [6, -2, -4]])
 
-                            G_+= tensordot(O_, Rus_(m+2), [[-1, -2], [0, 1]])
+                            G_+= tensordot(O_, Rus_(m+2), [[-2, -1], [0, 1]])
                     elif m==i-1:
                         if j==i:
                             # ABHAB
@@ -1551,7 +1551,7 @@ class fMPS(object):
                         else:
                             # AAHAB
                             Q_ = ncon([l(m-1)@Am, Am_1]+[h]+[c(Am), inv_ch_l(m)@c(vL(m+1))],
-                                        [[4, 1, 2], [5, 2, -2], [4, 5, 6, 7], [6, 1, 3], [7, 3, -1]])
+                                        [[4, 1, 2], [5, 2, -2], [6, 7, 4, 5], [6, 1, 3], [7, 3, -1]])
 
                             G_ += tensordot(Q_, ncon([inv_ch_r(m+1), Rus_(m+2)], [[-2, 1], [-1, 1, -3, -4]]), [-1, 0])
                     elif m<i:
@@ -1571,9 +1571,9 @@ class fMPS(object):
                 H = [h.reshape(*[self.d]*4) for h in H]
 
                 Rd = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
-                Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -7], [-6, -8]])
+                Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[3, 2], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -8], [-6, -7]])
                 Ru = ncon([pr(j), c(A[j])], [[1, -1, -3, -4], [1, -2, -5]])
-                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -1], [1, -2, -6, -7], [-5, -8]])
+                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -2], [1, -1, -6, -7], [-5, -8]])
 
                 Lbs = self.right_transfer(Lb, i, L-1)
                 Rds = self.left_transfer(Rd, 0, i)
@@ -1590,7 +1590,7 @@ class fMPS(object):
                                 #AAHAA
                                 Am, Am_1 = self.data[m:m+2]
                                 Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-1,4], [7,-2,5], [7,3,6,2]])
-                                G += tr(Lbs(m)@Kr_, 0, -1, -2)
+                                G += tensordot(Lbs(m), Kr_, [[-2, -1], [0, 1]])
 
                         Am, Am_1 = self.data[m:m+2]
 
@@ -1598,18 +1598,18 @@ class fMPS(object):
                             if j==i:
                                 # BAHBA
                                 G += ncon([l(m-1)]+[pr(m), inv(r(m))@Am_1@r(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [1, 2, 3, 4], [-1, -2, 3, 6], [4, -3, 7]],
+                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [3, 4, 1, 2], [-1, -2, 3, 6], [4, -3, 7]],
                                             [5, 6, 7, 1, 2, 3, 4])
                             elif j==i+1:
                                 # ABHBA
                                 G += ncon([l(m-1)]+[Am, pr(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [1, 2, 3, 4], [-1, -2, 3, 5], [4, -3, -6]],
+                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [3, 4, 1, 2], [-1, -2, 3, 5], [4, -3, -6]],
                                             [5, 6, 1, 3, 7, 2, 4])
                             else:
                                 # AAHBA
                                 O = ncon([l(m-1)@Am, Am_1]+[h]+[pr(m), inv(r(m))@c(Am_1)],
                                             [[3, 6, 5], [4, 5, -4], [1, 2, 3, 4], [-1, -2, 1, 6], [2, -3, -5]]) #(A)ud
-                                G += tensordot(O, Rus(m+2), [[-1, -2], [0, 1]])
+                                G += tensordot(O, Rus(m+2), [[-2, -1], [0, 1]])
 
                         elif m==i-1:
                             if j==i:
-- 
2.43.0


From 798be5a6e478d782850ae68a7c7b67cb64af3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 43/58] fix: second derivative of a tangent vector is that of
 the evolution

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 67cc0ab..013f069 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1428,10 +1428,10 @@ class fMPS(object):
             return J1_, J2_, Γ2_
         if not as_matrix:
             def gauge(G, i, j):
-                return ncon([G, inv(ch(l(i-1)))@vL(i), inv(ch(l(j-1)))@c(vL(j)), inv(ch(r(i))), inv(ch(r(j)))],
+                return ncon([G, inv(ch(l(i-1)))@vL(i), ch(l(j-1))@c(vL(j)), inv(ch(r(i))), ch(r(j))],
                             [[1, 3, 2, 4], [-1, -2, 1], [-4, -5, 2], [-3, 3], [-6, 4]])
             def gauge_(G, i, j):
-                return ncon([G, inv(ch(l(i-1)))@vL(i), inv(ch(l(j-1)))@vL(j), inv(ch(r(i))), inv(ch(r(j)))],
+                return ncon([G, inv(ch(l(i-1)))@vL(i), ch(l(j-1))@vL(j), inv(ch(r(i))), ch(r(j))],
                             [[1, 3, 2, 4], [-1, -2, 1], [-4, -5, 2], [-3, 3], [-6, 4]])
 
             return (lambda i, j: gauge(F1(i, j), i, j)), (lambda i, j: gauge_(F2(i, j)+Γ2(i, j), i, j))
-- 
2.43.0


From a3881257e3367a73d232821e7ad5cd7da22ea50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 44/58] fix: remembered tangent tensors are discarded before
 their evaluation is renamed

---
 xmps/fMPS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 013f069..17a7f7f 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1448,12 +1448,12 @@ class fMPS(object):
         # otherwise, we should look in the cache for computed values
         id = id if id is not None else uuid.uuid4().hex
         if self.id != id:
-            self.id = id
             # initialize the memories
             # we only don't try the cache on the first call from jac
             self.F1_i_mem_ = {}
             self.F1_j_mem_ = {}
             self.F1_tot_ij_mem = {}
+            self.id = id
         elif not testing:
             # read from cache:
             # have we cached this tensor?
@@ -1712,10 +1712,10 @@ class fMPS(object):
         '''
         id = id if id is not None else uuid.uuid4().hex
         if self.id_ != id:
-            self.id_ = id
             self.F2_ij_mem_ = {}
             self.F2_i_mem_ = {}
             self.F2_tot_ij_mem = {}
+            self.id_ = id
         elif not testing:
             # read from cache:
             # have we cached this tensor?
@@ -1875,11 +1875,11 @@ class fMPS(object):
            Will leave any indices marked none open :-<d_id_jψ|d_kψ>"""
         id = id if id is not None else uuid.uuid4().hex
         if self.id__ != id:
-            self.id__ = id
             # initialize the memories
             # we only don't try the cache on the first call from jac
             self.christ_j_mem = {}
             self.christ_tot_ij_mem = {}
+            self.id__ = id
         elif all([x is None for x in closed]):
             # read from cache:
             # have we cached this tensor?
-- 
2.43.0


From 5f0d934b7b641603cb8995fec9f3dde8de1287a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 45/58] fix: embedding a chain in two dimensions for a single
 column, refused when the rows do not come out even

---
 xmps/fPEPS.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 5bbc1e5..a186e97 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -582,7 +582,7 @@ class fPEPS(object):
             Ly = Lx = int(Lx)
         else:
             Ly = mps.L/Lx
-            assert np.allclose(int(Lx), Lx)
+            assert np.allclose(int(Lx), Lx) and np.allclose(int(Ly), Ly)
             Ly = int(Ly)
             Lx = int(Lx)
 
@@ -596,7 +596,11 @@ class fPEPS(object):
         for i in range(Lx):
             for j in range(Ly):
                 d, X1, X2 = reshaped[j][i].shape
-                if j % 2 == 0:
+                if Lx == 1:
+                    # going down
+                    reshaped[j][i] = reshaped[j][i].reshape(
+                        d, X1, 1, X2, 1)
+                elif j % 2 == 0:
                     # going right
                     if i == Lx-1:
                         reshaped[j][i] = T(reshaped[j][i]).reshape(
-- 
2.43.0


From 98b950541a2f70270711b3f5c018aac898639f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 46/58] fix: row snake ordering of a PEPS with bonds between
 all its rows

---
 xmps/fPEPS.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index a186e97..7ea95fc 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -657,15 +657,11 @@ class fPEPS(object):
             res = reduce(col_contract, cols)
             return np.squeeze(res)
         elif qubit_ordering == 'row_snake':
-            cols = []
-            for i, row in enumerate(self.data):
-                if i % 2 == 0:
-                    cols.append(reduce(row_contract, row))
-                else:
-                    cols.append(
-                        reduce(row_contract, [x.transpose([0, 1, 4, 3, 2]) for x in row[::-1]]))
-            res = reduce(col_contract, cols)
-            return np.squeeze(res)
+            # the vertical bonds have to be contracted in the same order in every row
+            shape = [x.shape[0] for row in self.data for x in row]
+            sites = np.arange(len(shape)).reshape(len(self.data), -1)
+            sites[1::2] = sites[1::2, ::-1]
+            return self.recombine().reshape(shape).transpose(sites.reshape(-1)).reshape(-1)
 
     def environment(self, site):
         # this is a mess.
-- 
2.43.0


From ccd6829d401934a2852872492e9cb4b9ab6295c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:46 +0000
Subject: [PATCH 47/58] fix: projection_error uses the left environment of
 every site

The environment was replaced by a recursion that missed sites at which the
bond dimensions leave no null space: with uneven bonds (after a two-site gate
on a product state, say) projection_error, should_expand and dynamical_expand
raised a shape mismatch. The tensors do not change in the loop, so the
environments of the chain are the ones to use.
---
 xmps/fMPS.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 17a7f7f..79fa092 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1136,11 +1136,6 @@ class fMPS(object):
             dA01, dA10 = sqrt(dt)*l(m-1)@vL(m)@x, sqrt(dt)*y@vR(m+1)@r(m+1)
 
             ε += re(tr(sum(cT(dA01)@l(m-1)@dA01, 0)@sum(dA10@r(m+1)@cT(dA10), 0)))
-
-            ## left environments change as we move along the chain
-            # this is a hack because I used lambdas for the envs in vL etc.
-            ln = sum(cT(A[m])@l(m-1)@A[m], 0)
-            def l(n): return ln
         self.ε = ε # store last projection error on mps
         return ε
 
-- 
2.43.0


From d2f2d6d8b5aee57ff5987c4183c084f2a54ade8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:54 +0000
Subject: [PATCH 48/58] fix: a Hamiltonian does not rewrite the caller's terms

Single-site terms were replaced in the dictionary that was passed in, so
the caller (and every other Hamiltonian made from the same dictionary)
lost them.
---
 xmps/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 28a145f..07cc52f 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -18,8 +18,8 @@ class Hamiltonian(object):
 
     def __init__(self, strings=None, matrices=None, d=2):
         if strings is not None:
-            self.strings = strings
-            for key, val in {key:val for key, val in self.strings.items()}.items():
+            self.strings = dict(strings)
+            for key, val in strings.items():
                 if len(key)==1:
                     self.strings['I'+key] = val
                     self.strings[key+'I'] = val
-- 
2.43.0


From db84a7195c172546c0b6e73d8af6fd317794ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:54 +0000
Subject: [PATCH 49/58] fix: to_full of a Hamiltonian given by its terms, for
 any length

It raised an AttributeError (the local dimension is only set along with
matrices), and kept the matrices of the first length asked for, which
would have been used for every other length. Matrices of a local
dimension other than two were refused with a shape mismatch.
---
 xmps/Hamiltonians.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 07cc52f..703e3bd 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -132,11 +132,12 @@ class Hamiltonian(object):
         if not self.has_matrices:
             if self.has_strings:
                 assert L is not None
-                self.matrices = self.to_matrices(L)
+                return Hamiltonian(matrices=self.to_matrices(L)).to_full()
             else:
                 raise Exception('No strings or matrices')
         if self.has_matrices:
-            total = np.zeros((2**self.L, 2**self.L))*1j
+            I = np.eye(self.d)+0j
+            total = np.zeros((self.d**self.L, self.d**self.L))*1j
             for i, matrix in enumerate(self.matrices):
                 total += reduce(np.kron, [I]*i+[matrix]+[I]*(self.L-self.k-i))
             return total
-- 
2.43.0


From de07dd0e7a756ed32edac8e9f5dc5389b7dd7d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:54 +0000
Subject: [PATCH 50/58] fix: from_matrix decomposes a matrix into Pauli strings

It multiplied the names of the operators instead of the operators, which
raises; the coefficients are normalised so that to_matrix gives the matrix
back (up to the identity).
---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 703e3bd..44cad5d 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -124,7 +124,7 @@ class Hamiltonian(object):
     def from_matrix(self, mat):
         xyz = list(S.keys())
         strings = list(product(xyz, xyz))
-        self.strings = {a+b:trace(kron(a, b)@mat) for a, b in strings}
+        self.strings = {a+b:trace(kron(S[a], S[b])@mat)/4 for a, b in strings}
         del self.strings['II']
         return self
 
-- 
2.43.0


From 26755cddedb654dc7d2070937bd4eba7a7b8ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:54 +0000
Subject: [PATCH 51/58] fix: to_matrices of two sites has the full fields

On every longer chain (and in to_mpo) each site has the field of the term
list; with two sites both fields were halved as if they were shared with
neighbouring bonds.
---
 xmps/Hamiltonians.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 44cad5d..2316134 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -115,7 +115,8 @@ class Hamiltonian(object):
         H_L = Hamiltonian(h_L_strings)._squeeze()
         H_i = Hamiltonian(h_i_strings)._squeeze()
         if L==2:
-            return [H_i.to_matrix()]
+            # both ends at once: the fields are not shared with other bonds
+            return [Hamiltonian(self.strings.copy())._squeeze().to_matrix()]
         elif L==3:
             return [H_0.to_matrix()] + [H_L.to_matrix()]
         else:
-- 
2.43.0


From c49a1a60dd1b5d264404db9e6e4580d335509519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 52/58] fix: rho_proj of product states traces with the overlap
 of the two states

Both factors of the overlap on the traced sites were conjugated, so the
result was wrong for complex states (it was not even the reduced density
matrix for two equal states).
---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 79fa092..51cf6d4 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1025,7 +1025,7 @@ class fMPS(object):
         '''
         if self.bond_dimension == 1 and single_string:
             not_sites = [site for site in range(self.L) if site not in sites]
-            partial_overlap = [np.squeeze(self[i]).conj().T@np.squeeze(other[i].conj()) for i in not_sites]
+            partial_overlap = [np.squeeze(self[i])@np.squeeze(other[i].conj()) for i in not_sites]
             return np.prod(partial_overlap)*reduce(np.kron, [ncon([np.squeeze(self[i])]+[np.squeeze(other[i].conj()).T], [[-1], [-2]]) for i in sites])
 
 
-- 
2.43.0


From a61b59ee6f401e319fc69130ef12994a859b4d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:02 +0000
Subject: [PATCH 53/58] fix: AKLT is the normalised AKLT state

---
 xmps/mps_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/mps_examples.py b/xmps/mps_examples.py
index 2ecc274..c39f41b 100644
--- a/xmps/mps_examples.py
+++ b/xmps/mps_examples.py
@@ -136,7 +136,7 @@ def AKLT():
     sp, sm = ladders(0.5)
     
     Ap = sqrt(2/3)*sp
-    A0 = -sqrt(1/2)*sz
+    A0 = -sqrt(4/3)*sz
     Am= -sqrt(2/3)*sm
     return iMPS([stack([Ap, A0, Am], 0)])
 
-- 
2.43.0


From baf9f724930575d7d9151c2e114fa83449d98cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:02 +0000
Subject: [PATCH 54/58] fix: ncon leaves the order it is given unchanged

---
 xmps/ncon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/ncon.py b/xmps/ncon.py
index 3508f1c..6023809 100644
--- a/xmps/ncon.py
+++ b/xmps/ncon.py
@@ -40,6 +40,8 @@ def ncon(AA, v, order=None, forder=None, check_indices=True):
 
     if order == None:
         order = create_order(v)
+    else:
+        order = list(order) # connect_graph appends to it
     if forder == None:
         forder = create_forder(v)
 
-- 
2.43.0


From e4e00c9d37218f1e72a73553fe2eb67db931d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:02 +0000
Subject: [PATCH 55/58] fix: direct_sum of matrices that are not square

---
 xmps/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index e37d83c..aeb1d92 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -78,8 +78,7 @@ def eye_like(A):
 
 def direct_sum(A, B):
     (a1, a2), (b1, b2) = A.shape, B.shape
-    O = zeros((a2, b1))
-    return block([[A, O], [O.T, B]])
+    return block([[A, zeros((a1, b2))], [zeros((b1, a2)), B]])
     
 def haar_unitary(n):
     return qr(randn(n, n)+1j*randn(n, n))[0]
-- 
2.43.0


From 53da5fd504618a8475b531515913b7253cb2f472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:02 +0000
Subject: [PATCH 56/58] fix: the trivial fMPO knows its length

---
 xmps/fPEPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 7ea95fc..951e4b8 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -232,6 +232,7 @@ class fMPO(object):
     def trivial(self, L):
         self.data = [np.ones(shape)
                      for shape in self.create_structure(L, 1, 1)]
+        self.L = L
         self.d = 1
         self.X = 1
         return self
-- 
2.43.0


From a73336c8d76a3cd323e810b34f15765ab5f68306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:44 +0000
Subject: [PATCH 57/58] fix: ladder operators of spins above 3/2

---
 xmps/spin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/spin.py b/xmps/spin.py
index 2629c62..c027f73 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -247,6 +247,7 @@ def ladders(S):
                               [sqrt(3) , 0 , 0       , 0],
                               [0       , 2 , 0       , 0],
                               [0       , 0 , sqrt(3) , 0]])
+        return diag([sqrt((S-m)*(S+m+1)) for m in arange(S-1, -S-1, -1)], pm)
     return [ladder(S, pm) for pm in [-1, 1]]
 
 def paulis(S):
-- 
2.43.0


From 842b1e477ab039b0468ec7d564ab4e95defdab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:44 +0000
Subject: [PATCH 58/58] fix: U1 and U2 call locals

---
 xmps/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index c027f73..51d5852 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -510,12 +510,12 @@ def locals():
 def U1(v):
     """U1 local unitary
     """
-    return expm(-1j*tensordot(v, locals[:3], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[:3], [0, 0]))
 
 def U2(v):
     """U2 local unitary
     """
-    return expm(-1j*tensordot(v, locals[3:], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[3:], [0, 0]))
 
 def U4(v):
     """U4 two site unitary
-- 
2.43.0

