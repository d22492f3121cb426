From e8afc2f72b67dc914258a482c4fcce20f3be5fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:25 +0000
Subject: [PATCH 01/50] fix: check_chain compares every consecutive pair of
 incidence matrices

---
 pycomplex/topology/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 0d4bd98..32d6f54 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -199,7 +199,7 @@ class BaseTopology(object):
         """Some basic sanity checks on a topology object
         check that the chain complex satisfies its defining properties
         """
-        for i in range(self.n_dim - 2):
+        for i in range(self.n_dim - 1):
             a, b = self.matrices[i], self.matrices[i+1]
             if not (a * b).nnz == 0:
                 raise ValueError('chain {i} does not match'.format(i=i+1))
-- 
2.43.0


From 9aa9eba8ba6687e1d2d799e6ee506122eabd6fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:50 +0000
Subject: [PATCH 02/50] fix: relative parity covers elements that share no
 facet with any other

---
 pycomplex/topology/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 32d6f54..6e75185 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -178,11 +178,9 @@ class BaseTopology(object):
         # into clauses constraining the relative orientation of n-elements
         clauses = ((inc.indices + 1) * inc.data).reshape(-1, 2)
         if not len(clauses):
-            # FIXME: this is needed for loose n-elements;
-            # but what about loose disjoint n-element plus other connection component?
-            # would prob fail; need to handle remapping back from n-elements lost in interior filtering
+            # no adjacent n-elements at all; any orientation will do
             return self.chain(-1)
-        orientation = pycosat.solve(clauses.tolist() + (-clauses).tolist())
+        orientation = pycosat.solve(clauses.tolist() + (-clauses).tolist(), vars=self.n_elements[-1])
         if orientation == 'UNSAT':
             raise ValueError('Topology is a non-orientable manifold.')
 
-- 
2.43.0


From fbb6b4be31ff3c42b6a546179072700d800844be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:42 +0000
Subject: [PATCH 03/50] fix: the boundary of a one-dimensional simplicial
 complex can be constructed

---
 pycomplex/topology/simplicial.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 269d94c..9296d41 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -165,7 +165,7 @@ class TopologySimplicial(PrimalTopology):
         O = np.zeros(n_dim, dtype=object)
         B = np.zeros(n_dim, dtype=object)
 
-        while True:
+        while n_dim > 0:
             EN0, ENn, ONn = construct_lower(EN0)
             n_simplices, n_pts = EN0.shape
             n_dim = n_pts - 1
@@ -174,9 +174,6 @@ class TopologySimplicial(PrimalTopology):
             O[N] = ONn
             B[N] = ENn
 
-            if n_dim == 0:
-                break
-
         return cls(elements=E, orientation=O, boundary=B)
 
     def fix_orientation(self):
-- 
2.43.0


From 58dc20c2bef04f9ee8b62e9cd20785cf562f7888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:42 +0000
Subject: [PATCH 04/50] fix: zero-dimensional complexes are closed

---
 pycomplex/topology/primal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomplex/topology/primal.py b/pycomplex/topology/primal.py
index 3d2e041..7074ce2 100755
--- a/pycomplex/topology/primal.py
+++ b/pycomplex/topology/primal.py
@@ -201,6 +201,9 @@ class PrimalTopology(BaseTopology):
         # shouldnt be too hard; just find chains on all elements, select subsets, and remap vertex indices
         # FIXME: not sure boundary orientation is even preserved in current implementation
         # in practice, this appears to be very much the case
+        if self.n_dim == 0:
+            # points do not have a boundary
+            return None
         if not self.is_oriented:
             raise ValueError('Cannot get the boundary of a non-oriented manifold')
 
-- 
2.43.0


From 3f0f13a434075bd20cef031076973c9b68e3fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:56 +0000
Subject: [PATCH 05/50] fix: the boundary inherits the orientation of all its
 elements, so that the dual of a bounded complex is a chain complex

---
 pycomplex/topology/primal.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pycomplex/topology/primal.py b/pycomplex/topology/primal.py
index 7074ce2..16eba55 100755
--- a/pycomplex/topology/primal.py
+++ b/pycomplex/topology/primal.py
@@ -197,10 +197,6 @@ class PrimalTopology(BaseTopology):
             Boundary topology, with attribute parent_idx referring back to the parent elements
             if the topology is closed, None is returned
         """
-        # FIXME: rather than using from_elements, a direct subset selection would be preferable
-        # shouldnt be too hard; just find chains on all elements, select subsets, and remap vertex indices
-        # FIXME: not sure boundary orientation is even preserved in current implementation
-        # in practice, this appears to be very much the case
         if self.n_dim == 0:
             # points do not have a boundary
             return None
@@ -214,15 +210,21 @@ class PrimalTopology(BaseTopology):
             # topology is closed
             return None
 
-        # construct boundary
-        boundary_elements = self.elements[-2][b_idx]
-
-        # mapping is a list of parent vertex indices, for each boundary vertex
-        mapping, inverse = np.unique(boundary_elements.flatten(), return_inverse=True)
-        boundary_elements = inverse.reshape(boundary_elements.shape).astype(index_dtype)
-
-        boundary = self.boundary_type().from_elements(boundary_elements)
-        boundary.parent_idx = self.find_correspondence(boundary, mapping)
+        # select all elements of the boundary; by inheriting them from the parent, rather than rebuilding them,
+        # they retain their relative orientation on all levels
+        parent_idx = [b_idx]
+        for B in self._boundary[:-1][::-1]:
+            parent_idx.insert(0, np.unique(B[parent_idx[0]]))
+        remap = [np.zeros(n, dtype=index_dtype) for n in self.n_elements]
+        for r, idx in zip(remap, parent_idx):
+            r[idx] = np.arange(len(idx), dtype=index_dtype)
+
+        boundary = self.boundary_type()(
+            elements=[remap[0][e[idx]] for e, idx in zip(self._elements, parent_idx)],
+            boundary=[r[b[idx]] for r, b, idx in zip(remap, self._boundary, parent_idx[1:])],
+            orientation=[o[idx] for o, idx in zip(self._orientation, parent_idx[1:])],
+        )
+        boundary.parent_idx = parent_idx
         boundary.parent = self
         return boundary
 
-- 
2.43.0


From 803e39ba7885f8ed78be138e902d92c83278b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:15 +0000
Subject: [PATCH 06/50] fix: both ends of a one-dimensional complex get an
 oppositely signed dual vertex

---
 pycomplex/topology/dual.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycomplex/topology/dual.py b/pycomplex/topology/dual.py
index 2849696..de14f8d 100755
--- a/pycomplex/topology/dual.py
+++ b/pycomplex/topology/dual.py
@@ -165,7 +165,11 @@ class Dual(BaseTopology):
         B = [pycomplex.sparse.sparse_zeros((0, boundary.n_elements[0]))] + boundary.matrices
         T = self.primal.matrices
         # this term effectively 'glues' the interior and boundary topology together
-        S = self.primal.selector_boundary
+        S = list(self.primal.selector_boundary)
+        if self.n_dim == 1:
+            # endpoints cannot encode their orientation in their vertices; obtain it from the chain that bounds the primal
+            ends = self.primal.matrix(-1) * self.primal.chain(-1, fill=1)
+            S[0] = S[0] * scipy.sparse.diags(-ends).astype(sign_dtype)
 
         return [scipy.sparse.bmat(
                 [[t,   s.T],
-- 
2.43.0


From c1c890ed2b12710bb2346566ff7858c9ff70a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:56 +0000
Subject: [PATCH 07/50] fix: direct loop subdivision gives the vertices of all
 triangles, not only of the first

---
 pycomplex/topology/simplicial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 9296d41..406d5a4 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -494,10 +494,10 @@ class TopologyTriangular(TopologySimplicial):
 
         # E20 is implied by E21; but much easier to calc by subdivision too
         sE20 = np.empty((N2, 4, 3), index_dtype)
-        sE20[:,0 , :] = E21[0] + N0  # middle tri; translate parent edge index to edge-vertex
+        sE20[:,0 , :] = E21 + N0     # middle tri; translate parent edge index to edge-vertex
         sE20[:,1:, 0] = E20          # corner tri; inherit from parent
-        sE20[:,1:,+1] = E21p[0] + N0 # middle edge connections; same as fE10; rotate parent edge, translate to edge-vert
-        sE20[:,1:,-1] = E21m[0] + N0
+        sE20[:,1:,+1] = E21p + N0    # middle edge connections; same as fE10; rotate parent edge, translate to edge-vert
+        sE20[:,1:,-1] = E21m + N0
 
         sE20 = sE20.reshape(-1, 3)
         sE21 = fE21.reshape(-1, 3)
-- 
2.43.0


From 6a5349099c388bdb8a8db7b243027acd0325c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:56 +0000
Subject: [PATCH 08/50] fix: direct loop subdivision orients the edges inside a
 face such that the result is a chain complex

---
 pycomplex/topology/simplicial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 406d5a4..ebbcbe6 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -463,8 +463,8 @@ class TopologyTriangular(TopologySimplicial):
         # 3 new edges per face
         fE10 = np.empty((N2, 3, 2), index_dtype) # edge-vertex info added as consequence of faces
         fO10 = np.empty((N2, 3, 2), sign_dtype)
-        fE10[:,:,0] = E21m + N0     # edge-vertices can be found by rotating and offsetting parent edges
-        fE10[:,:,1] = E21p + N0
+        fE10[:,:,0] = E21p + N0     # edge-vertices can be found by rotating and offsetting parent edges
+        fE10[:,:,1] = E21m + N0
         # orientation part
         fO10[:,:,0] = -1  # this is a sign convention we are free to choose; neg-to-pos edges are maintained globally
         fO10[:,:,1] = +1
-- 
2.43.0


From 2f1ec02cd8dc35be834d09893c2cc5cd047348e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:56 +0000
Subject: [PATCH 09/50] fix: cubical subdivision of tetrahedra retains
 orientation

---
 pycomplex/topology/simplicial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index ebbcbe6..60b1b24 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -316,6 +316,9 @@ class TopologySimplicial(PrimalTopology):
                 r = cubes[:, i, 0, 1, 1]
                 cubes[:, i, 0, 0, 1] = edge_containing_faces(l, r)
 
+            # rolling the 4 faces of a tet by an odd number changes parity; mirror those cubes to retain orientation
+            cubes[:, 1::2] = np.swapaxes(cubes[:, 1::2], -1, -2).copy()
+
         else:
             # in 4d case, we get 5 4-cubes, with 16 corners
             # having a 1-4-6-4-1 distribution
-- 
2.43.0


From c96594b0b6459e4f785ebab9eafcbb7dbe93d9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:50 +0000
Subject: [PATCH 10/50] fix: elements that share several facets with opposing
 signs are connected

---
 pycomplex/topology/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 6e75185..ecb03b1 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -30,7 +30,8 @@ class BaseTopology(object):
         ndarray, [n_vertices], index_dtype
         """
         # convert to column format for fast slicing from the right
-        TnN = self.matrix(-1).tocsc()
+        # NOTE: unsigned; elements sharing several n-1-elements with opposing signs are connected too
+        TnN = np.abs(self.matrix(-1)).tocsc()
         # iterate over the N-elements of each 0-element
         T0N = self.accumulated_operators_N()[0].T.tocoo()
         I0, IN = T0N.row, T0N.col
@@ -101,7 +102,7 @@ class BaseTopology(object):
         n_components : int
         labels : ndarray, [n_elements[-1]], int
         """
-        TnN = self.matrix(-1)
+        TnN = np.abs(self.matrix(-1))   # unsigned; terms of several shared n-1-elements should not cancel
         graph = TnN.T * TnN     # graph where N-elements are nodes and n-elements are edges
         n_components, labels = scipy.sparse.csgraph.connected_components(graph)
         return n_components, labels
-- 
2.43.0


From 3ffb9b033a811afa01239f463d0025d9eaeb9017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:50 +0000
Subject: [PATCH 11/50] fix: the degree of elements with more than 127 incident
 elements does not overflow

---
 pycomplex/topology/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index ecb03b1..023886f 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -269,7 +269,7 @@ class BaseTopology(object):
             N-elements for each n-element
         """
         A = self.accumulated_operators_N()
-        N_elements = self.chain(-1, fill=1)
+        N_elements = self.chain(-1, fill=1, dtype=index_dtype)
         # ones_like constructs a summing operator; seek nnz per column
         return [pycomplex.sparse.ones_like(a.T) * N_elements for a in A]
 
-- 
2.43.0


From 6dee562ac29e8042c4fde35b957474197ae57532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:50 +0000
Subject: [PATCH 12/50] fix: facets shared by a multiple of 256 elements do not
 vanish from the boundary

---
 pycomplex/topology/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/primal.py b/pycomplex/topology/primal.py
index 16eba55..dd59562 100755
--- a/pycomplex/topology/primal.py
+++ b/pycomplex/topology/primal.py
@@ -203,7 +203,7 @@ class PrimalTopology(BaseTopology):
         if not self.is_oriented:
             raise ValueError('Cannot get the boundary of a non-oriented manifold')
 
-        chain_N = self.chain(-1, fill=1)
+        chain_N = self.chain(-1, fill=1, dtype=index_dtype)
         chain_n = self.matrix(-1) * chain_N
         b_idx = np.flatnonzero(chain_n)
         if len(b_idx) == 0:
-- 
2.43.0


From 76d893123373bb4b1b11bf5971531d1d85ced9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:11 +0000
Subject: [PATCH 13/50] fix: barycentric circumcenters do not depend on the
 location and size of a simplex

---
 pycomplex/geometry/euclidian.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 8fe7caf..5271395 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -149,9 +149,16 @@ def circumcenter_barycentric(pts, weights=None, ratio=1e6):
     gu = pts.shape[:-2]
     N = n_pts + 1
 
+    # barycentric coordinates do not depend on the location and size of the simplex;
+    # but the eigenvalue ratio does, so normalize both
+    pts = pts - pts.mean(axis=-2, keepdims=True)
+    squares = np.einsum('...ij,...ij->...i', pts, pts)
+    scale = squares.mean(axis=-1, keepdims=True)
+    scale = np.where(scale == 0, 1, scale)
+
     A = np.ones(gu + (N, N))
     A[..., -1, -1] = 0
-    A[..., :-1, :-1] = np.einsum('...ij,...kj->...ik', pts, pts) * 2
+    A[..., :-1, :-1] = np.einsum('...ij,...kj->...ik', pts, pts) * 2 / scale[..., None]
 
     v, w = np.linalg.eigh(A)
     vr = 1 / v
@@ -159,9 +166,9 @@ def circumcenter_barycentric(pts, weights=None, ratio=1e6):
     pinv = np.einsum('...ij,...j,...kj', w, vr, w)
 
     b = np.ones(gu + (N,))
-    b[..., :-1] = np.einsum('...ij,...ij->...i', pts, pts)
+    b[..., :-1] = squares / scale
     if weights is not None:
-        b[..., :-1] -= weights
+        b[..., :-1] -= weights / scale
     x = np.einsum('...ij,...j->...i', pinv, b)
     bary_coords = x[..., :-1]
 
-- 
2.43.0


From b3ef34dce8d41e7fbff29f8433479848758a8bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:32 +0000
Subject: [PATCH 14/50] fix: the signs of the metric of a weighted simplicial
 complex follow its weighted circumcenters

---
 pycomplex/complex/simplicial/euclidian.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 26f42bf..6784d03 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -158,10 +158,7 @@ class ComplexSimplicialEuclidian(BaseComplexSimplicial):
         PP = self.primal_position
         domains = self.topology.fundamental_domains()
 
-        corners = self.vertices[self.topology.corners[-1]]
-        mean = corners.mean(axis=-2, keepdims=True)  # centering
-        corners = corners - mean
-        bary = euclidian.circumcenter_barycentric(corners)
+        bary = self.primal_barycentric[-1]
         signs = np.sign(bary)   # if the face opposing this vert is inverted wrt the circumcenter
         signs = (signs.T * np.ones_like(domains[..., 0]).T).T.reshape(-1) # duplicate signs to all fundamental domains corresponding to each face
 
-- 
2.43.0


From 2b206bcb0d2a842635f78be3f391e803c4328223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:28 +0000
Subject: [PATCH 15/50] fix: pinv accepts matrices with fewer rows than columns

---
 pycomplex/math/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index daeac8c..52844c9 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -219,8 +219,8 @@ def pinv(A, r=1e-9):
         pseudo inverses
 
     """
-    u, s, v = np.linalg.svd(A)
+    u, s, v = np.linalg.svd(A, full_matrices=False)
     inv = 1 / s
     inv[np.abs(s / s[..., :1]) < r] = 0
     # s[:, self.complex.topology.n_dim:] = 0
-    return np.einsum('...ij,...j,...jk->...ki', u[..., :s.shape[-1]], inv, v)
+    return np.einsum('...ij,...j,...jk->...ki', u, inv, v)
-- 
2.43.0


From 56d5d2d4464b8770d7ec2b40ee41fe3b42c75e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:28 +0000
Subject: [PATCH 16/50] fix: circumcenter_construction accepts arrays of
 simplices

---
 pycomplex/geometry/euclidian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 5271395..e2f2175 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -44,13 +44,13 @@ def circumcenter_construction(pts, weights=None):
         weights = np.asarray(weights)
 
     first = pts[..., 0, :]
-    moved = pts[..., 1:, :] - first
+    moved = pts[..., 1:, :] - first[..., None, :]
     e2 = linalg.dot(moved, moved)
     if weights is not None:
-        e2 -= (weights[..., 1:] - weights[..., 0])
+        e2 = e2 - (weights[..., 1:] - weights[..., :1])
     pinv = linalg.pinv(moved)
 
-    centroid = linalg.dot(pinv, e2) / 2 + first
+    centroid = np.einsum('...ij,...j->...i', pinv, e2) / 2 + first
     return centroid
 
 
-- 
2.43.0


From 3cb46712e4d71386c8ffee277cb9cab677e09d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:28 +0000
Subject: [PATCH 17/50] fix: the normals of segments with integer corners are
 not truncated

---
 pycomplex/geometry/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index e2f2175..d3ad3db 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -354,7 +354,7 @@ def segment_normals(corners):
     corners = np.asarray(corners)
     n_corners, n_dim = corners.shape[-2:]
     assert n_corners == n_dim
-    normals = np.empty_like(corners[..., 0])
+    normals = np.empty(corners.shape[:-1])
 
     corners = corners[..., 1:, :] - corners[..., 0:1, :]
 
-- 
2.43.0


From e4d15b29e30e9bff0cb1fefb06d43116891e3753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:03 +0000
Subject: [PATCH 18/50] fix: metric of boundaries of regular complexes in 1d
 and from 3d up

---
 pycomplex/complex/regular.py  | 4 ++--
 pycomplex/geometry/regular.py | 2 +-
 pycomplex/topology/cubical.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index bd406a2..2acbae0 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -332,12 +332,12 @@ class ComplexRegularMixin(object):
             g, sums = groups[i].sum(hypervolume)
             PM[n][g] += sums
         # now we divide by the number of primal N-cubes contributing to each primal n-cube
-        for n in range(1, self.n_dim):
+        for n in range(1, self.topology.n_dim):
             PM[n] /= self.topology.degree[n]
 
         # do summation of dual terms
         for i, c in list(enumerate(corners))[1:-1]:
-            n = self.n_dim - c.sum()
+            n = self.topology.n_dim - c.sum()
             hypervolume = regular.hypervolume(cubes[idx(c)], cubes[idx(corners[-1])], n=n)
             g, sums = groups[i].sum(hypervolume)
             DM[n][g] += sums / (2 ** c.sum())
diff --git a/pycomplex/geometry/regular.py b/pycomplex/geometry/regular.py
index 77b05d2..ed48fbf 100755
--- a/pycomplex/geometry/regular.py
+++ b/pycomplex/geometry/regular.py
@@ -26,7 +26,7 @@ def hypervolume(a, b, n=None):
     d = a - b
     if n is not None:
         d = np.sort(np.abs(d), axis=1)
-        d = d[:, -n:]
+        d = d[:, d.shape[1] - n:]
     return np.abs(np.prod(d, axis=-1))
 
 
diff --git a/pycomplex/topology/cubical.py b/pycomplex/topology/cubical.py
index 83fd296..f5090cc 100755
--- a/pycomplex/topology/cubical.py
+++ b/pycomplex/topology/cubical.py
@@ -154,7 +154,7 @@ class TopologyCubical(PrimalTopology):
     @cached_property
     def cube_corners(self):
         """Ndarray, [n_corners, n_dim], int"""
-        return np.indices(self.cube_shape).reshape(self.n_dim, -1).T.astype(sign_dtype)
+        return np.indices(self.cube_shape).reshape(self.n_dim, 2 ** self.n_dim).T.astype(sign_dtype)
 
     @classmethod
     def from_elements(cls, elements, mirror=True):
-- 
2.43.0


From b1f315b3ba784be04f360934ba91b9fc17c3acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:46 +0000
Subject: [PATCH 19/50] fix: the boundary of a weighted complex keeps its
 weights

---
 pycomplex/complex/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 9e99422..35af49d 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -85,7 +85,11 @@ class BaseComplex(object):
             return None
         else:
             # FIXME: type self should be boundary_type; make that a seperate problem
-            return type(self)(vertices=self.vertices[boundary.parent_idx[0]], topology=boundary)
+            weights = getattr(self, 'weights', None)
+            kwargs = {}
+            if weights is not None:
+                kwargs['weights'] = weights[boundary.parent_idx[0]]
+            return type(self)(vertices=self.vertices[boundary.parent_idx[0]], topology=boundary, **kwargs)
 
     def fix_orientation(self):
         return self.copy(topology=self.topology.fix_orientation())
-- 
2.43.0


From ef384c15e43aaa466bd10d8b74f5df69d7e9b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:58 +0000
Subject: [PATCH 20/50] fix: fundamental domains of zero-dimensional simplicial
 complexes

---
 pycomplex/topology/simplicial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 60b1b24..3dce701 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -224,7 +224,7 @@ class TopologySimplicial(PrimalTopology):
             s[i:] = 1
             IN0 = generate_simplex_boundary(IN0.reshape(-1, IN0.shape[-1])).reshape(IN0.shape + (-1, ))
             domains[..., -i] = element_indices(self.elements[-i], IN0).reshape(s)
-        domains[..., 0] = IN0
+        domains[..., 0] = IN0.reshape(shape[:-1])
 
         return domains
 
-- 
2.43.0


From d490726ab382c05466b899b051676dd8a5867339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 21/50] fix: only exact zero or unit diagonals are simplified
 away; small metric factors are not zero

---
 pycomplex/stencil/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/operator.py b/pycomplex/stencil/operator.py
index 76faafb..af1b6af 100755
--- a/pycomplex/stencil/operator.py
+++ b/pycomplex/stencil/operator.py
@@ -156,9 +156,9 @@ class DiagonalOperator(SymmetricOperator):
             )
 
     def simplify(self):
-        if np.allclose(self.diagonal, 0):
+        if np.all(self.diagonal == 0):
             return ZeroOperator(self.shape)
-        if np.allclose(self.diagonal, 1):
+        if np.all(self.diagonal == 1):
             return IdentityOperator(self.shape[0])
         return self
 
-- 
2.43.0


From 588fc1bf84a42ff210d3a20e1473d8bc3ad407a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 22/50] fix: flattened linear operators act on flattened forms

---
 pycomplex/stencil/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/operator.py b/pycomplex/stencil/operator.py
index af1b6af..af4b4dd 100755
--- a/pycomplex/stencil/operator.py
+++ b/pycomplex/stencil/operator.py
@@ -74,8 +74,8 @@ class StencilOperator(object):
         from scipy.sparse.linalg import LinearOperator
         return LinearOperator(
             shape=tuple([np.prod(s) for s in self.shape]),
-            matvec=lambda x: self.right(x.flatten()),
-            rmatvec=lambda x: self.left(x.flatten()),
+            matvec=lambda x: self(x.reshape(self.shape[1])).flatten(),
+            rmatvec=lambda x: self.transpose()(x.reshape(self.shape[0])).flatten(),
             dtype=np.float32,
         )
 
-- 
2.43.0


From 364a173255eea5dc5fe219b708c7ebb52b7dbff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 23/50] fix: unflatten block arrays of more than two blocks

---
 pycomplex/stencil/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 495f767..5efa201 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -158,7 +158,7 @@ class BlockArray(object):
         assert sum(splits) == x.size
         return BlockArray([
             s.reshape(b.shape)
-            for s, b in zip(np.split(x, splits[:-1]), self.block)
+            for s, b in zip(np.split(x, np.cumsum(splits[:-1], dtype=int)), self.block)
         ], self.ndim)
 
 
-- 
2.43.0


From 98d28362e50a3820e2c9b27ab4221f055858d3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 24/50] fix: block arrays of blocks of equal shapes

---
 pycomplex/stencil/block.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 5efa201..484c239 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -6,6 +6,14 @@ from pycomplex.stencil.operator import ZeroOperator
 
 
 
+def object_array(items, shape):
+    """Arrange a flat list of items in an object array, without looking inside of the items"""
+    arr = np.empty(len(items), object)
+    for i, item in enumerate(items):
+        arr[i] = item
+    return arr.reshape(shape)
+
+
 class BlockArray(object):
     """ndim-blocked array object"""
 
@@ -13,10 +21,10 @@ class BlockArray(object):
         if isinstance(block, np.ndarray) and block.dtype == object:
             self.block = block
         else:
-            if ndim==1:
-                b = np.empty(len(block), object)
-                b[...] = block
-                self.block = b
+            if ndim is None:
+                ndim = 2 if isinstance(block[0], (list, tuple)) else 1
+            if ndim == 1:
+                self.block = object_array(block, len(block))
             elif ndim == 2:
                 b = np.empty((len(block), len(block[0])), object)
                 for i in range(b.shape[0]):
@@ -24,7 +32,6 @@ class BlockArray(object):
                         b[i, j] = block[i][j]
                 self.block = b
             else:
-                # NOTE: this has some annoying failure cases, like singleton lists freaking out
                 self.block = np.asarray(block, dtype=object)
         # assert self.is_compatible
 
@@ -52,7 +59,7 @@ class BlockArray(object):
     def apply(self, func):
         """Copy of self, with func applied to all blocks"""
         block = [func(b) for b in self.block.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.shape))
+        return type(self)(object_array(block, self.block.shape))
 
     def transpose(self):
         """Return transpose of self"""
@@ -64,7 +71,7 @@ class BlockArray(object):
                 return np.transpose(x)
 
         block = [t(b) for b in self.block.T.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.T.shape))
+        return type(self)(object_array(block, self.block.T.shape))
 
     def broadcasting_operator(self, other, op):
         try:
@@ -78,8 +85,7 @@ class BlockArray(object):
 
         A, B = np.broadcast_arrays(A, B)
         block = [op(a, b) for a, b in zip(A.flatten(), B.flatten())]
-        block = np.asarray(block, object).reshape(A.shape)
-        return type(self)(block)
+        return type(self)(object_array(block, A.shape))
 
     def __add__(self, other):
         """Add two block operators"""
-- 
2.43.0


From 35eab98e6e1ca2218fe199e32a1c66f4896e982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 25/50] fix: shape of block operators

---
 pycomplex/stencil/block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 484c239..549e8a9 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -52,7 +52,7 @@ class BlockArray(object):
         one list for each axis
         """
         return [
-            [self.block.take(i, axis=n).shape[n] for i in range(self.block.shape[n])]
+            [np.moveaxis(self.block, n, 0).reshape(self.block.shape[n], -1)[i, 0].shape[n] for i in range(self.block.shape[n])]
             for n in range(self.ndim)
         ]
 
@@ -204,8 +204,8 @@ class BlockOperator(BlockArray):
     @cached_property
     def is_square(self):
         """Return true if matrix is square"""
-        r, c = np.array(self.shape).T
-        return np.alltrue(r.T == c)
+        r, c = self.shape
+        return r == c
 
     def to_dense(self):
         # dense = self.apply(lambda x: x.to_dense())    # something broken with apply
-- 
2.43.0


From 3dc2669aa7ce97053af17d8117abcbbf9df17e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 26/50] fix: flattened action of rectangular block operators

---
 pycomplex/stencil/block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 549e8a9..bb7fff5 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -307,7 +307,7 @@ class BlockOperator(BlockArray):
         # FIXME: signature of matvec requires that we support both shape (N,) and (N, 1)
         return LinearOperator(
             shape=tuple([sum(np.prod(b.shape) for b in s.block) for s in (L, R)]),
-            matvec=lambda x: self.vector_mul(L.from_dense(x)).to_dense(),
-            rmatvec=lambda x: T.vector_mul(R.from_dense(x)).to_dense(),
+            matvec=lambda x: self.vector_mul(R.from_dense(x)).to_dense(),
+            rmatvec=lambda x: T.vector_mul(L.from_dense(x)).to_dense(),
             dtype=np.float32,
         )
-- 
2.43.0


From bcbcca1e0d38fb0efd160f525feab83bee1080e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 27/50] fix: assigning a form of a single entry to a block
 array

---
 pycomplex/stencil/block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index bb7fff5..e292c3f 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -123,14 +123,14 @@ class BlockArray(object):
 
     def __setitem__(self, key, value):
         try:
-            if value == 0:
+            if np.isscalar(value) and value == 0:
                 from pycomplex.stencil.operator import ZeroOperator
                 self.block[key] = ZeroOperator(shape=self.block[key].shape)
                 return
         except:
             pass
         try:
-            if value == 1:
+            if np.isscalar(value) and value == 1:
                 from pycomplex.stencil.operator import IdentityOperator
                 assert self.block[key].shape[0] == self.block[key].shape[1]
                 self.block[key] = IdentityOperator(shape=self.block[key].shape[0])
-- 
2.43.0


From d4250ca6d0b9657bbb6f7335acb284a43c4518d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 28/50] fix: subsystems selected by lists of rows

---
 pycomplex/stencil/linear_system.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/linear_system.py b/pycomplex/stencil/linear_system.py
index d58f30c..2c3bfa1 100755
--- a/pycomplex/stencil/linear_system.py
+++ b/pycomplex/stencil/linear_system.py
@@ -144,9 +144,12 @@ class System(object):
 
     def __getitem__(self, item):
         """Slice a subsystem of full cochain complex"""
+        def sliced(M, rows, cols):
+            # slice the axes one at a time; lists of rows and columns should not be paired up
+            return M.__getslice__(rows).__getslice__((slice(None), cols)).copy()
         return self.copy(
-            A=self.A.__getslice__(item).copy(),
-            B=self.B.__getslice__([item[0], item[0]]).copy(),
+            A=sliced(self.A, item[0], item[1]),
+            B=sliced(self.B, item[0], item[0]),
             L=self.L[item[0]],
             R=self.R[item[1]],
         )
-- 
2.43.0


From 5959f53dcb7a1c50ca9418cc055e3e4db624a3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 29/50] fix: refine forms that are not contiguous in memory

---
 pycomplex/stencil/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/topology.py b/pycomplex/stencil/topology.py
index 74398c8..48ca2f9 100755
--- a/pycomplex/stencil/topology.py
+++ b/pycomplex/stencil/topology.py
@@ -177,7 +177,7 @@ class StencilTopology(object):
                 fine = self.form(n, init='zeros')
                 for c, s in enumerate(self.symbols[n]):
                     repeats = [2 if i in s else 1 for i in range(self.n_dim)]
-                    view = coarse[c]
+                    view = np.ascontiguousarray(coarse[c])
                     view = np.ndarray(
                         buffer=view.data,
                         dtype=view.dtype,
-- 
2.43.0


From 2ad57ab8b0b32ff076aece7b967a4dbcee6ada45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:16 +0000
Subject: [PATCH 30/50] fix: equally shaped blocks of a block array were merged

---
 pycomplex/block.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 9f86ba5..02d4cfe 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -25,11 +25,29 @@ from cached_property import cached_property
 from pycomplex.sparse import sparse_zeros
 
 
+def object_array(items, shape):
+    """Arrange a flat list of items in an object array, without looking inside of the items"""
+    arr = np.empty(len(items), object)
+    for i, item in enumerate(items):
+        arr[i] = item
+    return arr.reshape(shape)
+
+
+def nested_array(block):
+    """Convert nested lists to an object array, without merging leaf level arrays"""
+    if isinstance(block, np.ndarray):
+        return np.asarray(block, dtype=object)
+    shape, items = (len(block),), list(block)
+    while items and all(isinstance(b, (list, tuple)) for b in items):
+        shape = shape + (len(items[0]),)
+        items = [c for b in items for c in b]
+    return object_array(items, shape)
+
+
 class BlockArray(object):
     """ndim-blocked array object"""
     def __init__(self, block):
-        # FIXME: we wish to convertnested lists but not merge in leaf level arrays. how to enforce this?
-        self.block = np.asarray(block, dtype=object)
+        self.block = nested_array(block)
         # assert self.compatible
 
     @cached_property
@@ -78,7 +96,7 @@ class BlockArray(object):
     def apply(self, func):
         """Copy of self, with func applied to all blocks"""
         block = [func(b) for b in self.block.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.shape))
+        return type(self)(object_array(block, self.block.shape))
 
     def transpose(self):
         """Return transpose of self"""
@@ -90,7 +108,7 @@ class BlockArray(object):
                 return np.transpose(x)
 
         block = [t(b) for b in self.block.T.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.T.shape))
+        return type(self)(object_array(block, self.block.T.shape))
 
     def __getitem__(self, slc):
         """Slicing simply passes on to the block"""
@@ -109,7 +127,7 @@ class BlockArray(object):
 
         A, B = np.broadcast_arrays(A, B)
         block = [op(a, b) for a, b in zip(A.flatten(), B.flatten())]
-        block = np.asarray(block, object).reshape(A.shape)
+        block = object_array(block, A.shape)
         return type(self)(block)
 
     def __add__(self, other):
@@ -297,9 +315,7 @@ class DenseBlockArray(BlockArray):
 
         coords = np.indices(self.block.shape)
         blocks = [x[slices(c)] for c in coords.reshape(self.ndim, -1).T]
-        blockss = np.empty(len(blocks), object)
-        blockss[...] = blocks
-        blocks = blockss.reshape(self.block.shape)
+        blocks = object_array(blocks, self.block.shape)
         if self.nested:
             # split each subblock
             # FIXME
-- 
2.43.0


From 5b3b3c29dc2980cced722f86cc902472d29a32ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:16 +0000
Subject: [PATCH 31/50] fix: shape of two-dimensional block arrays

---
 pycomplex/block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 02d4cfe..e005446 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -69,7 +69,7 @@ class BlockArray(object):
         if self.nested:
             # FIXME
             raise NotImplementedError
-        return [[self.block.take(i, axis=n).shape[n] for i in range(self.block.shape[n])] for n in range(self.ndim)]
+        return [[b.flatten()[0].shape[n] for b in np.split(self.block, self.block.shape[n], axis=n)] for n in range(self.ndim)]
 
     @cached_property
     def nested(self):
@@ -209,8 +209,8 @@ class BlockMatrix(BlockArray):
     @cached_property
     def square(self):
         """Return true if matrix is square"""
-        r, c = np.array(self.shape).T
-        return np.alltrue(r.T == c)
+        r, c = self.shape
+        return r == c
 
     def diagonal(self):
         """Get the diagonal of the block
-- 
2.43.0


From 43da9b37b13e64aa75796b923a8ed65730580213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:16 +0000
Subject: [PATCH 32/50] fix: diagonal block matrix of blocks of different sizes

---
 pycomplex/block.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index e005446..fb804a0 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -292,11 +292,7 @@ class SparseBlockMatrix(BlockMatrix):
     def diags(diag):
         """Turn dense block vector into diagonal block structure"""
         assert diag.ndim == 1
-        output_shape = diag.block.shape * 2
-        output = np.zeros(output_shape, dtype=object)
-        for i, b in enumerate(diag.block):
-            output[i, i] = scipy.sparse.diags(b)
-        return SparseBlockMatrix(output)
+        return SparseBlockMatrix.as_diagonal(diag)
 
 
 
-- 
2.43.0


From f20c1cf6ca634ff2c5de94363ce0259ae9952f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 33/50] fix: merging a block matrix altered its blocks

---
 pycomplex/block.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index fb804a0..4492af2 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -286,7 +286,8 @@ class SparseBlockMatrix(BlockMatrix):
     def merge(self):
         if self.nested:
             raise NotImplementedError
-        return scipy.sparse.bmat(self.block)
+        # pass a copy; bmat converts the blocks it is given in-place
+        return scipy.sparse.bmat(self.block.copy())
 
     @staticmethod
     def diags(diag):
-- 
2.43.0


From 499d3639dd36165f0dcf6baa411bdbc29c39a2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 34/50] fix: affine transformations of complexes

---
 pycomplex/complex/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 35af49d..5ddbd1f 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -114,9 +114,9 @@ class BaseComplex(object):
         return self.copy(vertices=self.vertices.dot(transform))
 
     def affine_transform(self, transform):
-        a = np.concatenate([self.vertices, np.ones_like[self.vertices[:, 0]]], axis=1)
+        a = np.concatenate([self.vertices, np.ones_like(self.vertices[:, :1])], axis=1)
         v = a.dot(transform)
-        return self.copy(vertices=v[:, :2] / v[:, 2])
+        return self.copy(vertices=v[:, :-1] / v[:, -1:])
 
     def scale(self, scale):
         return self.copy(vertices=self.vertices * scale)
-- 
2.43.0


From eddf2c08718a0f05274416e565e87af2803694d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 35/50] fix: conversion of cubical curves to simplicial curves

---
 pycomplex/complex/cubical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/complex/cubical.py b/pycomplex/complex/cubical.py
index 6c5ae82..cf6fa52 100755
--- a/pycomplex/complex/cubical.py
+++ b/pycomplex/complex/cubical.py
@@ -304,10 +304,10 @@ class ComplexCubical1(ComplexCubical):
 
     def to_simplicial(self):
         """Convert the cubical complex into a simplicial complex; trivial"""
-        from pycomplex.complex.simplicial.euclidian import ComplexSimplicial1
-        return ComplexSimplicial1(
+        from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
+        return ComplexSimplicialEuclidian(
             vertices=self.vertices,
-            topology=self.topology.as_1().subdivide_simplicial()
+            simplices=self.topology.elements[-1]
         )
 
 
-- 
2.43.0


From d0b88e57b81de4cf9a9b1a66a8e1152aa59056e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 36/50] fix: center of mass of solids that are not star-shaped
 around the origin

---
 pycomplex/complex/simplicial/euclidian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 6784d03..eea5190 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -593,7 +593,8 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
             np.zeros_like(tris[:, 0:1, :])
         ), axis=1)
         tet_centroids = tets.mean(axis=1)
-        tet_volumes = euclidian.unsigned_volume(tets)
+        # volumes need to be signed, since the surface need not be star-shaped with respect to the origin
+        tet_volumes = euclidian.signed_volume(tets)
 
         return (tet_volumes[..., None] * tet_centroids).sum(axis=0) / tet_volumes.sum()
 
-- 
2.43.0


From 2a025d091edb15c554c6db184f75003eda20024d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 37/50] fix: vertex areas add up to the surface area

---
 pycomplex/complex/simplicial/euclidian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index eea5190..d89eb99 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -552,7 +552,8 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         I20 = self.topology.incidence[2, 0]
         t_a = np.linalg.norm(self.triangle_normals(), axis=1)
         vertex_idx, v_a = npi.group_by(I20.flatten()).sum(np.repeat(t_a, 3, axis=0))
-        return v_a / 3
+        # normals have twice the length of the triangle area
+        return v_a / 6
 
     def edge_lengths(self):
         """Compute primal edge lengths
-- 
2.43.0


From cb704abf900fddcec8f0dc141c5f5830ac643c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:56 +0000
Subject: [PATCH 38/50] fix: subdivision of simplicial curves by inserting a
 vertex on each edge

---
 pycomplex/topology/simplicial.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 3dce701..08111ca 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -342,9 +342,10 @@ class TopologySimplicial(PrimalTopology):
         -------
         type(self)
         """
-        boundary = generate_simplex_boundary(self.elements[-1])
-        tips = np.repeat(self.range(-1)[:, None, None], self.n_dim + 1, axis=1) + self.n_elements[0]
-        simplices = np.concatenate([boundary, tips], axis=2)
+        # replacing any of the corners with the new vertex retains the orientation
+        simplices = np.repeat(self.elements[-1][:, None, :], self.n_dim + 1, axis=1)
+        corners = np.arange(self.n_dim + 1)
+        simplices[:, corners, corners] = self.range(-1)[:, None] + self.n_elements[0]
         return type(self).from_simplices(simplices.reshape(-1, self.n_dim + 1))
 
 
-- 
2.43.0


From b76fb054b1105ef7e8228ba99697b0485c35b555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 39/50] fix: loop subdivision operator only creates vertices on
 vertices and edges

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index d89eb99..e9ef002 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -316,7 +316,7 @@ class ComplexTriangularEuclidian(ComplexSimplicialEuclidian):
             sparse array mapping coarse to fine vertices
 
         """
-        coarse_averaging = scipy.sparse.vstack(coarse.topology.averaging_operators_0)
+        coarse_averaging = scipy.sparse.vstack(coarse.topology.averaging_operators_0[:2])
 
         if smooth:
             # NOTE: only difference with cubical case lies in this call
-- 
2.43.0


From 0678cb042df8a14f7a4d1f0e9a3188c5bbb34fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 40/50] fix: guessed cubes are replaced if the point lies
 beyond either side

---
 pycomplex/complex/regular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index 2acbae0..ad901be 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -94,7 +94,7 @@ class ComplexRegularMixin(object):
             cube, baries = query(points)
         else:
             baries = compute_baries(basis[cube], points)
-            update = np.any(baries < 0, axis=1)
+            update = np.any((baries < 0) | (baries > 1), axis=1)
             if np.any(update):
                 cube = cube.copy()
                 d, b = query(points[update])
-- 
2.43.0


From 18faa2711d38e50998881f934d63f7f6954dd84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 41/50] fix: guessed fundamental domains of regular grids, when
 right or passed on either side

---
 pycomplex/complex/regular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index ad901be..16710c4 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -172,10 +172,10 @@ class ComplexRegularMixin(object):
         if domain_idx is None:
             domain, baries = query(points)
         else:
+            domain = domains[domain_idx]
             baries = compute_baries(basis[domain_idx], points)
-            update = np.any(baries < 0, axis=1)
+            update = np.any((baries < 0) | (baries > 1), axis=1)
             if np.any(update):
-                domain = domains[domain_idx]
                 d, b = query(points[update])
                 domain[update] = d
                 baries[update] = b
-- 
2.43.0


From 334b090efb6b7270e593d035f13085e18cd98a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 42/50] fix: shape of samples of primal 0-forms on
 one-dimensional grids

---
 pycomplex/complex/regular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index 16710c4..852de16 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -265,7 +265,7 @@ class ComplexRegularMixin(object):
         """
         element, bary = self.pick_primal(points)
         bary = np.clip(bary, 0, 1)
-        IN0 = self.topology.incidence[-1, 0]
+        IN0 = self.topology.elements[-1]
         verts = IN0[element]
         # do interpolation over cube
         total = 0
-- 
2.43.0


From 2f47da5b80067273b9b782af49971dbf1c4b37ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:53 +0000
Subject: [PATCH 43/50] fix: centers of line segments that lie beyond one of
 their vertices

The coordinates of a center are ordered by corner. For triangles and up the
i-th face opposes the i-th corner, but the i-th face of a line segment is its
i-th corner. So with vertex weights that move a center out of its segment,
the wrong end got the negative sign.
---
 pycomplex/complex/simplicial/base.py      | 15 ++++++++++++++-
 pycomplex/complex/simplicial/euclidian.py |  2 +-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index f9b8e12..3a4103b 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -61,9 +61,22 @@ class BaseComplexSimplicial(BaseComplex):
         delta = PP[-1][:, None, :] - PP[-2][B]
         d = linalg.dot(delta, delta)  #* sign
         if signed:
-            d = d * np.sign(self.primal_barycentric[-1])
+            d = d * np.sign(self.primal_barycentric_facing)
         return d
 
+    @property
+    def primal_barycentric_facing(self):
+        """Barycentric coordinates of the circumcenter of each n-simplex, in the order of the faces of that simplex
+
+        Returns
+        -------
+        ndarray, [n_N-elements, n_corners], float
+            negative if the circumcenter lies beyond the corresponding face of the simplex
+        """
+        bary = self.primal_barycentric[-1]
+        # each face is indexed by its opposing corner; but those of a line segment are its corners
+        return bary[:, ::-1] if self.topology.n_dim == 1 else bary
+
     def optimize_weights(self):
         """Optimize the weights of a simplicial complex, to improve positivity of the dual metric,
         and the condition number of equations based on their hodges.
diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index e9ef002..f29ba96 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -158,7 +158,7 @@ class ComplexSimplicialEuclidian(BaseComplexSimplicial):
         PP = self.primal_position
         domains = self.topology.fundamental_domains()
 
-        bary = self.primal_barycentric[-1]
+        bary = self.primal_barycentric_facing
         signs = np.sign(bary)   # if the face opposing this vert is inverted wrt the circumcenter
         signs = (signs.T * np.ones_like(domains[..., 0]).T).T.reshape(-1) # duplicate signs to all fundamental domains corresponding to each face
 
-- 
2.43.0


From edb354ef8e68d78fcee75109de1c215d07f71938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:53 +0000
Subject: [PATCH 44/50] fix: dual velocities on regular grids point along the
 flux

They were those of the reversed flux; unlike the velocities on simplices.
---
 pycomplex/complex/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 5ddbd1f..cae6170 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -383,7 +383,8 @@ class BaseComplex(object):
 
         elif isinstance(self, ComplexRegularMixin):
             pp = self.primal_position
-            gradients = pp[-2][B] - pp[-1][:, None, :]
+            # pointing inwards, as do the dual edges of faces with positive orientation, and the gradients of simplices
+            gradients = pp[-1][:, None, :] - pp[-2][B]
             # gradients -= gradients.mean(axis=1, keepdims=True)
 
             gradients = linalg.normalized(gradients)
-- 
2.43.0


From cec9bcd475762ebf9d40b83dc24e3f5630728c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 45/50] fix: picking on spheres with simplices of different
 sizes

The boundaries of the cells of a power diagram of dual vertices do not pass
through the origin, so points close to an edge were attributed to the wrong
simplex (or fundamental domain), with negative barycentric coordinates.
---
 pycomplex/complex/simplicial/spherical.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 79df4a9..fe5fa68 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -41,6 +41,27 @@ class ComplexSpherical(BaseComplexSimplicial):
     def homogenize(self, points):
         return points
 
+    def pick_primal_precomp(self, weight):
+        """Precomputations for primal picking
+
+        Notes
+        -----
+        The great circles that separate adjacent simplices pass through the origin;
+        which power diagrams of the dual vertices do not, unless all simplices are equally large.
+        Instead we make use of the fact that the simplices are the faces of a convex polytope;
+        the ray towards a query point hits the face of which the plane intersects that ray first
+        """
+        if not weight:
+            return super(ComplexSpherical, self).pick_primal_precomp(weight)
+        assert self.is_pairwise_delaunay
+        basis = np.linalg.inv(self.vertices[self.topology.elements[-1]])
+        # all corners of a simplex satisfy dot(corner, normal) == 1
+        normals = basis.sum(axis=-1)
+        # maximizing the dot product with the normals, as a closest-point query
+        points = self.augment(normals, linalg.dot(normals, normals))
+        tree = scipy.spatial.cKDTree(points)
+        return tree, basis
+
     def plot(self, plot_dual=True, backface_culling=False, plot_vertices=True, ax=None, primal_color='b', dual_color='r'):
         """Visualize a complex on a 2-sphere; a little more involved than the other 2d cases"""
         import matplotlib.pyplot as plt
-- 
2.43.0


From 87ad058f7b49be51dc4afdd4b76d81c379cddb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 46/50] fix: conversions between triangle meshes and spheres
 keep the vertex weights

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 pycomplex/complex/simplicial/spherical.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index f29ba96..b9063f5 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -721,7 +721,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         radius = np.linalg.norm(self.vertices, axis=1)
         assert np.allclose(radius, radius.mean())
         from pycomplex.complex.simplicial.spherical import ComplexSpherical2
-        return ComplexSpherical2(vertices=self.vertices, topology=self.topology)
+        return ComplexSpherical2(vertices=self.vertices, topology=self.topology, weights=self.weights)
 
     def save_STL(self, filename):
         """Save a mesh to binary STL.
diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index fe5fa68..848070b 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -271,7 +271,7 @@ class ComplexSpherical2(ComplexSpherical):
 
     def as_euclidian(self):
         from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
-        return ComplexTriangularEuclidian3(vertices=self.vertices, topology=self.topology)
+        return ComplexTriangularEuclidian3(vertices=self.vertices, topology=self.topology, weights=self.weights)
 
     @staticmethod
     def multigrid_transfer_dual(coarse, fine):
-- 
2.43.0


From 630c6b8411234a6ff60c74218d0d0d215913ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:00 +0000
Subject: [PATCH 47/50] fix: subdivided complexes on spheres keep their radius

---
 pycomplex/complex/simplicial/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index 3a4103b..b17f1b3 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -17,9 +17,10 @@ class BaseComplexSimplicial(BaseComplex):
     """
 
     def subdivide_fundamental(self, oriented=True):
-        return type(self)(
+        return self.copy(
             vertices=np.concatenate(self.primal_position, axis=0),
             topology=self.topology.subdivide_fundamental(oriented),
+            weights=None,
         )
 
     def subdivide_fundamental_transfer(self):
@@ -27,9 +28,10 @@ class BaseComplexSimplicial(BaseComplex):
 
     def subdivide_simplicial(self):
         PP = self.primal_position
-        return type(self)(
+        return self.copy(
             vertices=np.concatenate([PP[0], PP[-1]], axis=0),
             topology=self.topology.subdivide_simplicial(),
+            weights=None,
         )
 
     def subdivide_cubical(self):
-- 
2.43.0


From 6941b8ab1a3ab4c981605ded3e885dabc2908e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:00 +0000
Subject: [PATCH 48/50] fix: boundaries of complexes on spheres have a type and
 a radius

---
 pycomplex/complex/simplicial/spherical.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 848070b..8ccf022 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -38,6 +38,16 @@ class ComplexSpherical(BaseComplexSimplicial):
         from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
         return ComplexSimplicialEuclidian(vertices=self.vertices, topology=self.topology, weights=self.weights)
 
+    @cached_property
+    def boundary(self):
+        boundary = self.topology.boundary
+        if boundary is None:
+            return None
+        idx = boundary.parent_idx[0]
+        weights = None if self.weights is None else self.weights[idx]
+        # the boundary has a dimension less; so does the type of complex on the sphere
+        return ComplexSpherical(vertices=self.vertices[idx], topology=boundary, radius=self.radius, weights=weights)
+
     def homogenize(self, points):
         return points
 
-- 
2.43.0


From 58dd703c234fa1729c8cfe71db3aee5d767b668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:00 +0000
Subject: [PATCH 49/50] fix: refined triangulations of spheres do not keep the
 weights of coarse vertices

---
 pycomplex/complex/simplicial/spherical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 8ccf022..b4c941e 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -265,7 +265,8 @@ class ComplexSpherical2(ComplexSpherical):
         """
         return self.copy(
             vertices=np.concatenate(self.primal_position[:2], axis=0),
-            topology=self.topology.subdivide_loop()
+            topology=self.topology.subdivide_loop(),
+            weights=None,
         )
 
     def subdivide_loop_direct(self):
@@ -276,7 +277,8 @@ class ComplexSpherical2(ComplexSpherical):
         """
         return self.copy(
             vertices=np.concatenate(self.primal_position[:2], axis=0),
-            topology=self.topology.subdivide_loop_direct()
+            topology=self.topology.subdivide_loop_direct(),
+            weights=None,
         )
 
     def as_euclidian(self):
-- 
2.43.0


From 52837dcc1fd053c9c9d89378c92d437cc246c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:34 +0000
Subject: [PATCH 50/50] fix: allocate the unknowns and right hand side of a
 stencil system

---
 pycomplex/stencil/linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/linear_system.py b/pycomplex/stencil/linear_system.py
index 2c3bfa1..855e04f 100755
--- a/pycomplex/stencil/linear_system.py
+++ b/pycomplex/stencil/linear_system.py
@@ -36,10 +36,10 @@ class System(object):
         self.R = np.array(R)
 
     def allocate_x(self):
-        return BlockArray([self.complex.form(n) for n in self.R])
+        return BlockArray([self.complex.topology.form(n) for n in self.R])
 
     def allocate_y(self):
-        return BlockArray([self.complex.form(n) for n in self.L])
+        return BlockArray([self.complex.topology.form(n) for n in self.L])
 
     @classmethod
     def canonical(cls, complex: StencilComplex):
-- 
2.43.0

