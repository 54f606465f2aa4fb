From 4ead99a2137475337ad82f2c7910c53cc0f48233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 001/112] fix: RandomRegular crashed when the pairing process
 had to restart

---
 pygsp/graphs/randomregular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/randomregular.py b/pygsp/graphs/randomregular.py
index 3c0fa6b..958084e 100644
--- a/pygsp/graphs/randomregular.py
+++ b/pygsp/graphs/randomregular.py
@@ -89,7 +89,7 @@ class RandomRegular(Graph):
                 if edgesTested == N * k:
                     repetition = repetition + 1
                     edgesTested = 0
-                    U = np.kron(np.ones(k), np.arange(N))
+                    U = np.kron(np.ones(k), np.arange(N)).astype(int)
                     A = sparse.lil_matrix(np.zeros((N, N)))
             else:
                 # add edge to graph
-- 
2.43.0


From 18718baefc780d8415c4202104ea157d08f8d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 002/112] fix: extract_components ignored edges of negative
 weight, unlike is_connected

---
 pygsp/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 495415b..c0781c5 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -494,7 +494,7 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
                     # Add indices of nodes not visited yet and accessible from
                     # v
                     stack.update(
-                        {idx for idx in self.A[v, :].nonzero()[1] if not visited[idx]}
+                        {idx for idx in self.W[v, :].nonzero()[1] if not visited[idx]}
                     )
 
             comp = sorted(comp)
-- 
2.43.0


From 923948a0abb42d4c4c1a4a569039cf179e0ca4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 003/112] fix: symmetrizing by average overflowed for boolean
 and small integer types

---
 pygsp/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index c286f33..7b7b04c 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -245,7 +245,8 @@ def symmetrize(W, method="average"):
         raise ValueError("Matrix must be square.")
 
     if method == "average":
-        return (W + W.T) / 2
+        # Divide first: the sum of booleans or small integers would overflow.
+        return W / 2 + W.T / 2
 
     elif method == "maximum":
         if sparse.issparse(W):
-- 
2.43.0


From b08b7944500a580b2c9d382081822adbaf88543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 004/112] fix: differential operator lost precision for small
 integer weights

---
 pygsp/graphs/difference.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsp/graphs/difference.py b/pygsp/graphs/difference.py
index 23cef80..4c677ec 100644
--- a/pygsp/graphs/difference.py
+++ b/pygsp/graphs/difference.py
@@ -143,6 +143,9 @@ class DifferenceMixIn:
 
         sources, targets, weights = self.get_edge_list()
 
+        # The square root of small integer types is of low precision.
+        weights = weights.astype(float)
+
         n = self.n_edges
         rows = np.concatenate([sources, targets])
         columns = np.concatenate([np.arange(n), np.arange(n)])
-- 
2.43.0


From a55f518ea45712762d62f149542458c5b362d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 005/112] fix: asking for an unknown Laplacian type corrupted
 the graph

---
 pygsp/graphs/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index c0781c5..3b153e2 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -599,6 +599,9 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
 
         """
 
+        if lap_type not in ["combinatorial", "normalized"]:
+            raise ValueError(f"Unknown Laplacian type {lap_type}")
+
         if lap_type != self.lap_type:
             # Those attributes are invalidated when the Laplacian is changed.
             # Alternative: don't allow the user to change the Laplacian.
@@ -626,8 +629,6 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
             self.L = sparse.identity(self.n_vertices) - D * W * D
             self.L[disconnected, disconnected] = 0
             self.L.eliminate_zeros()
-        else:
-            raise ValueError(f"Unknown Laplacian type {lap_type}")
 
     def _check_signal(self, s):
         r"""Check if signal is valid."""
-- 
2.43.0


From 78c2e2b4acc8a91360b4a10f5b67dfc97fc1ce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 006/112] fix: lmax could not be estimated again after the
 Laplacian was changed

---
 pygsp/graphs/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 3b153e2..796306c 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -606,6 +606,7 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
             # Those attributes are invalidated when the Laplacian is changed.
             # Alternative: don't allow the user to change the Laplacian.
             self._lmax = None
+            self._lmax_method = None
             self._U = None
             self._e = None
             self._coherence = None
-- 
2.43.0


From 11b06bb56cb88680968d06b9d6a139c619b8141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 007/112] fix: a failed lmax estimation was remembered as done

---
 pygsp/graphs/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 796306c..f326d3d 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -904,7 +904,6 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         """
         if method == self._lmax_method:
             return
-        self._lmax_method = method
 
         if method == "lanczos":
             try:
@@ -932,6 +931,8 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         else:
             raise ValueError(f"Unknown method {method}")
 
+        self._lmax_method = method
+
     def _get_upper_bound(self):
         r"""Return an upper bound on the eigenvalues of the Laplacian."""
 
-- 
2.43.0


From e90e76c0c9e8cf07a5bd06ba4d9f801d78cd4e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 008/112] fix: spectra of graphs with large weights failed
 absolute sanity checks

---
 pygsp/graphs/fourier.py | 6 ++++--
 pygsp/graphs/graph.py   | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/fourier.py b/pygsp/graphs/fourier.py
index 43d7de7..ce8a373 100644
--- a/pygsp/graphs/fourier.py
+++ b/pygsp/graphs/fourier.py
@@ -178,7 +178,9 @@ class FourierMixIn:
         # Smallest eigenvalue should be zero: correct numerical errors.
         # Eigensolver might sometimes return small negative values, which
         # filter's implementations may not anticipate. Better for plotting too.
-        assert -1e-5 < self._e[0] < 1e-5
+        bound = self._get_upper_bound()
+        tol = 1e-5 * max(1, bound)  # Errors are relative to the spectrum.
+        assert -tol < self._e[0] < tol
         self._e[0] = 0
 
         # we set the first eigenvector to have positive values:
@@ -186,7 +188,7 @@ class FourierMixIn:
             self._U[0, :] = -self._U[0, :]
 
         # Bounded spectrum.
-        assert self._e[-1] <= self._get_upper_bound() + 1e-5
+        assert self._e[-1] <= bound + tol
 
         assert np.max(self._e) == self._e[-1]
         if n_eigenvectors == self.N:
diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index f326d3d..c1b8e6d 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -917,7 +917,7 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
                     return_eigenvectors=False,
                 )
                 lmax = lmax[0]
-                assert lmax <= self._get_upper_bound() + 1e-12
+                assert lmax <= self._get_upper_bound() * (1 + 1e-9)
                 lmax *= 1.01  # Increase by 1% to be robust to errors.
                 self._lmax = lmax
             except sparse.linalg.ArpackNoConvergence:
-- 
2.43.0


From e85d26908707cf78afd12061845e148d2e06167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 009/112] fix: lmax could not be estimated for graphs without
 edges

---
 pygsp/graphs/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index c1b8e6d..0c9607e 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -905,7 +905,10 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         if method == self._lmax_method:
             return
 
-        if method == "lanczos":
+        if method == "lanczos" and (self.n_vertices == 1 or self.L.nnz == 0):
+            self._lmax = 0.0  # ARPACK does not handle null matrices.
+
+        elif method == "lanczos":
             try:
                 # We need to cast the matrix L to a supported type.
                 # TODO: not good for memory. Cast earlier?
-- 
2.43.0


From 25a70ba37bbac5c76d4929f4adf69a5c453f88b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 010/112] fix: compute_fourier_basis kept an estimated lmax
 when the basis was cached

---
 pygsp/graphs/fourier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygsp/graphs/fourier.py b/pygsp/graphs/fourier.py
index ce8a373..3151c74 100644
--- a/pygsp/graphs/fourier.py
+++ b/pygsp/graphs/fourier.py
@@ -154,6 +154,10 @@ class FourierMixIn:
             n_eigenvectors = self.n_vertices
 
         if self._U is not None and n_eigenvectors <= len(self._e):
+            if n_eigenvectors == self.n_vertices:
+                # It might have been replaced by an estimate.
+                self._lmax = self._e[-1]
+                self._lmax_method = "fourier"
             return
 
         assert self.L.shape == (self.n_vertices, self.n_vertices)
-- 
2.43.0


From c9894e679fc31a5702a9765b7dc7070ea63e73c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 011/112] fix: compute_frame was wrong for as many filters as
 vertices

---
 pygsp/filters/filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygsp/filters/filter.py b/pygsp/filters/filter.py
index cf15f7e..749a6f6 100644
--- a/pygsp/filters/filter.py
+++ b/pygsp/filters/filter.py
@@ -595,8 +595,9 @@ class Filter:
                 "Creating a big matrix. " "You should prefer the filter method."
             )
 
-        # Filter one delta per vertex.
-        s = np.identity(self.G.N)
+        # Filter one delta per vertex. The explicit feature axis avoids confusing
+        # signals with features when there is as many filters as vertices.
+        s = np.expand_dims(np.identity(self.G.N), axis=-1)
         return self.filter(s, **kwargs).T.reshape(-1, self.G.N)
 
     def complement(self, frame_bound=None):
-- 
2.43.0


From 4bad25ca51a0c8340362ab5f255870b69b95fb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 012/112] fix: lanczos_op crashed, always by name or when the
 Krylov space was exhausted

---
 pygsp/filters/approximations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index bb46dba..3320b4f 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -244,7 +244,7 @@ def lanczos_op(f, s, order=30):
 
     """
     G = f.G
-    Nf = len(f.g)
+    Nf = f.Nf
 
     # To have the right shape for the output array depending on the signal dim
     try:
@@ -315,7 +315,7 @@ def lanczos(A, order, x):
 
     for k in range(1, order):
         if np.sum(np.abs(H[k, hiv + k - 1])) <= np.spacing(1):
-            H = H[: k - 1, _sum_ind(np.arange(k), hiv)]
+            H = H[:k, _sum_ind(np.arange(k), hiv)]
             V = V[:, _sum_ind(np.arange(k), hiv)]
             orth = orth[:k]
 
-- 
2.43.0


From 2f4126b6e285d1ea6a3feb1e816e78bd29f72e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 013/112] fix: compute_jackson_cheby_coeff raised a tuple on
 invalid bounds

---
 pygsp/filters/approximations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index 3320b4f..6800bb6 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -187,11 +187,9 @@ def compute_jackson_cheby_coeff(filter_bounds, delta_lambda, m):
     """
     # Parameters check
     if delta_lambda[0] > filter_bounds[0] or delta_lambda[1] < filter_bounds[1]:
-        _logger.error("Bounds of the filter are out of the lambda values")
-        raise ()
+        raise ValueError("Bounds of the filter are out of the lambda values")
     elif delta_lambda[0] > delta_lambda[1]:
-        _logger.error("lambda_min is greater than lambda_max")
-        raise ()
+        raise ValueError("lambda_min is greater than lambda_max")
 
     # Scaling and translating to standard cheby interval
     a1 = (delta_lambda[1] - delta_lambda[0]) / 2
-- 
2.43.0


From 451a13da6292bd0d47fe0a65c72fab39e8a58a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 014/112] fix: compute_jackson_cheby_coeff modified the bounds
 passed by the caller

---
 pygsp/filters/approximations.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index 6800bb6..7a24b3a 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -196,8 +196,7 @@ def compute_jackson_cheby_coeff(filter_bounds, delta_lambda, m):
     a2 = (delta_lambda[1] + delta_lambda[0]) / 2
 
     # Scaling bounds of the band pass according to lrange
-    filter_bounds[0] = (filter_bounds[0] - a2) / a1
-    filter_bounds[1] = (filter_bounds[1] - a2) / a1
+    filter_bounds = [(bound - a2) / a1 for bound in filter_bounds]
 
     # First compute cheby coeffs
     ch = np.empty(m + 1, dtype=float)
-- 
2.43.0


From ff27880caffc99ae13f29df3ff295863345371d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 015/112] fix: lanczos continued with rounding errors after
 exhausting the Krylov space

---
 pygsp/filters/approximations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index 7a24b3a..9cebd37 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -311,7 +311,7 @@ def lanczos(A, order, x):
     orth[0] = np.linalg.norm(np.dot(V.T, V) - M)
 
     for k in range(1, order):
-        if np.sum(np.abs(H[k, hiv + k - 1])) <= np.spacing(1):
+        if np.sum(np.abs(H[k, hiv + k - 1])) <= 1e-12 * np.linalg.norm(A):
             H = H[:k, _sum_ind(np.arange(k), hiv)]
             V = V[:, _sum_ind(np.arange(k), hiv)]
             orth = orth[:k]
-- 
2.43.0


From b739d86bb0d60af42e27e186a29b44875605623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 016/112] fix: Held, Simoncelli, and Papadakis returned
 uninitialized memory for eigenvalues rounded below zero

---
 pygsp/filters/held.py       | 2 +-
 pygsp/filters/papadakis.py  | 2 +-
 pygsp/filters/simoncelli.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsp/filters/held.py b/pygsp/filters/held.py
index 7c318b8..4d626fa 100644
--- a/pygsp/filters/held.py
+++ b/pygsp/filters/held.py
@@ -51,7 +51,7 @@ class Held(Filter):
             l1 = a
             l2 = 2 * a
 
-            r1ind = (x >= 0) * (x < l1)
+            r1ind = x < l1
             r2ind = (x >= l1) * (x < l2)
             r3ind = x >= l2
 
diff --git a/pygsp/filters/papadakis.py b/pygsp/filters/papadakis.py
index db6388e..f2f5985 100644
--- a/pygsp/filters/papadakis.py
+++ b/pygsp/filters/papadakis.py
@@ -47,7 +47,7 @@ class Papadakis(Filter):
             l1 = a
             l2 = a * 5 / 3
 
-            r1ind = (x >= 0) * (x < l1)
+            r1ind = x < l1
             r2ind = (x >= l1) * (x < l2)
             r3ind = x >= l2
 
diff --git a/pygsp/filters/simoncelli.py b/pygsp/filters/simoncelli.py
index 187305d..07452e9 100644
--- a/pygsp/filters/simoncelli.py
+++ b/pygsp/filters/simoncelli.py
@@ -47,7 +47,7 @@ class Simoncelli(Filter):
             l1 = a
             l2 = 2 * a
 
-            r1ind = (x >= 0) * (x < l1)
+            r1ind = x < l1
             r2ind = (x >= l1) * (x < l2)
             r3ind = x >= l2
 
-- 
2.43.0


From ee9b1916773477434c16360c4e9b3d5bacf6ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 017/112] fix: inverse filter banks could only be evaluated on
 vectors

---
 pygsp/filters/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/filters/filter.py b/pygsp/filters/filter.py
index 749a6f6..5c96e0e 100644
--- a/pygsp/filters/filter.py
+++ b/pygsp/filters/filter.py
@@ -751,9 +751,9 @@ class Filter:
             )
 
         def kernel(g, i, x):
-            y = g.evaluate(x).T
+            y = np.moveaxis(g.evaluate(x), 0, -1)
             z = np.linalg.pinv(np.expand_dims(y, axis=-1)).squeeze(axis=-2)
-            return z[:, i]  # Return one filter.
+            return z[..., i]  # Return one filter.
 
         kernels = [partial(kernel, self, i) for i in range(self.n_filters)]
 
-- 
2.43.0


From 406a1f36ed7913d250320b684371f117fea5b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 018/112] fix: Regular nested one sine less than documented for
 degrees above one

---
 pygsp/filters/regular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/regular.py b/pygsp/filters/regular.py
index 399adde..6f7e098 100644
--- a/pygsp/filters/regular.py
+++ b/pygsp/filters/regular.py
@@ -55,7 +55,7 @@ class Regular(Filter):
                 return np.sin(np.pi / 4 * x)
             else:
                 output = np.sin(np.pi * (x - 1) / 2)
-                for _ in range(2, degree):
+                for _ in range(2, degree + 1):
                     output = np.sin(np.pi * output / 2)
                 return np.sin(np.pi / 4 * (1 + output))
 
-- 
2.43.0


From 6d286667f43c88612f2779460cf451fa28514fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 019/112] fix: SimpleTight did not accept arrays of scales

---
 pygsp/filters/simpletight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/simpletight.py b/pygsp/filters/simpletight.py
index facc13b..a552b1a 100644
--- a/pygsp/filters/simpletight.py
+++ b/pygsp/filters/simpletight.py
@@ -82,7 +82,7 @@ class SimpleTight(Filter):
 
             return r
 
-        if not scales:
+        if scales is None:
             scales = 1.0 / (2.0 * G.lmax) * np.power(2, np.arange(Nf - 2, -1, -1))
         self.scales = scales
 
-- 
2.43.0


From 4f610b7031613aac9bf95f411a51cc295c268c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 020/112] fix: Wave multiplied arrays of length one instead of
 repeating them

---
 pygsp/filters/wave.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/filters/wave.py b/pygsp/filters/wave.py
index 04788d2..3038914 100644
--- a/pygsp/filters/wave.py
+++ b/pygsp/filters/wave.py
@@ -103,9 +103,9 @@ class Wave(Filter):
 
         if len(time) != len(speed):
             if len(speed) == 1:
-                speed = speed * len(time)
+                speed = list(speed) * len(time)
             elif len(time) == 1:
-                time = time * len(speed)
+                time = list(time) * len(speed)
             else:
                 raise ValueError(
                     "If both parameters are iterable, "
-- 
2.43.0


From e94bf83bef943327b6cde9219a8adc0c6dd73153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 021/112] fix: Wave accepted negative propagation speeds

---
 pygsp/filters/wave.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/wave.py b/pygsp/filters/wave.py
index 3038914..ecd9d96 100644
--- a/pygsp/filters/wave.py
+++ b/pygsp/filters/wave.py
@@ -112,7 +112,7 @@ class Wave(Filter):
                     "they should have the same length."
                 )
 
-        if np.any(np.asanyarray(speed) >= 2):
+        if np.any(np.asanyarray(speed) < 0) or np.any(np.asanyarray(speed) >= 2):
             raise ValueError("The wave propagation speed should be in [0, 2[")
 
         def kernel(x, time, speed):
-- 
2.43.0


From f83b1a8483d65fd89f9d2289acfea189e4433446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 022/112] fix: filter banks made of a tuple of kernels could
 not be concatenated

---
 pygsp/filters/filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsp/filters/filter.py b/pygsp/filters/filter.py
index 5c96e0e..75aa6c5 100644
--- a/pygsp/filters/filter.py
+++ b/pygsp/filters/filter.py
@@ -60,6 +60,8 @@ class Filter:
             iter(kernels)
         except TypeError:
             kernels = [kernels]
+        # Always a list, so that banks built from other sequences concatenate.
+        kernels = list(kernels)
         self._kernels = kernels
 
         # Only used by subclasses to instantiate a single filterbank.
-- 
2.43.0


From 0021fdec97ad22a7734e40e79013a4e9203cba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 023/112] fix: analyze and synthesize did not accept lists,
 unlike filter

---
 pygsp/filters/filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsp/filters/filter.py b/pygsp/filters/filter.py
index 75aa6c5..346bd41 100644
--- a/pygsp/filters/filter.py
+++ b/pygsp/filters/filter.py
@@ -331,6 +331,7 @@ class Filter:
 
     def analyze(self, s, method="chebyshev", order=30):
         r"""Convenience alias to :meth:`filter`."""
+        s = self.G._check_signal(s)
         if s.ndim == 3 and s.shape[-1] != 1:
             raise ValueError(
                 "Last dimension (#features) should be " "1, got {}.".format(s.shape)
@@ -342,6 +343,7 @@ class Filter:
 
         Will be an alias to `adjoint().filter()` in the future.
         """
+        s = self.G._check_signal(s)
         if s.shape[-1] != self.Nf:
             raise ValueError(
                 "Last dimension (#features) should be the number "
-- 
2.43.0


From 58e606f6217d69e55fc8ce8374e8715093ea7a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 024/112] fix: Wave returned NaN for eigenvalues rounded below
 zero

---
 pygsp/filters/wave.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/filters/wave.py b/pygsp/filters/wave.py
index ecd9d96..87095bd 100644
--- a/pygsp/filters/wave.py
+++ b/pygsp/filters/wave.py
@@ -116,7 +116,9 @@ class Wave(Filter):
             raise ValueError("The wave propagation speed should be in [0, 2[")
 
         def kernel(x, time, speed):
-            return np.cos(time * np.arccos(1 - speed**2 * x / G.lmax / 2))
+            # Eigenvalues might be negative due to numerical errors.
+            z = np.minimum(1 - speed**2 * x / G.lmax / 2, 1)
+            return np.cos(time * np.arccos(z))
 
         kernels = [partial(kernel, time=t, speed=s) for t, s in zip(time, speed)]
 
-- 
2.43.0


From f649e5df389745be98e1432ead3f1a7da74c1a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 025/112] fix: Abspline accepted a wrong number of scales

---
 pygsp/filters/abspline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsp/filters/abspline.py b/pygsp/filters/abspline.py
index a5e5103..52c972c 100644
--- a/pygsp/filters/abspline.py
+++ b/pygsp/filters/abspline.py
@@ -90,6 +90,9 @@ class Abspline(Filter):
             scales = utils.compute_log_scales(lmin, G.lmax, Nf - 1)
         self.scales = scales
 
+        if len(scales) != Nf - 1:
+            raise ValueError("len(scales) should be Nf-1.")
+
         gb = lambda x: kernel_abspline3(x, 2, 2, 1, 2)
         gl = lambda x: np.exp(-np.power(x, 4))
 
-- 
2.43.0


From 84edf7e7b80cb8035f02d4dd28af98cc5eef6b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 026/112] fix: compute_tig ignored its arguments and repeated
 the whole frame for every filter of a bank

---
 pygsp/features.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsp/features.py b/pygsp/features.py
index f70f19f..906a46b 100644
--- a/pygsp/features.py
+++ b/pygsp/features.py
@@ -38,7 +38,10 @@ def compute_tig(g, **kwargs):
         Additional parameters to be passed to the
         :func:`pygsp.filters.Filter.filter` method.
     """
-    return g.compute_frame()
+    i = kwargs.pop("i", None)  # Set by the handler if there is many filters.
+    if i is not None:
+        g = g[i]
+    return g.compute_frame(**kwargs)
 
 
 @utils.filterbank_handler
-- 
2.43.0


From db051597f7775db559b73f1a198461d2d7d3ed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 027/112] fix: compute_avg_adj_deg counted distinct two-hop
 neighbors instead of averaging degrees

---
 pygsp/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/features.py b/pygsp/features.py
index 906a46b..f9e90f4 100644
--- a/pygsp/features.py
+++ b/pygsp/features.py
@@ -20,7 +20,7 @@ def compute_avg_adj_deg(G):
     G: Graph
         Graph on which the statistic is extracted
     """
-    return np.sum(np.dot(G.A, G.A), axis=1) / (np.sum(G.A, axis=1) + 1.0)
+    return (G.d + G.A.dot(G.d)) / (G.d + 1.0)
 
 
 @utils.filterbank_handler
-- 
2.43.0


From a07d55e1c5dfc02bc25ed3f4fb31941eb5214ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 028/112] fix: Modulation could not be indexed, concatenated,
 or evaluated on lists

---
 pygsp/filters/modulation.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pygsp/filters/modulation.py b/pygsp/filters/modulation.py
index 35b3a41..e855c7e 100644
--- a/pygsp/filters/modulation.py
+++ b/pygsp/filters/modulation.py
@@ -124,10 +124,6 @@ class Modulation(Filter):
     """
 
     def __init__(self, graph, kernel, modulation_first=False):
-        self.G = graph
-        self._kernels = kernel
-        self._modulation_first = modulation_first
-
         if kernel.n_filters != 1:
             raise ValueError(
                 "A kernel must be one filter. The passed "
@@ -139,19 +135,25 @@ class Modulation(Filter):
                 "be the one used to build the mother kernel."
             )
 
-        self.n_features_in, self.n_features_out = (1, graph.n_vertices)
-        self.n_filters = self.n_features_in * self.n_features_out
-        self.Nf = self.n_filters  # TODO: kept for backward compatibility only.
+        self._kernel = kernel
+        self._modulation_first = modulation_first
+
+        kernels = []
+        for i in range(graph.n_vertices):
+            kernels.append(lambda x, i=i: self.evaluate(x)[i])
+
+        super().__init__(graph, kernels)
 
     def evaluate(self, x):
         """TODO: will become _evaluate once polynomial filtering is merged."""
 
         if not hasattr(self, "_coefficients"):
             # Graph Fourier transform -> modulation -> inverse GFT.
-            c = self.G.igft(self._kernels.evaluate(self.G.e).squeeze())
+            c = self.G.igft(self._kernel.evaluate(self.G.e).squeeze())
             c = np.sqrt(self.G.n_vertices) * self.G.U * c[:, np.newaxis]
             self._coefficients = self.G.gft(c)
 
+        x = np.asanyarray(x)
         shape = x.shape
         x = x.flatten()
         y = np.full((self.n_features_out, x.size), np.nan)
@@ -172,6 +174,6 @@ class Modulation(Filter):
             # GFT, as for the localization and the IGFT.
             y = np.empty((self.G.n_vertices, self.G.n_vertices))
             for i in range(self.G.n_vertices):
-                x = s * self._kernels.localize(i)
+                x = s * self._kernel.localize(i)
                 y[i] = np.sqrt(self.G.n_vertices) * self.G.gft(x)
             return y
-- 
2.43.0


From 9d1df6d50c1b467ed993aea3fc7b4ab3dfa5792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 029/112] fix: RandomRegular never terminated if an edge was
 added by the last test before a restart

---
 pygsp/graphs/randomregular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/randomregular.py b/pygsp/graphs/randomregular.py
index 958084e..039dcd4 100644
--- a/pygsp/graphs/randomregular.py
+++ b/pygsp/graphs/randomregular.py
@@ -86,7 +86,7 @@ class RandomRegular(Graph):
             # check that there are no loops nor parallel edges
             if v1 == v2 or A[v1, v2] == 1:
                 # restart process if needed
-                if edgesTested == N * k:
+                if edgesTested >= N * k:
                     repetition = repetition + 1
                     edgesTested = 0
                     U = np.kron(np.ones(k), np.arange(N)).astype(int)
-- 
2.43.0


From edb4fcfa858c6420a0bb591f01119ad2d38016dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 030/112] fix: exporting or saving a graph replaced its
 multi-dimensional signals

---
 pygsp/graphs/_io.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index e2b3223..ac65239 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -29,11 +29,14 @@ def _import_graphtool():
 class IOMixIn:
     def _break_signals(self):
         r"""Break N-dimensional signals into N 1D signals."""
-        for name in list(self.signals.keys()):
-            if self.signals[name].ndim == 2:
-                for i, signal_1d in enumerate(self.signals[name].T):
-                    self.signals[name + "_" + str(i)] = signal_1d
-                del self.signals[name]
+        broken = dict()
+        for name, signal in self.signals.items():
+            if signal.ndim == 2:
+                for i, signal_1d in enumerate(signal.T):
+                    broken[name + "_" + str(i)] = signal_1d
+            else:
+                broken[name] = signal
+        return broken
 
     def _join_signals(self):
         r"""Join N 1D signals into one N-dimensional signal."""
@@ -130,11 +133,11 @@ class IOMixIn:
             for vertex in range(self.n_vertices):
                 signals = {
                     name: convert(signal[vertex])
-                    for name, signal in self.signals.items()
+                    for name, signal in broken_signals.items()
                 }
                 yield vertex, signals
 
-        self._break_signals()
+        broken_signals = self._break_signals()
         graph = nx.DiGraph() if self.is_directed() else nx.Graph()
         graph.add_nodes_from(nodes())
         graph.add_edges_from(edges())
@@ -208,8 +211,7 @@ class IOMixIn:
         prop.get_array()[:] = weights
         graph.edge_properties["weight"] = prop
 
-        self._break_signals()
-        for name, signal in self.signals.items():
+        for name, signal in self._break_signals().items():
             prop = graph.new_vertex_property(gt._gt_type(signal.dtype))
             prop.get_array()[:] = signal
             graph.vertex_properties[name] = prop
-- 
2.43.0


From b342b4ed3786bfd2fa0b225d09d7c34233b250ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 031/112] fix: importing permuted signals of more than ten
 dimensions and joined unrelated ones

---
 pygsp/graphs/_io.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index ac65239..1c44525 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -40,15 +40,15 @@ class IOMixIn:
 
     def _join_signals(self):
         r"""Join N 1D signals into one N-dimensional signal."""
-        joined = dict()
-        for name in self.signals:
-            name_base = name.rsplit("_", 1)[0]
-            names = joined.get(name_base, list())
-            names.append(name)
-            joined[name_base] = names
-        for name_base, names in joined.items():
+        for name in list(self.signals.keys()):
+            # Dimensions are numbered from zero (_0, _1, etc.).
+            name_base = str(name)[:-2]
+            if name != name_base + "_0" or name_base in self.signals:
+                continue
+            names = []
+            while f"{name_base}_{len(names)}" in self.signals:
+                names.append(f"{name_base}_{len(names)}")
             if len(names) > 1:
-                names = sorted(names)  # ensure dim ordering (_0, _1, etc.)
                 signal_nd = np.stack([self.signals[n] for n in names], axis=1)
                 self.signals[name_base] = signal_nd
                 for name in names:
-- 
2.43.0


From 525125049b86de8a549df3be2a3000044aaafce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 032/112] fix: to_graphtool lost isolated vertices at the end

---
 pygsp/graphs/_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 1c44525..44ce6e9 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -205,6 +205,7 @@ class IOMixIn:
         gt = _import_graphtool()
         graph = gt.Graph(directed=self.is_directed())
 
+        graph.add_vertex(self.n_vertices)
         sources, targets, weights = self.get_edge_list()
         graph.add_edge_list(zip(sources, targets))
         prop = graph.new_edge_property(gt._gt_type(weights.dtype))
-- 
2.43.0


From 5447d6b462cb0506aff2bfb242de37916ad8abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 033/112] fix: to_graphtool did not support Booleans and
 overflowed with unsigned integers

---
 pygsp/graphs/_io.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 44ce6e9..a518df7 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -205,15 +205,23 @@ class IOMixIn:
         gt = _import_graphtool()
         graph = gt.Graph(directed=self.is_directed())
 
+        def convert(values):
+            # graph-tool has no unsigned integers. Booleans are not portable.
+            if values.dtype.kind in "bu":
+                values = values.astype(np.int64)
+            return values, gt._gt_type(values.dtype)
+
         graph.add_vertex(self.n_vertices)
         sources, targets, weights = self.get_edge_list()
         graph.add_edge_list(zip(sources, targets))
-        prop = graph.new_edge_property(gt._gt_type(weights.dtype))
+        weights, dtype = convert(weights)
+        prop = graph.new_edge_property(dtype)
         prop.get_array()[:] = weights
         graph.edge_properties["weight"] = prop
 
         for name, signal in self._break_signals().items():
-            prop = graph.new_vertex_property(gt._gt_type(signal.dtype))
+            signal, dtype = convert(signal)
+            prop = graph.new_vertex_property(dtype)
             prop.get_array()[:] = signal
             graph.vertex_properties[name] = prop
 
-- 
2.43.0


From 8695f689f77ffc431bdf7eace37b33d40af117ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 034/112] fix: from_graphtool doubled the weight of undirected
 self-loops

---
 pygsp/graphs/_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index a518df7..4278d71 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -1,6 +1,7 @@
 import os
 
 import numpy as np
+from scipy import sparse
 
 
 def _import_networkx():
@@ -374,6 +375,9 @@ class IOMixIn:
 
         weight = graph.edge_properties.get(weight, None)
         adjacency = gt.spectral.adjacency(graph, weight=weight)
+        if not graph.is_directed():
+            # graph-tool counts undirected self-loops twice.
+            adjacency = adjacency - sparse.diags(adjacency.diagonal() / 2)
         graph_pg = Graph(adjacency.T)
 
         for name, signal in graph.vertex_properties.items():
-- 
2.43.0


From 5f5f787fe32683138115e7378a94e484f76f89e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 035/112] fix: from_graphtool shared memory with, and did not
 support filtered, graphs

---
 pygsp/graphs/_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 4278d71..138298e 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -381,7 +381,8 @@ class IOMixIn:
         graph_pg = Graph(adjacency.T)
 
         for name, signal in graph.vertex_properties.items():
-            graph_pg.set_signal(signal.get_array(), name)
+            # Copy the values of the vertices that are not filtered out.
+            graph_pg.set_signal(signal.fa.copy(), name)
 
         graph_pg._join_signals()
         return graph_pg
-- 
2.43.0


From e532aa665feba7ef2eeeb290620ce344c8d6f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 036/112] fix: loading from GEXF added a signal made of the
 default labels

---
 pygsp/graphs/_io.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 138298e..8ee8808 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -447,6 +447,12 @@ class IOMixIn:
             nx = _import_networkx()
             load = getattr(nx, "read_" + fmt)
             graph = load(path)
+            if fmt == "gexf":
+                # The format labels every node, with its name by default.
+                labels = graph.nodes(data="label")
+                if all(label == node for node, label in labels):
+                    for node in graph.nodes():
+                        del graph.nodes[node]["label"]
             return cls.from_networkx(graph)
 
         def load_graphtool(path, fmt):
-- 
2.43.0


From 0b8feb71ffb06f49d5555c87d829ab75f20c05d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 037/112] fix: graphs of small integers saved as GML with
 graph-tool lost weights and signals

---
 pygsp/graphs/_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 8ee8808..8c6c05c 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -208,7 +208,10 @@ class IOMixIn:
 
         def convert(values):
             # graph-tool has no unsigned integers. Booleans are not portable.
-            if values.dtype.kind in "bu":
+            # 8 and 16-bit integers are silently skipped when saving as GML.
+            if values.dtype.kind in "bu" or (
+                values.dtype.kind == "i" and values.dtype.itemsize < 4
+            ):
                 values = values.astype(np.int64)
             return values, gt._gt_type(values.dtype)
 
-- 
2.43.0


From 27774e5d9fedfb8483a7a020d512fd33290d4e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 038/112] fix: Ring was wrong when connecting opposite vertices
 (2 * k == N)

---
 pygsp/graphs/ring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/ring.py b/pygsp/graphs/ring.py
index a189c14..b28e4e7 100644
--- a/pygsp/graphs/ring.py
+++ b/pygsp/graphs/ring.py
@@ -79,7 +79,7 @@ class Ring(Graph):
 
         if 2 * k == N:
             i_inds[2 * N * (k - 1) + tmpN] = tmpN
-            i_inds[2 * N * (k - 1) + tmpN] = np.remainder(tmpN + k + 1, N)
+            j_inds[2 * N * (k - 1) + tmpN] = np.remainder(tmpN + k, N)
 
         W = sparse.csc_matrix((np.ones(2 * num_edges), (i_inds, j_inds)), shape=(N, N))
 
-- 
2.43.0


From 1e30f00db9884472059e2585881299fcab4ba26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 039/112] fix: LowStretchTree had self-loops, hence was
 directed and not connected

---
 pygsp/graphs/lowstretchtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/lowstretchtree.py b/pygsp/graphs/lowstretchtree.py
index 5bb9f24..9ddd3eb 100644
--- a/pygsp/graphs/lowstretchtree.py
+++ b/pygsp/graphs/lowstretchtree.py
@@ -33,7 +33,7 @@ class LowStretchTree(Graph):
         YCoords = np.array([1, 1, 2, 2], dtype=int)
 
         ii = np.array([0, 0, 1, 2, 2, 3], dtype=int)
-        jj = np.array([1, 2, 1, 3, 0, 2], dtype=int)
+        jj = np.array([1, 2, 0, 3, 0, 2], dtype=int)
 
         for p in range(1, k):
             ii = np.concatenate(
-- 
2.43.0


From eb662a177f0b4e76193930fdc0c5e9afa55d0db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 040/112] fix: plotting limits of Grid2d hid a row of vertices

---
 pygsp/graphs/grid2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/grid2d.py b/pygsp/graphs/grid2d.py
index 4177fdc..9b64684 100644
--- a/pygsp/graphs/grid2d.py
+++ b/pygsp/graphs/grid2d.py
@@ -83,7 +83,7 @@ class Grid2d(Graph):
         coords = np.concatenate((x, y), axis=1)
 
         plotting = {
-            "limits": np.array([-1.0 / N2, 1 + 1.0 / N2, 1.0 / N1, 1 + 1.0 / N1])
+            "limits": np.array([-1.0 / N2, 1 + 1.0 / N2, -1.0 / N1, 1 + 1.0 / N1])
         }
 
         super().__init__(W, coords=coords, plotting=plotting, **kwargs)
-- 
2.43.0


From e5396b5c12142c2f0fb80be507e955d872a2328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 041/112] fix: LineGraph was wrong for self-loops and modified
 the given graph

---
 pygsp/graphs/linegraph.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pygsp/graphs/linegraph.py b/pygsp/graphs/linegraph.py
index 210302b..937d8b2 100644
--- a/pygsp/graphs/linegraph.py
+++ b/pygsp/graphs/linegraph.py
@@ -38,15 +38,21 @@ class LineGraph(Graph):
                 "unweighted to build a binary line graph."
             )
 
-        graph.compute_differential_operator()
-        # incidence = np.abs(graph.D)  # weighted?
-        incidence = graph.D != 0
+        sources, targets, _ = graph.get_edge_list()
+        edges = np.arange(graph.n_edges)
+        incidence = sparse.csc_matrix(
+            (
+                np.ones(2 * graph.n_edges, dtype=bool),
+                (np.concatenate((sources, targets)), np.concatenate((edges, edges))),
+            ),
+            shape=(graph.n_vertices, graph.n_edges),
+        )
 
         adjacency = incidence.T.dot(incidence).astype(int)
         adjacency -= sparse.identity(graph.n_edges, dtype=int)
 
         try:
-            coords = incidence.T.dot(graph.coords) / 2
+            coords = (graph.coords[sources] + graph.coords[targets]) / 2
         except AttributeError:
             coords = None
 
-- 
2.43.0


From 30fa2635088232e6372d5b242a3ce5bd14acdf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 042/112] fix: Grid2d could not be made of a single column

---
 pygsp/graphs/grid2d.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pygsp/graphs/grid2d.py b/pygsp/graphs/grid2d.py
index 9b64684..63089b5 100644
--- a/pygsp/graphs/grid2d.py
+++ b/pygsp/graphs/grid2d.py
@@ -52,13 +52,12 @@ class Grid2d(Graph):
         diag_1[(N2 - 1) :: N2] = 0
         diag_2 = np.ones(N - N2)
 
-        W = sparse.diags(
-            diagonals=[diag_1, diag_2],
-            offsets=[-1, -N2],
-            shape=(N, N),
-            format="csr",
-            dtype="float",
-        )
+        kwargs_diags = dict(shape=(N, N), format="csr", dtype="float")
+        W = sparse.csr_matrix((N, N))
+        if N2 > 1:
+            W += sparse.diags([diag_1], offsets=[-1], **kwargs_diags)
+        if N1 > 1:
+            W += sparse.diags([diag_2], offsets=[-N2], **kwargs_diags)
 
         if min(N1, N2) > 1 and diagonal != 0.0:
             # Connecting node with they diagonal neighbours
-- 
2.43.0


From 626172d91de0f60ab2dc0e177d0285a58765d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 043/112] fix: coordinates of graphs of a single vertex were
 rejected

---
 pygsp/graphs/_layout.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 9ee1a03..c269081 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -30,7 +30,9 @@ class LayoutMixIn:
         """
 
         if not isinstance(kind, str):
-            coords = np.asanyarray(kind).squeeze()
+            coords = np.asanyarray(kind)
+            if coords.shape not in [(self.N, 2), (self.N, 3)]:
+                coords = np.atleast_1d(coords.squeeze())
             check_1d = coords.ndim == 1
             check_2d_3d = (coords.ndim == 2) and (2 <= coords.shape[1] <= 3)
             if coords.shape[0] != self.N or not (check_1d or check_2d_3d):
-- 
2.43.0


From 6bf6f0deb21e35276aa8f4bc26aace6c69a44830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 044/112] fix: community2D layout did not reject graphs without
 communities and could not count them

---
 pygsp/graphs/_layout.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index c269081..c0e4e09 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -1,4 +1,7 @@
+from collections import Counter
+
 import numpy as np
+from scipy import sparse
 
 
 class LayoutMixIn:
@@ -65,7 +68,7 @@ class LayoutMixIn:
 
         elif kind == "community2D":
             if not hasattr(self, "info") or "node_com" not in self.info:
-                ValueError(
+                raise AttributeError(
                     "Missing arguments to the graph to be able to "
                     "compute community coordinates."
                 )
-- 
2.43.0


From f470785b3c3dab867da124eb06f98dde7cc9c7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 045/112] fix: spring layout exceeded the given scale, and was
 not a number for a single vertex

---
 pygsp/graphs/_layout.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index c0e4e09..1ed882c 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -231,8 +231,9 @@ def _rescale_layout(pos, scale=1):
     lim = 0  # max coordinate for all axes
     for i in range(pos.shape[1]):
         pos[:, i] -= pos[:, i].mean()
-        lim = max(pos[:, i].max(), lim)
+        lim = max(np.abs(pos[:, i]).max(), lim)
     # rescale to (-scale,scale) in all directions, preserves aspect
-    for i in range(pos.shape[1]):
-        pos[:, i] *= scale / lim
+    if lim > 0:
+        for i in range(pos.shape[1]):
+            pos[:, i] *= scale / lim
     return pos
-- 
2.43.0


From c7fddd0639d5decc4d280411627fe46eccd679ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 046/112] fix: RandomRing sorted the given angles in place

---
 pygsp/graphs/randomring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/randomring.py b/pygsp/graphs/randomring.py
index 383065a..294f7d0 100644
--- a/pygsp/graphs/randomring.py
+++ b/pygsp/graphs/randomring.py
@@ -37,8 +37,8 @@ class RandomRing(Graph):
             rng = np.random.default_rng(seed)
             angles = np.sort(rng.uniform(0, 2 * np.pi, size=N), axis=0)
         else:
-            angles = np.asanyarray(angles)
-            angles.sort()  # Need to be sorted to take the difference.
+            # Need to be sorted to take the difference.
+            angles = np.sort(np.asanyarray(angles))
             N = len(angles)
             if np.any(angles < 0) or np.any(angles >= 2 * np.pi):
                 raise ValueError("Angles should be in [0, 2 pi]")
-- 
2.43.0


From e09708d617b0513a40bce3b2d8a38dbfc91f7304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 047/112] fix: RandomRegular was silently empty when no graph
 was found, and tried one iteration less than asked

---
 pygsp/graphs/randomregular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/graphs/randomregular.py b/pygsp/graphs/randomregular.py
index 039dcd4..b244f0a 100644
--- a/pygsp/graphs/randomregular.py
+++ b/pygsp/graphs/randomregular.py
@@ -68,7 +68,7 @@ class RandomRegular(Graph):
         edgesTested = 0
         repetition = 1
 
-        while np.size(U) and repetition < max_iter:
+        while np.size(U) and repetition <= max_iter:
             edgesTested += 1
 
             if edgesTested % 5000 == 0:
@@ -123,7 +123,7 @@ class RandomRegular(Graph):
             msg = f"{msg} has parallel edges,"
 
         # check that d is d-regular
-        if np.min(self.d) != np.max(self.d):
+        if np.any(self.d != self.k):
             warn = True
             msg = f"{msg} is not d-regular,"
 
-- 
2.43.0


From 78be598e59e190b82898d40b053b49cc63967ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 048/112] fix: StochasticBlockModel modified (or truncated) the
 given q, did not accept M as a list, and could not be represented

---
 pygsp/graphs/stochasticblockmodel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/stochasticblockmodel.py b/pygsp/graphs/stochasticblockmodel.py
index 797f045..91883df 100644
--- a/pygsp/graphs/stochasticblockmodel.py
+++ b/pygsp/graphs/stochasticblockmodel.py
@@ -110,9 +110,10 @@ class StochasticBlockModel(Graph):
                     "nor a matrix of size k x k."
                 )
 
-            M = q
+            M = np.array(q, dtype=float)
             M.flat[:: k + 1] = p  # edit the diagonal terms
 
+        M = np.asanyarray(M)
         self.M = M
 
         if (M < 0).any() or (M > 1).any():
@@ -166,9 +167,9 @@ class StochasticBlockModel(Graph):
 
     def _get_extra_repr(self):
         attrs = {"k": self.k}
-        if type(self.p) is float:
+        if type(getattr(self, "p", None)) is float:
             attrs["p"] = f"{self.p:.2f}"
-        if type(self.q) is float:
+        if type(getattr(self, "q", None)) is float:
             attrs["q"] = f"{self.q:.2f}"
         attrs.update(
             {
-- 
2.43.0


From c95da36f50840a197f670e281e5d9991cd53740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 049/112] fix: Community made no intra-community edges when
 given a number of neighbors

---
 pygsp/graphs/community.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pygsp/graphs/community.py b/pygsp/graphs/community.py
index 5a7d8d0..6a2edb7 100644
--- a/pygsp/graphs/community.py
+++ b/pygsp/graphs/community.py
@@ -203,16 +203,14 @@ class Community(Graph):
             elif k_neigh is not None:
                 comm_coords = coords[first_node : first_node + com_siz]
                 kdtree = spatial.KDTree(comm_coords)
-                __, indices = kdtree.query(comm_coords, k=k_neigh + 1)
+                __, indices = kdtree.query(comm_coords, k=range(1, k_neigh + 2))
 
                 pairs_set = set()
-                map(
-                    lambda row: map(
-                        lambda elm: pairs_set.add((min(row[0], elm), max(row[0], elm))),
-                        row[1:],
-                    ),
-                    indices,
-                )
+                for row, neighbors in enumerate(indices):
+                    for elm in neighbors:
+                        # Missing neighbors are indicated with com_siz.
+                        if elm not in [row, com_siz]:
+                            pairs_set.add((min(row, elm), max(row, elm)))
 
                 w_data[0] += [1] * len(pairs_set)
                 w_data[1][0] += [first_node + pair[0] for pair in pairs_set]
-- 
2.43.0


From 481087730fab50c43fd1734e585b4808ceb38acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 050/112] fix: Community crashed with empty communities

---
 pygsp/graphs/community.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/community.py b/pygsp/graphs/community.py
index 6a2edb7..5403caf 100644
--- a/pygsp/graphs/community.py
+++ b/pygsp/graphs/community.py
@@ -1,4 +1,3 @@
-import collections
 import copy
 
 import numpy as np
@@ -134,8 +133,8 @@ class Community(Graph):
                 [[val] * cnt for (val, cnt) in enumerate(comm_sizes)]
             )
 
-        counts = collections.Counter(info["node_com"])
-        info["comm_sizes"] = np.array([cnt[1] for cnt in sorted(counts.items())])
+        info["node_com"] = info["node_com"].astype(int)
+        info["comm_sizes"] = np.bincount(info["node_com"], minlength=Nc)
         info["world_rad"] = size_ratio * np.sqrt(N)
 
         # Intra-community edges construction #
-- 
2.43.0


From 6db725d602a561408f9c4796a37f66aaf837ff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 051/112] fix: distributed Sensor crashed for some numbers of
 vertices

---
 pygsp/graphs/nngraphs/sensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/sensor.py b/pygsp/graphs/nngraphs/sensor.py
index c32f3fb..17ea97e 100644
--- a/pygsp/graphs/nngraphs/sensor.py
+++ b/pygsp/graphs/nngraphs/sensor.py
@@ -64,7 +64,8 @@ class Sensor(NNGraph):
                     "distributed on a grid."
                 )
 
-            coords = np.mgrid[0 : 1 : 1 / m, 0 : 1 : 1 / m].reshape(2, -1).T
+            # A range with a floating point step is of unpredictable length.
+            coords = np.mgrid[0:m, 0:m].reshape(2, -1).T / m
             coords += rng.uniform(0, 1 / m, (N, 2))
 
         else:
-- 
2.43.0


From 73633ef899a9e06444c863d93040507bf1e10e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 052/112] fix: Cube had fewer vertices than asked, and crashed
 in one dimension

---
 pygsp/graphs/nngraphs/cube.py | 40 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/pygsp/graphs/nngraphs/cube.py b/pygsp/graphs/nngraphs/cube.py
index 6b46a6d..ed9eb94 100644
--- a/pygsp/graphs/nngraphs/cube.py
+++ b/pygsp/graphs/nngraphs/cube.py
@@ -42,33 +42,31 @@ class Cube(NNGraph):
         self.seed = seed
         rs = np.random.RandomState(seed)
 
-        if self.nb_dim > 3:
-            raise NotImplementedError("Dimension > 3 not supported yet!")
+        if self.nb_dim not in [2, 3]:
+            raise NotImplementedError("Only dimensions 2 and 3 are supported yet!")
 
         if self.sampling == "random":
             if self.nb_dim == 2:
                 pts = rs.rand(self.nb_pts, self.nb_dim)
 
             elif self.nb_dim == 3:
-                n = self.nb_pts // 6
-
-                pts = np.zeros((n * 6, 3))
-                pts[:n, 1:] = rs.rand(n, 2)
-                pts[n : 2 * n, :] = np.concatenate(
-                    (np.ones((n, 1)), rs.rand(n, 2)), axis=1
-                )
-
-                pts[2 * n : 3 * n, :] = np.concatenate(
-                    (rs.rand(n, 1), np.zeros((n, 1)), rs.rand(n, 1)), axis=1
-                )
-                pts[3 * n : 4 * n, :] = np.concatenate(
-                    (rs.rand(n, 1), np.ones((n, 1)), rs.rand(n, 1)), axis=1
-                )
-
-                pts[4 * n : 5 * n, :2] = rs.rand(n, 2)
-                pts[5 * n : 6 * n, :] = np.concatenate(
-                    (rs.rand(n, 2), np.ones((n, 1))), axis=1
-                )
+                pts = np.zeros((self.nb_pts, 3))
+                sizes = [self.nb_pts // 6 + (i < self.nb_pts % 6) for i in range(6)]
+                faces = np.split(pts, np.cumsum(sizes)[:-1])  # Views.
+
+                faces[0][:, 1:] = rs.rand(sizes[0], 2)
+                faces[1][:, 0] = 1
+                faces[1][:, 1:] = rs.rand(sizes[1], 2)
+
+                faces[2][:, 0] = rs.rand(sizes[2])
+                faces[2][:, 2] = rs.rand(sizes[2])
+                faces[3][:, 0] = rs.rand(sizes[3])
+                faces[3][:, 1] = 1
+                faces[3][:, 2] = rs.rand(sizes[3])
+
+                faces[4][:, :2] = rs.rand(sizes[4], 2)
+                faces[5][:, :2] = rs.rand(sizes[5], 2)
+                faces[5][:, 2] = 1
 
         else:
             raise ValueError("Unknown sampling !")
-- 
2.43.0


From 0ca19541d9c329ed2f63bd3af3924dd6d08fcb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 053/112] fix: Cube and Sphere ignored their radius

---
 pygsp/graphs/nngraphs/cube.py   | 2 ++
 pygsp/graphs/nngraphs/sphere.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/cube.py b/pygsp/graphs/nngraphs/cube.py
index ed9eb94..bb98399 100644
--- a/pygsp/graphs/nngraphs/cube.py
+++ b/pygsp/graphs/nngraphs/cube.py
@@ -78,6 +78,8 @@ class Cube(NNGraph):
             "distance": 9,
         }
 
+        pts *= radius
+
         super().__init__(
             Xin=pts, k=10, center=False, rescale=False, plotting=plotting, **kwargs
         )
diff --git a/pygsp/graphs/nngraphs/sphere.py b/pygsp/graphs/nngraphs/sphere.py
index e490031..cb9f8d3 100644
--- a/pygsp/graphs/nngraphs/sphere.py
+++ b/pygsp/graphs/nngraphs/sphere.py
@@ -46,7 +46,7 @@ class Sphere(NNGraph):
             pts = rs.normal(0, 1, (self.nb_pts, self.nb_dim))
 
             for i in range(self.nb_pts):
-                pts[i] /= np.linalg.norm(pts[i])
+                pts[i] *= radius / np.linalg.norm(pts[i])
 
         else:
             raise ValueError(f"Unknown sampling {sampling}")
-- 
2.43.0


From 3301a5825564f3b6a319453475013d7b715bb532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 054/112] fix: SwissRoll crashed instead of rejecting unknown
 types and dimensions

---
 pygsp/graphs/swissroll.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygsp/graphs/swissroll.py b/pygsp/graphs/swissroll.py
index 736b5dc..d70eb02 100644
--- a/pygsp/graphs/swissroll.py
+++ b/pygsp/graphs/swissroll.py
@@ -75,12 +75,16 @@ class SwissRoll(Graph):
             tt = np.sqrt((b * b - a * a) * y1 + a * a)
         elif srtype == "classic":
             tt = (b - a) * y1 + a
+        else:
+            raise ValueError(f"Unknown srtype {srtype}.")
         tt *= np.pi
 
         if dim == 2:
             x = np.array((tt * np.cos(tt), tt * np.sin(tt)))
         elif dim == 3:
             x = np.array((tt * np.cos(tt), 21 * y2, tt * np.sin(tt)))
+        else:
+            raise ValueError("The dimension should be 2 or 3.")
 
         if noise:
             x += rng.normal(size=x.shape)
-- 
2.43.0


From 920e48cfd7c15f8dfebe4abfd7084c6ab6a7c164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 055/112] fix: NNGraph modified the given points when rescaling
 without centering

---
 pygsp/graphs/nngraphs/nngraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index d81b668..b099c05 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -134,7 +134,7 @@ class NNGraph(Graph):
                 np.amax(Xout, axis=0) - np.amin(Xout, axis=0), 2
             )
             scale = np.power(N, 1.0 / float(min(d, 3))) / 10.0
-            Xout *= scale / bounding_radius
+            Xout = Xout * (scale / bounding_radius)
 
         # Translate distance type string to corresponding Minkowski order.
         dist_translation = {
-- 
2.43.0


From 5921a3ae3e2aa4e5e246ae80886878a44541584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 056/112] fix: NNGraph rejected few points for a number of
 neighbors it does not use with radius

---
 pygsp/graphs/nngraphs/nngraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index b099c05..600d47b 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -120,7 +120,7 @@ class NNGraph(Graph):
         N, d = np.shape(self.Xin)
         Xout = self.Xin
 
-        if k >= N:
+        if NNtype == "knn" and k >= N:
             raise ValueError(
                 "The number of neighbors (k={}) must be smaller "
                 "than the number of nodes ({}).".format(k, N)
-- 
2.43.0


From e1f750fd10c861b5657972ae8d3681f45b83ee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 057/112] fix: NNGraph linked duplicated points to themselves

---
 pygsp/graphs/nngraphs/nngraph.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index 600d47b..80fb815 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -215,14 +215,19 @@ class NNGraph(Graph):
                 D, NN = kdt.query(Xout, k=(k + 1), p=dist_translation[dist_type])
                 _logger.debug("Using scipy KDTree for k-NN search")
 
+            # Discard self, which is not the first neighbor if duplicated.
+            keep = NN != np.arange(N)[:, np.newaxis]
+            keep[keep.all(axis=1), -1] = False
+            NN, D = NN[keep].reshape(N, k), D[keep].reshape(N, k)
+
             if self.sigma is None:
-                self.sigma = np.mean(D[:, 1:])  # Discard distance to self.
+                self.sigma = np.mean(D)
 
             for i in range(N):
                 spi[i * k : (i + 1) * k] = np.kron(np.ones(k), i)
-                spj[i * k : (i + 1) * k] = NN[i, 1:]
+                spj[i * k : (i + 1) * k] = NN[i]
                 spv[i * k : (i + 1) * k] = np.exp(
-                    -np.power(D[i, 1:], 2) / float(self.sigma)
+                    -np.power(D[i], 2) / float(self.sigma)
                 )
 
         elif self.NNtype == "radius":
-- 
2.43.0


From 33bb5d3797e21671ad5d001853d685c31aba84c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 058/112] fix: NNGraph weighted edges with powers of the
 distances, or garbage, when using FLANN

---
 pygsp/graphs/nngraphs/nngraph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index 80fb815..c1e1147 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -149,7 +149,8 @@ class NNGraph(Graph):
             spj = np.zeros(N * k)
             spv = np.zeros(N * k)
 
-            if self.use_flann:
+            # FLANN's C bindings return garbage for the maximum distance.
+            if self.use_flann and dist_type != "max_dist":
                 # Try pyflann first
                 try:
                     pfl = _import_pfl()
@@ -162,6 +163,11 @@ class NNGraph(Graph):
                     NN, D = flann.nn(
                         Xout, Xout, num_neighbors=(k + 1), algorithm="kdtree"
                     )
+                    # FLANN returns the powers of the distances.
+                    if dist_type == "euclidean":
+                        D = np.sqrt(D)
+                    elif dist_type == "minkowski" and order > 0:
+                        D = np.power(D, 1.0 / order)
                     _logger.debug("Using pyflann for k-NN search")
 
                 except ImportError:
-- 
2.43.0


From f3dba5a1e32fee0896f6432e8646a75e9f12646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 059/112] fix: compute_fourier_basis could fail for
 disconnected graphs

Rounding errors made null eigenvalues but the first negative, hence the
eigenvalues unsorted, which made the sanity check of partial bases fail.
---
 pygsp/graphs/fourier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/graphs/fourier.py b/pygsp/graphs/fourier.py
index 3151c74..9887f35 100644
--- a/pygsp/graphs/fourier.py
+++ b/pygsp/graphs/fourier.py
@@ -186,6 +186,7 @@ class FourierMixIn:
         tol = 1e-5 * max(1, bound)  # Errors are relative to the spectrum.
         assert -tol < self._e[0] < tol
         self._e[0] = 0
+        self._e[self._e < 0] = 0
 
         # we set the first eigenvector to have positive values:
         if np.abs(self._U[0, 0]).sum() < 0:
-- 
2.43.0


From 1dbdc6564e62fc206fd955654522ace71b4bef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 060/112] fix: NNGraph crashed with FLANN and a Minkowski order
 given as a float

---
 pygsp/graphs/nngraphs/nngraph.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index c1e1147..d1999f8 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -149,12 +149,17 @@ class NNGraph(Graph):
             spj = np.zeros(N * k)
             spv = np.zeros(N * k)
 
-            # FLANN's C bindings return garbage for the maximum distance.
-            if self.use_flann and dist_type != "max_dist":
+            # FLANN's C bindings return garbage for the maximum distance, and
+            # only support integer Minkowski orders.
+            if (
+                self.use_flann
+                and dist_type != "max_dist"
+                and not (dist_type == "minkowski" and order % 1)
+            ):
                 # Try pyflann first
                 try:
                     pfl = _import_pfl()
-                    pfl.set_distance_type(dist_type, order=order)
+                    pfl.set_distance_type(dist_type, order=int(order))
                     flann = pfl.FLANN()
 
                     # Default FLANN parameters (I tried changing the algorithm and
-- 
2.43.0


From d7d68541447a8e28da554f807b447fc5b64f2625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 061/112] fix: NNGraph crashed with FLANN and integer points

---
 pygsp/graphs/nngraphs/nngraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index d1999f8..5a1fd02 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -165,8 +165,9 @@ class NNGraph(Graph):
                     # Default FLANN parameters (I tried changing the algorithm and
                     # testing performance on huge matrices, but the default one
                     # seems to work best).
+                    pts = np.asarray(Xout, dtype=float)
                     NN, D = flann.nn(
-                        Xout, Xout, num_neighbors=(k + 1), algorithm="kdtree"
+                        pts, pts, num_neighbors=(k + 1), algorithm="kdtree"
                     )
                     # FLANN returns the powers of the distances.
                     if dist_type == "euclidean":
-- 
2.43.0


From ee46545e6bc5cf71f45b68203bae8f411567d8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 062/112] fix: graph_sparsify always crashed

scipy.stats.itemfreq has been removed in SciPy 1.3.
---
 pygsp/reduction.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index d2ce01e..f5d176e 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -112,11 +112,9 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
         q = round(N * np.log(N) * 9 * C**2 / (epsilon**2))
 
         results = dist.rvs(size=int(q))
-        spin_counts = stats.itemfreq(results).astype(int)
         per_spin_weights = weights / (q * Pe)
 
-        counts = np.zeros(np.shape(weights)[0])
-        counts[spin_counts[:, 0]] = spin_counts[:, 1]
+        counts = np.bincount(results, minlength=len(weights))
         new_weights = counts * per_spin_weights
 
         sparserW = sparse.csc_matrix(
-- 
2.43.0


From 23fb17a625d9074dbba48ceb935122efcd6327fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 063/112] fix: graph_sparsify did not return a Laplacian when
 given one

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index f5d176e..9c309bf 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -121,7 +121,7 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
             (new_weights, (start_nodes, end_nodes)), shape=(N, N)
         )
         sparserW = sparserW + sparserW.T
-        sparserL = sparse.diags(sparserW.diagonal(), 0) - sparserW
+        sparserL = sparse.diags(np.ravel(sparserW.sum(axis=0)), 0) - sparserW
 
         if graphs.Graph(sparserW).is_connected():
             break
-- 
2.43.0


From 76e121c78282c780171a04bf177f54cc343327b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 064/112] fix: graph_sparsify gave NaN weights to graphs with
 self-loops

Their resistance distance is null.
---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 9c309bf..5f60268 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -94,7 +94,7 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
     W = W.tocsc()
     W.eliminate_zeros()
 
-    start_nodes, end_nodes, weights = sparse.find(sparse.tril(W))
+    start_nodes, end_nodes, weights = sparse.find(sparse.tril(W, -1))
 
     # Calculate the new weights.
     weights = np.maximum(0, weights)
-- 
2.43.0


From 22c3314d5efb0249a5d229d4d7a3870c3ec33380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 065/112] fix: kron_reduction crashed for graphs without
 coordinates

Or with coordinates in one dimension. The multiresolution hence crashed
after a sparsification, as sparsified graphs don't have coordinates.
---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 5f60268..98699fe 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -369,7 +369,7 @@ def kron_reduction(G, ind):
         # Removing diagonal for stability
         Wnew = Wnew - Wnew.diagonal()
 
-        coords = G.coords[ind, :] if len(G.coords.shape) else np.ndarray(None)
+        coords = G.coords[ind] if hasattr(G, "coords") else None
         Gnew = graphs.Graph(
             Wnew, coords=coords, lap_type=G.lap_type, plotting=G.plotting
         )
-- 
2.43.0


From a2761173e20e93882272838b0d5c299790e825d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 066/112] fix: kron_reduction crashed when keeping a single
 vertex

---
 pygsp/reduction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 98699fe..2242ee9 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -353,7 +353,9 @@ def kron_reduction(G, ind):
     L_out_in = L[np.ix_(ind_comp, ind)].tocsc()
     L_comp = L[np.ix_(ind_comp, ind_comp)].tocsc()
 
-    Lnew = L_red - L_in_out.dot(linalg.spsolve(L_comp, L_out_in))
+    # The solution is dense if there is a single right-hand side.
+    solution = sparse.csc_matrix(linalg.spsolve(L_comp, L_out_in))
+    Lnew = L_red - L_in_out.dot(solution.reshape(L_out_in.shape))
 
     # Make the laplacian symmetric if it is almost symmetric!
     if np.abs(Lnew - Lnew.T).sum() < np.spacing(1) * np.abs(Lnew).sum():
-- 
2.43.0


From 0048d79246ce591c307eeeb6a436a8de03a0d8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 067/112] fix: resistance_distance returned garbage for most
 graphs

It relied on the inversion of the singular Laplacian to fail, while rounding
errors often let it succeed.
---
 pygsp/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 7b7b04c..268be97 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -164,10 +164,8 @@ def resistance_distance(G):
             raise ValueError("Need a combinatorial Laplacian.")
         L = G.L.tocsc()
 
-    try:
-        pseudo = sparse.linalg.inv(L)
-    except RuntimeError:
-        pseudo = sparse.lil_matrix(np.linalg.pinv(L.toarray()))
+    # Laplacians are singular, which rounding errors might hide.
+    pseudo = sparse.lil_matrix(np.linalg.pinv(L.toarray(), hermitian=True))
 
     N = np.shape(L)[0]
     d = sparse.csc_matrix(pseudo.diagonal())
-- 
2.43.0


From 6123b849b3e51af6211449944e616b321045113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 068/112] fix: graph_multiresolution crashed when sparsifying
 graphs of few vertices

There is no valid sparsification parameter below 5 vertices.
---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 2242ee9..104c946 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -284,7 +284,7 @@ def graph_multiresolution(
         else:
             raise NotImplementedError("Unknown graph reduction method.")
 
-        if sparsify and Gs[i + 1].N > 2:
+        if sparsify and Gs[i + 1].N > 4:
             Gs[i + 1] = graph_sparsify(
                 Gs[i + 1], min(max(sparsify_eps, 2.0 / np.sqrt(Gs[i + 1].N)), 1.0)
             )
-- 
2.43.0


From 765420d839823fbf1007ee9491e2abe7ce453097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 069/112] fix: graph_multiresolution modified the Fourier basis
 of the graph

And crashed for graphs of less than three vertices.
---
 pygsp/reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 104c946..20a6723 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -267,12 +267,12 @@ def graph_multiresolution(
 
     for i in range(levels):
         if downsampling_method == "largest_eigenvector":
-            if Gs[i]._U is not None:
+            if Gs[i]._U is not None or Gs[i].N <= 2:
                 V = Gs[i].U[:, -1]
             else:
                 V = linalg.eigs(Gs[i].L, 1)[1][:, 0]
 
-            V *= np.sign(V[0])
+            V = V * np.sign(V[0])
             ind = np.nonzero(V >= 0)[0]
 
         else:
-- 
2.43.0


From 5d874d552367c676a8929b7add4f992deb39660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 070/112] fix: graph_multiresolution downsampled with the wrong
 mode of a partial basis

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 20a6723..ed659a6 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -267,7 +267,7 @@ def graph_multiresolution(
 
     for i in range(levels):
         if downsampling_method == "largest_eigenvector":
-            if Gs[i]._U is not None or Gs[i].N <= 2:
+            if (Gs[i]._U is not None and len(Gs[i]._e) == Gs[i].N) or Gs[i].N <= 2:
                 V = Gs[i].U[:, -1]
             else:
                 V = linalg.eigs(Gs[i].L, 1)[1][:, 0]
-- 
2.43.0


From a7efea44203cc2420be25b1e7d6a47b1dbb4b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 071/112] fix: kron_reduction spread rounding errors over the
 adjacency matrix

The diagonal was subtracted from all the rows.
---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index ed659a6..a0c5e1d 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -369,7 +369,7 @@ def kron_reduction(G, ind):
             Wnew = Wnew + sparse.diags(Snew, 0)
 
         # Removing diagonal for stability
-        Wnew = Wnew - Wnew.diagonal()
+        Wnew = Wnew - sparse.diags(Wnew.diagonal(), 0)
 
         coords = G.coords[ind] if hasattr(G, "coords") else None
         Gnew = graphs.Graph(
-- 
2.43.0


From c1e68fe8d4a74d5dd65d6e3191011e8dea7d75f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 072/112] fix: kron_reduction made undirected graphs directed

The tolerance on the asymmetry was smaller than the rounding errors.
---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index a0c5e1d..7681719 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -358,7 +358,7 @@ def kron_reduction(G, ind):
     Lnew = L_red - L_in_out.dot(solution.reshape(L_out_in.shape))
 
     # Make the laplacian symmetric if it is almost symmetric!
-    if np.abs(Lnew - Lnew.T).sum() < np.spacing(1) * np.abs(Lnew).sum():
+    if np.abs(Lnew - Lnew.T).sum() < 1e-10 * np.abs(Lnew).sum():
         Lnew = (Lnew + Lnew.T) / 2.0
 
     if isinstance(G, graphs.Graph):
-- 
2.43.0


From d5bbc27f127c750c9c3761f05f8516ee0e9c6d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 073/112] fix: pyramids were wrong for one-dimensional and
 multiple signals

The prediction errors of one-dimensional signals were matrices, and only
the first of multiple signals was analyzed.
---
 pygsp/reduction.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 7681719..73dcb5b 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -24,11 +24,8 @@ logger = utils.build_logger(__name__)
 
 
 def _analysis(g, s, **kwargs):
-    # TODO: that is the legacy analysis method.
-    s = g.filter(s, **kwargs)
-    while s.ndim < 3:
-        s = np.expand_dims(s, 1)
-    return s.swapaxes(1, 2).reshape(-1, s.shape[1], order="F")
+    # Filter with a single filter, preserving the shape of the signal.
+    return g.filter(s, **kwargs).reshape(np.shape(s))
 
 
 def graph_sparsify(M, epsilon, maxiter=10, seed=None):
-- 
2.43.0


From 90ff572a66ad13e9b3493047f910b9c0f2574eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 074/112] fix: interpolate crashed for graphs not issued from a
 multiresolution

Pre-computed values were never used: G.mr is a dictionary.
---
 pygsp/reduction.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 73dcb5b..6ffc4cf 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -170,10 +170,8 @@ def interpolate(G, f_subsampled, keep_inds, order=100, reg_eps=0.005, **kwargs):
 
     """
     L_reg = G.L + reg_eps * sparse.eye(G.N)
-    K_reg = getattr(G.mr, "K_reg", kron_reduction(L_reg, keep_inds))
-    green_kernel = getattr(
-        G.mr, "green_kernel", filters.Filter(G, lambda x: 1.0 / (reg_eps + x))
-    )
+    K_reg = kron_reduction(L_reg, keep_inds)
+    green_kernel = filters.Filter(G, lambda x: 1.0 / (reg_eps + x))
 
     alpha = K_reg.dot(f_subsampled)
 
-- 
2.43.0


From 970d0b0c7e2192490ae38a382598feeea66a0864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 075/112] fix: pyramid_synthesis did not by default invert
 pyramid_analysis

The default orders of the interpolations were different.
---
 pygsp/reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 6ffc4cf..86d84b2 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -444,7 +444,7 @@ def pyramid_analysis(Gs, f, **kwargs):
     return ca, pe
 
 
-def pyramid_synthesis(Gs, cap, pe, order=30, **kwargs):
+def pyramid_synthesis(Gs, cap, pe, order=100, **kwargs):
     r"""Synthesize a signal from its pyramid coefficients.
 
     Parameters
@@ -458,7 +458,7 @@ def pyramid_synthesis(Gs, cap, pe, order=30, **kwargs):
     use_exact : bool
         To use exact graph spectral filtering instead of the Chebyshev approximation.
     order : int
-        Degree of the Chebyshev approximation (default=30).
+        Degree of the Chebyshev approximation (default=100, as interpolate).
     least_squares : bool
         To use the least squares synthesis (default=False).
     h_filters : ndarray
-- 
2.43.0


From 53346a0f9e51acb127f628ec88b32dc789ca7fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 076/112] fix: options of the pyramid transform crashed or were
 not validated

reg_eps and use_exact could not be given, and errors were not raised.
---
 pygsp/reduction.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 86d84b2..dd681c4 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -389,6 +389,8 @@ def pyramid_analysis(Gs, f, **kwargs):
         A list of filter that will be used for the analysis and sythesis operator.
         If only one filter is given, it will be used for all levels.
         Default is h(x) = 1 / (2x+1)
+    reg_eps : float
+        Interpolation parameter.
 
     Returns
     -------
@@ -413,6 +415,7 @@ def pyramid_analysis(Gs, f, **kwargs):
 
     # check if the type of filters is right.
     h_filters = kwargs.pop("h_filters", lambda x: 1.0 / (2 * x + 1))
+    reg_eps = float(kwargs.pop("reg_eps", 0.005))
 
     if not isinstance(h_filters, list):
         if hasattr(h_filters, "__call__"):
@@ -437,7 +440,9 @@ def pyramid_analysis(Gs, f, **kwargs):
         # Keep only the coefficient on the selected nodes
         ca.append(s_low[Gs[i + 1].mr["idx"]])
         # Compute prediction
-        s_pred = interpolate(Gs[i], ca[i + 1], Gs[i + 1].mr["idx"], **kwargs)
+        s_pred = interpolate(
+            Gs[i], ca[i + 1], Gs[i + 1].mr["idx"], reg_eps=reg_eps, **kwargs
+        )
         # Compute errors
         pe.append(ca[i] - s_pred)
 
@@ -484,14 +489,16 @@ def pyramid_synthesis(Gs, cap, pe, order=100, **kwargs):
     least_squares = bool(kwargs.pop("least_squares", False))
     def_ul = Gs[0].N > 3000 or Gs[0]._e is None or Gs[0]._U is None
     use_landweber = bool(kwargs.pop("use_landweber", def_ul))
-    reg_eps = float(kwargs.get("reg_eps", 0.005))
+    reg_eps = float(kwargs.pop("reg_eps", 0.005))
+    if kwargs.pop("use_exact", False):
+        kwargs["method"] = "exact"
 
     if least_squares and "h_filters" not in kwargs:
-        ValueError("h-filters not provided.")
+        raise ValueError("h-filters not provided.")
 
     levels = len(Gs) - 1
     if len(pe) != levels:
-        ValueError("Gs and pe have different shapes.")
+        raise ValueError("Gs and pe have different shapes.")
 
     ca = [cap]
 
-- 
2.43.0


From fcb704ae3403057c4e68fa04a585c0bb45578666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 077/112] fix: Chebyshev filtering crashed on graphs without
 edges

---
 pygsp/filters/approximations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index 9cebd37..73def5a 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -92,7 +92,8 @@ def cheby_op(G, c, signal, **kwargs):
 
     a_arange = [0, G.lmax]
 
-    a1 = float(a_arange[1] - a_arange[0]) / 2.0
+    # The width is arbitrary if the spectrum is null, i.e., without edges.
+    a1 = float(a_arange[1] - a_arange[0]) / 2.0 or 1.0
     a2 = float(a_arange[1] + a_arange[0]) / 2.0
 
     twf_old = signal
-- 
2.43.0


From 83bd2ff7f5dc343caecfa6626f6cee238787f796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 078/112] fix: regression_tikhonov crashed for a single signal
 or class in two dimensions

spsolve returns a vector if there is a single right-hand side.
---
 pygsp/learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/learning.py b/pygsp/learning.py
index f45407c..0284067 100644
--- a/pygsp/learning.py
+++ b/pygsp/learning.py
@@ -362,6 +362,6 @@ def regression_tikhonov(G, y, M, tau=0):
             sol_part = np.linalg.solve(Luu, np.matmul(Wul, y[indl]))
 
         sol = y.copy()
-        sol[indu] = sol_part
+        sol[indu] = np.reshape(sol_part, sol[indu].shape)
 
         return sol
-- 
2.43.0


From 58b4772916afcab1632c46a9348c3a543699321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 079/112] fix: regression_tikhonov truncated the recovery of
 integer measurements

---
 pygsp/learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/learning.py b/pygsp/learning.py
index 0284067..867ebbf 100644
--- a/pygsp/learning.py
+++ b/pygsp/learning.py
@@ -361,7 +361,7 @@ def regression_tikhonov(G, y, M, tau=0):
         else:
             sol_part = np.linalg.solve(Luu, np.matmul(Wul, y[indl]))
 
-        sol = y.copy()
+        sol = y.astype(np.result_type(y, float))  # A copy.
         sol[indu] = np.reshape(sol_part, sol[indu].shape)
 
         return sol
-- 
2.43.0


From a48bd782ea2237efb561c3aad97ff8439bcf34c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 080/112] fix: symmetrizing by filling lost half of the
 negative weights

They were considered as zeros.
---
 pygsp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 268be97..0d83f61 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -254,7 +254,7 @@ def symmetrize(W, method="average"):
             return np.maximum(W, W.T)
 
     elif method == "fill":
-        A = W > 0  # Boolean type.
+        A = W != 0  # Boolean type.
         if sparse.issparse(W):
             mask = (A + A.T) - A
             W = W + mask.multiply(W.T)
-- 
2.43.0


From 1276377835f4c92938c52b045a010bd9d1fa8097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 081/112] fix: symmetrizing a triangular part lost the negative
 weights

---
 pygsp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 0d83f61..4454f0b 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -269,8 +269,8 @@ def symmetrize(W, method="average"):
             tri = getattr(sparse, method)
         else:
             tri = getattr(np, method)
-        W = tri(W)
-        return symmetrize(W, method="maximum")
+        diagonal = -1 if method == "tril" else 1
+        return tri(W) + tri(W, diagonal).T
 
     else:
         raise ValueError(f"Unknown symmetrization method {method}.")
-- 
2.43.0


From 907eccde929a48b1021fc6c044d435fc37ee76b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 082/112] fix: symmetrizing integer LIL and DOK matrices
 truncated the average

---
 pygsp/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 4454f0b..75b5d87 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -243,8 +243,9 @@ def symmetrize(W, method="average"):
         raise ValueError("Matrix must be square.")
 
     if method == "average":
-        # Divide first: the sum of booleans or small integers would overflow.
-        return W / 2 + W.T / 2
+        # Halve first: the sum of booleans or small integers would overflow.
+        # And do not divide: LIL and DOK matrices would stay integers.
+        return W * 0.5 + W.T * 0.5
 
     elif method == "maximum":
         if sparse.issparse(W):
-- 
2.43.0


From d6290143cbd449873b3fbe540cbb22c00cfadf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 083/112] fix: spring layout crashed when the center is given
 as a vector

---
 pygsp/graphs/_layout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 1ed882c..45a316b 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -141,7 +141,8 @@ class LayoutMixIn:
         if center is None:
             center = np.zeros((1, dim))
 
-        if np.shape(center)[1] != dim:
+        center = np.atleast_2d(center)
+        if center.shape[1] != dim:
             self.logger.error("Spring coordinates: center has wrong size.")
             center = np.zeros((1, dim))
 
-- 
2.43.0


From bf15f2749553fdd6d2e625dfc9f0ef9c1c3113d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 084/112] fix: spring layout attracted or lost vertices
 initially at negative or null positions

---
 pygsp/graphs/_layout.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 45a316b..82900ef 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -150,13 +150,11 @@ class LayoutMixIn:
             dom_size = 1
             pos_arr = None
         else:
-            # Determine size of existing domain to adjust initial positions
-            dom_size = np.max(pos)
-            rng = np.random.default_rng(seed)
-            pos_arr = rng.uniform(size=(self.N, dim))
-            pos_arr = pos_arr * dom_size + center
+            pos_arr = np.empty((self.N, dim))
             for i in range(self.N):
                 pos_arr[i] = np.asanyarray(pos[i])
+            # Determine size of existing domain to adjust the distances
+            dom_size = np.max(np.abs(pos_arr)) or 1
 
         if k is None and len(fixed) > 0:
             # We must adjust k by domain size for layouts that are not near 1x1
-- 
2.43.0


From 18de49a376dfb2a3c332cf14ba4996764975d166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 085/112] fix: community2D layout crashed if the communities
 are not numbered contiguously

---
 pygsp/graphs/_layout.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pygsp/graphs/_layout.py b/pygsp/graphs/_layout.py
index 82900ef..9c0d48f 100644
--- a/pygsp/graphs/_layout.py
+++ b/pygsp/graphs/_layout.py
@@ -1,5 +1,3 @@
-from collections import Counter
-
 import numpy as np
 from scipy import sparse
 
@@ -77,10 +75,7 @@ class LayoutMixIn:
                 self.info["world_rad"] = np.sqrt(self.N)
 
             if "comm_sizes" not in self.info:
-                counts = Counter(self.info["node_com"])
-                self.info["comm_sizes"] = np.array(
-                    [cnt[1] for cnt in sorted(counts.items())]
-                )
+                self.info["comm_sizes"] = np.bincount(self.info["node_com"])
 
             Nc = self.info["comm_sizes"].shape[0]
 
-- 
2.43.0


From 6e2c454281d4531f4b006c759e930ff89deaf539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 086/112] fix: building a graph shared, and removed the null
 weights from, the given sparse matrix

---
 pygsp/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 0c9607e..05e1ae1 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -106,7 +106,7 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
 
         # CSR sparse matrices are the most efficient for matrix multiplication.
         # They are the sole sparse matrix type to support eliminate_zeros().
-        self._adjacency = sparse.csr_matrix(adjacency, copy=False)
+        self._adjacency = sparse.csr_matrix(adjacency, copy=True)
 
         if np.isnan(self._adjacency.sum()):
             raise ValueError("Adjacency: there is a Not a Number (NaN).")
-- 
2.43.0


From 1f8173429c975e369d256133edd43bfc419e3337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 087/112] fix: pyramid coefficients shared memory with the
 given signals

---
 pygsp/reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index dd681c4..8c69c22 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -431,7 +431,7 @@ def pyramid_analysis(Gs, f, **kwargs):
         message = f"The number of filters must be one or equal to {levels}."
         raise ValueError(message)
 
-    ca = [f]
+    ca = [np.array(f)]
     pe = []
 
     for i in range(levels):
@@ -500,7 +500,7 @@ def pyramid_synthesis(Gs, cap, pe, order=100, **kwargs):
     if len(pe) != levels:
         raise ValueError("Gs and pe have different shapes.")
 
-    ca = [cap]
+    ca = [np.array(cap)]
 
     # Reconstruct each level
     for i in range(levels):
-- 
2.43.0


From 97be1b303c4eff7edf0a6d587a5806006e90124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:50 +0000
Subject: [PATCH 088/112] fix: get_edge_list of directed graphs shared memory
 with the adjacency matrix

---
 pygsp/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/graphs/graph.py b/pygsp/graphs/graph.py
index 05e1ae1..6037109 100644
--- a/pygsp/graphs/graph.py
+++ b/pygsp/graphs/graph.py
@@ -1023,7 +1023,7 @@ class Graph(FourierMixIn, DifferenceMixIn, IOMixIn, LayoutMixIn):
         """
 
         if self.is_directed():
-            W = self.W.tocoo()
+            W = self.W.tocoo(copy=True)
         else:
             W = sparse.triu(self.W, format="coo")
 
-- 
2.43.0


From 1ce251213c8ae70c5686e1f524365291102ce96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 089/112] fix: graph_sparsify removed the tiny weights of the
 given graph

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 8c69c22..8dc5d13 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -86,7 +86,7 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
         W = np.diag(L.diagonal()) - L.toarray()
         W[W < 1e-10] = 0
 
-    W = sparse.coo_matrix(W)
+    W = sparse.coo_matrix(W, copy=True)
     W.data[W.data < 1e-10] = 0
     W = W.tocsc()
     W.eliminate_zeros()
-- 
2.43.0


From 97a694f70fd762228efde8c2bf7f93c0221af6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 090/112] fix: plot_spectrogram always crashed

---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 31c84a8..5d19cd7 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -740,7 +740,7 @@ def _plot_spectrogram(G, node_idx):
     """
     from pygsp import features
 
-    qtg, _, _ = _import_qtg()
+    qtg, _, _, _ = _import_qtg()
 
     if not hasattr(G, "spectr"):
         features.compute_spectrogram(G)
-- 
2.43.0


From faf3180c2ade6d364a15b8364d3d79622fda8471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 091/112] fix: colors of signals were wrong with pyqtgraph

---
 pygsp/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 5d19cd7..a6dd8b4 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -695,7 +695,8 @@ def _qtg_plot_signal(G, signal, edges, vertex_size, limits, title):
     )
     cmap = qtg.ColorMap(pos, color)
 
-    signal = 1 + 63 * (signal - limits[0]) / limits[1] - limits[0]
+    ptp = (limits[1] - limits[0]) or 1  # Constant signals.
+    signal = 1 + 63 * (signal - limits[0]) / ptp
 
     if G.coords.shape[1] == 2:
         gp = qtg.ScatterPlotItem(
-- 
2.43.0


From 05b564a83fcd5bccf9ec51b5b5df305bc2f6d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 092/112] fix: plots did not show positive signals of small
 variation in full

---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index a6dd8b4..e6cac62 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -520,7 +520,7 @@ def _plot_graph(
         edge_width = G.plotting["edge_width"] * 2 * normalize(edge_width)
 
     if limits is None:
-        limits = [1.05 * vertex_color.min(), 1.05 * vertex_color.max()]
+        limits = [float(vertex_color.min()), float(vertex_color.max())]
 
     if title is None:
         title = G.__repr__(limit=4)
-- 
2.43.0


From ea0e5cf9f0c81b1060476debca801433d48800cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 093/112] fix: plot crashed if the vertices to highlight are in
 a tuple or a set

---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index e6cac62..e8d7aa9 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -595,7 +595,7 @@ def _plt_plot_graph(
         )
 
     try:
-        iter(highlight)
+        highlight = list(highlight)
     except TypeError:
         highlight = [highlight]
     coords_hl = G.coords[highlight]
-- 
2.43.0


From ef6a168c346e78cb778e7ec8fb6fad645d76b748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 094/112] fix: plot crashed or used wrong sizes, widths, and
 colors for Booleans and small integers

---
 pygsp/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index e8d7aa9..e49fcc4 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -456,6 +456,7 @@ def _plot_graph(
         Set intercept value in G.plotting["normalize_intercept"]
         with value in [0, 1], default is .25.
         """
+        x = x.astype(float)  # Booleans and small integers would overflow.
         ptp = np.ptp(x)
         if ptp == 0:
             return np.full(x.shape, 0.5)
-- 
2.43.0


From 78e40e0b3ae7b3d1ea01560cadd0dd0fa3dfd12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 095/112] fix: signals on a single vertex or edge could not be
 plotted

---
 pygsp/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index e49fcc4..b16fc11 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -486,7 +486,7 @@ def _plot_graph(
         limits = [0, 0]
         colorbar = False
     else:
-        vertex_color = np.asanyarray(vertex_color).squeeze()
+        vertex_color = np.atleast_1d(np.asanyarray(vertex_color).squeeze())
         check_shape(
             vertex_color, "Vertex color", G.n_vertices, many=(G.coords.ndim == 1)
         )
@@ -494,7 +494,7 @@ def _plot_graph(
     if vertex_size is None:
         vertex_size = G.plotting["vertex_size"]
     elif not np.isscalar(vertex_size):
-        vertex_size = np.asanyarray(vertex_size).squeeze()
+        vertex_size = np.atleast_1d(np.asanyarray(vertex_size).squeeze())
         check_shape(vertex_size, "Vertex size", G.n_vertices)
         vertex_size = G.plotting["vertex_size"] * 4 * normalize(vertex_size) ** 2
 
@@ -504,7 +504,7 @@ def _plot_graph(
     if edge_color is None:
         edge_color = (G.plotting["edge_color"],)
     elif not is_color(edge_color):
-        edge_color = np.asanyarray(edge_color).squeeze()
+        edge_color = np.atleast_1d(np.asanyarray(edge_color).squeeze())
         check_shape(edge_color, "Edge color", G.n_edges)
         edge_color = 0.9 * normalize(edge_color)
         edge_color = [
@@ -516,7 +516,7 @@ def _plot_graph(
     if edge_width is None:
         edge_width = G.plotting["edge_width"]
     elif not np.isscalar(edge_width):
-        edge_width = np.array(edge_width).squeeze()
+        edge_width = np.atleast_1d(np.asanyarray(edge_width).squeeze())
         check_shape(edge_width, "Edge width", G.n_edges)
         edge_width = G.plotting["edge_width"] * 2 * normalize(edge_width)
 
-- 
2.43.0


From df89ab119673c0bc94ff4ab3b348d446a1f14b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 096/112] fix: resistance_distance was inaccurate for some
 graphs

---
 pygsp/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 75b5d87..4c9b469 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -164,10 +164,14 @@ def resistance_distance(G):
             raise ValueError("Need a combinatorial Laplacian.")
         L = G.L.tocsc()
 
+    N = np.shape(L)[0]
+
     # Laplacians are singular, which rounding errors might hide.
-    pseudo = sparse.lil_matrix(np.linalg.pinv(L.toarray(), hermitian=True))
+    rcond = 10 * N * np.finfo(float).eps
+    pseudo = sparse.lil_matrix(
+        np.linalg.pinv(L.toarray(), rcond=rcond, hermitian=True)
+    )
 
-    N = np.shape(L)[0]
     d = sparse.csc_matrix(pseudo.diagonal())
     rd = (
         sparse.kron(d, sparse.csc_matrix(np.ones((N, 1)))).T
-- 
2.43.0


From 1371a24456c6391c0d3db26978406a6568956f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 097/112] fix: plotting in 3D with pyqtgraph killed the
 interpreter

---
 pygsp/plotting.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index b16fc11..32c6596 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -29,6 +29,7 @@ from pygsp import utils
 _logger = utils.build_logger(__name__)
 
 BACKEND = "matplotlib"
+_qtg_app = None
 _qtg_widgets = []
 _plt_figures = []
 
@@ -174,7 +175,9 @@ def _qtg_plot_graph(G, edges, vertex_size, title):
     elif G.coords.shape[1] == 3:
         QApplication = _get_qapplication(QtGui, QtWidgets)
         if not QApplication.instance():
-            QApplication([])  # We want only one application.
+            # We want only one application, kept alive by the reference.
+            global _qtg_app
+            _qtg_app = QApplication([])
         widget = gl.GLViewWidget()
         widget.opts["distance"] = 10
 
@@ -664,7 +667,9 @@ def _qtg_plot_signal(G, signal, edges, vertex_size, limits, title):
     elif G.coords.shape[1] == 3:
         QApplication = _get_qapplication(QtGui, QtWidgets)
         if not QApplication.instance():
-            QApplication([])  # We want only one application.
+            # We want only one application, kept alive by the reference.
+            global _qtg_app
+            _qtg_app = QApplication([])
         widget = gl.GLViewWidget()
         widget.opts["distance"] = 10
 
-- 
2.43.0


From 0ea142c150a38eb93609382ce4f7a8e2cc335f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 098/112] fix: plot took the color of a graph of three or four
 vertices as a signal

---
 pygsp/plotting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 32c6596..6330db1 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -488,6 +488,9 @@ def _plot_graph(
     elif is_color(vertex_color):
         limits = [0, 0]
         colorbar = False
+        mpl, _, _ = _import_plt()
+        if mpl.colors.is_color_like(vertex_color):
+            vertex_color = (vertex_color,)  # A color, not one value per vertex.
     else:
         vertex_color = np.atleast_1d(np.asanyarray(vertex_color).squeeze())
         check_shape(
-- 
2.43.0


From 42ac4903994e4de61745e5e9c551b45ac3311abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:48 +0000
Subject: [PATCH 099/112] fix: graph_sparsify removed the edges of graphs with
 small weights

---
 pygsp/reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 8dc5d13..dd0eb70 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -84,10 +84,10 @@ def graph_sparsify(M, epsilon, maxiter=10, seed=None):
         W = M.W
     else:
         W = np.diag(L.diagonal()) - L.toarray()
-        W[W < 1e-10] = 0
 
+    # Remove negative weights and rounding errors, whatever the scale.
     W = sparse.coo_matrix(W, copy=True)
-    W.data[W.data < 1e-10] = 0
+    W.data[W.data < 1e-10 * W.data.max(initial=0)] = 0
     W = W.tocsc()
     W.eliminate_zeros()
 
-- 
2.43.0


From 73c94ebfd2e81bbe6499b4bbdc4f6dac34934d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:15 +0000
Subject: [PATCH 100/112] fix: plot accepted an empty list as one color per
 vertex or edge

---
 pygsp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/plotting.py b/pygsp/plotting.py
index 6330db1..b2dc13e 100644
--- a/pygsp/plotting.py
+++ b/pygsp/plotting.py
@@ -473,7 +473,7 @@ def _plot_graph(
             if mpl.colors.is_color_like(color):
                 return True  # single color
             try:
-                return all(map(mpl.colors.is_color_like, color))  # color list
+                return len(color) > 0 and all(map(mpl.colors.is_color_like, color))
             except TypeError:
                 return False  # e.g., color is an int
 
-- 
2.43.0


From 6cb732fc5b346e4e9ed37f94d38b05c091d756fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 101/112] fix: distanz overflowed on integers

---
 pygsp/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygsp/utils.py b/pygsp/utils.py
index 4c9b469..80ed79f 100644
--- a/pygsp/utils.py
+++ b/pygsp/utils.py
@@ -107,6 +107,8 @@ def distanz(x, y=None):
            [2., 1., 0.]])
 
     """
+    x = np.asarray(x, dtype=float)
+
     try:
         x.shape[1]
     except IndexError:
@@ -116,6 +118,8 @@ def distanz(x, y=None):
         y = x
 
     else:
+        y = np.asarray(y, dtype=float)
+
         try:
             y.shape[1]
         except IndexError:
-- 
2.43.0


From cf9a69c53d3a1bfe30d1336a5b3b2dc20be85931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 102/112] fix: cheby_rect rejected bounds given as a tuple

---
 pygsp/filters/approximations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/approximations.py b/pygsp/filters/approximations.py
index 73def5a..639429c 100644
--- a/pygsp/filters/approximations.py
+++ b/pygsp/filters/approximations.py
@@ -135,7 +135,7 @@ def cheby_rect(G, bounds, signal, **kwargs):
         Result of the filtering
 
     """
-    if not (isinstance(bounds, (list, np.ndarray)) and len(bounds) == 2):
+    if not (isinstance(bounds, (list, tuple, np.ndarray)) and len(bounds) == 2):
         raise ValueError("Bounds of wrong shape.")
 
     bounds = np.array(bounds)
-- 
2.43.0


From 458c0185fa773d0614fca09360c0da788dffab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 103/112] fix: kron_reduction rejected sparse matrices without
 indexing

---
 pygsp/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index dd0eb70..1c84611 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -338,7 +338,7 @@ def kron_reduction(G, ind):
         L = G.L
 
     else:
-        L = G
+        L = G.tocsr()
 
     N = np.shape(L)[0]
     ind_comp = np.setdiff1d(np.arange(N, dtype=int), ind)
-- 
2.43.0


From b7575b44b3950d3fd9ad98d5d12250a153a08443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:41 +0000
Subject: [PATCH 104/112] fix: radius neighbors of unsigned integer points were
 wrong

---
 pygsp/graphs/nngraphs/nngraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/nngraphs/nngraph.py b/pygsp/graphs/nngraphs/nngraph.py
index 5a1fd02..068414e 100644
--- a/pygsp/graphs/nngraphs/nngraph.py
+++ b/pygsp/graphs/nngraphs/nngraph.py
@@ -118,7 +118,8 @@ class NNGraph(Graph):
         self.order = order
 
         N, d = np.shape(self.Xin)
-        Xout = self.Xin
+        # Differences of unsigned integers wrap around.
+        Xout = np.asarray(self.Xin, dtype=float)
 
         if NNtype == "knn" and k >= N:
             raise ValueError(
-- 
2.43.0


From 9236eb5ed05ff566ae9d825cdfcf9719b0189d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 105/112] fix: heat kernels with unsigned scales were constant

---
 pygsp/filters/heat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/heat.py b/pygsp/filters/heat.py
index ef30174..39f6237 100644
--- a/pygsp/filters/heat.py
+++ b/pygsp/filters/heat.py
@@ -109,7 +109,7 @@ class Heat(Filter):
         self.normalize = normalize
 
         def kernel(x, scale):
-            return np.minimum(np.exp(-scale * x / G.lmax), 1)
+            return np.minimum(np.exp(-(scale * x) / G.lmax), 1)
 
         kernels = []
         for s in scale:
-- 
2.43.0


From aefbe71f8bc26ba27392ac298b2922a9126772ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:46 +0000
Subject: [PATCH 106/112] fix: simplex classifications could not run
 concurrently

---
 pygsp/learning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsp/learning.py b/pygsp/learning.py
index 867ebbf..2e2565d 100644
--- a/pygsp/learning.py
+++ b/pygsp/learning.py
@@ -175,7 +175,10 @@ def classification_tikhonov_simplex(G, y, M, tau=0.1, **kwargs):
     f2._prox = lambda x, step: proj_simplex(x)
 
     step = 0.5 / (1 + tau * G.lmax)
-    solver = solvers.forward_backward(step=step)
+    # The default acceleration is an object shared by all the solvers, which
+    # hence could not run concurrently.
+    accel = solvers.acceleration.fista()
+    solver = solvers.forward_backward(accel=accel, step=step)
     ret = solvers.solve([f1, f2], Y.copy(), solver, **kwargs)
     return ret["sol"]
 
-- 
2.43.0


From b4d86c66ce4b761f44d99e67323d893cf72400b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 107/112] fix: SimpleTight overflowed integer scales with more
 than 64 filters

---
 pygsp/filters/simpletight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/simpletight.py b/pygsp/filters/simpletight.py
index a552b1a..a6741e8 100644
--- a/pygsp/filters/simpletight.py
+++ b/pygsp/filters/simpletight.py
@@ -83,7 +83,7 @@ class SimpleTight(Filter):
             return r
 
         if scales is None:
-            scales = 1.0 / (2.0 * G.lmax) * np.power(2, np.arange(Nf - 2, -1, -1))
+            scales = 1.0 / (2.0 * G.lmax) * np.power(2.0, np.arange(Nf - 2, -1, -1))
         self.scales = scales
 
         if len(scales) != Nf - 1:
-- 
2.43.0


From ce9e59debd5089c68461e51c10199c0b9a155144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:39 +0000
Subject: [PATCH 108/112] fix: heat kernels at unsigned frequencies overflowed
 with integer scales

---
 pygsp/filters/heat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsp/filters/heat.py b/pygsp/filters/heat.py
index 39f6237..e59f244 100644
--- a/pygsp/filters/heat.py
+++ b/pygsp/filters/heat.py
@@ -109,7 +109,7 @@ class Heat(Filter):
         self.normalize = normalize
 
         def kernel(x, scale):
-            return np.minimum(np.exp(-(scale * x) / G.lmax), 1)
+            return np.minimum(np.exp(-(scale * (x / G.lmax))), 1)
 
         kernels = []
         for s in scale:
-- 
2.43.0


From 49987bf98502d824e4a8b977eb211619d694dffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:21 +0000
Subject: [PATCH 109/112] fix: files whose vertices are named by another tool
 could not be loaded with graph-tool

---
 pygsp/graphs/_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygsp/graphs/_io.py b/pygsp/graphs/_io.py
index 8c6c05c..64ef1f0 100644
--- a/pygsp/graphs/_io.py
+++ b/pygsp/graphs/_io.py
@@ -461,6 +461,11 @@ class IOMixIn:
         def load_graphtool(path, fmt):
             gt = _import_graphtool()
             graph = gt.load_graph(path, fmt=fmt)
+            # The names given to vertices by other tools are not signals.
+            for name in ["_graphml_vertex_id", "label"]:
+                prop = graph.vertex_properties.get(name, None)
+                if prop is not None and prop.value_type() == "string":
+                    del graph.vertex_properties[name]
             return cls.from_graphtool(graph)
 
         if backend == "networkx":
-- 
2.43.0


From 1ee4fd73258a2d96e244a9c3206598c58c7930da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:13 +0000
Subject: [PATCH 110/112] fix: graph_multiresolution crashed at random on
 repeated eigenvalues

---
 pygsp/reduction.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 1c84611..4b018cd 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -265,7 +265,11 @@ def graph_multiresolution(
             if (Gs[i]._U is not None and len(Gs[i]._e) == Gs[i].N) or Gs[i].N <= 2:
                 V = Gs[i].U[:, -1]
             else:
-                V = linalg.eigs(Gs[i].L, 1)[1][:, 0]
+                try:
+                    V = linalg.eigs(Gs[i].L, 1)[1][:, 0]
+                except linalg.ArpackError:
+                    # ARPACK might fail on repeated eigenvalues.
+                    V = np.linalg.eigh(Gs[i].L.toarray())[1][:, -1]
 
             V = V * np.sign(V[0])
             ind = np.nonzero(V >= 0)[0]
-- 
2.43.0


From dc04d5825d4c14f416df5283593f454da1d6eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:19 +0000
Subject: [PATCH 111/112] fix: graph_multiresolution kept every vertex when the
 eigenvector is null at the first one

---
 pygsp/reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsp/reduction.py b/pygsp/reduction.py
index 4b018cd..ef1b892 100644
--- a/pygsp/reduction.py
+++ b/pygsp/reduction.py
@@ -271,7 +271,8 @@ def graph_multiresolution(
                     # ARPACK might fail on repeated eigenvalues.
                     V = np.linalg.eigh(Gs[i].L.toarray())[1][:, -1]
 
-            V = V * np.sign(V[0])
+            # All the vertices would be kept if multiplied by zero.
+            V = V * (np.sign(V[0]) if V[0] != 0 else 1)
             ind = np.nonzero(V >= 0)[0]
 
         else:
-- 
2.43.0


From cb93d2caaa4799ca109815b89ab8ef59a6a644ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:05 +0000
Subject: [PATCH 112/112] fix: the Fourier basis was not orthonormal on many
 repeated eigenvalues

LAPACK's default driver (MRRR) loses orthogonality (1e-5 and worse) on the
spectrum of, e.g., a union of hundreds of equal components. Divide and
conquer does not.
---
 pygsp/graphs/fourier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsp/graphs/fourier.py b/pygsp/graphs/fourier.py
index 9887f35..7c66d18 100644
--- a/pygsp/graphs/fourier.py
+++ b/pygsp/graphs/fourier.py
@@ -173,7 +173,10 @@ class FourierMixIn:
 
         # TODO: handle non-symmetric Laplacians. Test lap_type?
         if n_eigenvectors == self.n_vertices:
-            self._e, self._U = linalg.eigh(self.L.toarray(order="F"), overwrite_a=True)
+            # LAPACK's default driver loses orthogonality on repeated eigenvalues.
+            self._e, self._U = linalg.eigh(
+                self.L.toarray(order="F"), overwrite_a=True, driver="evd"
+            )
         else:
             # fast partial eigendecomposition of hermitian matrices
             self._e, self._U = sparse.linalg.eigsh(self.L, n_eigenvectors, which="SM")
-- 
2.43.0

