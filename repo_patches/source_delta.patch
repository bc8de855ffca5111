From 690bc19b9e4b49d78b6b2db8d693d1a0289a65f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:30 +0000
Subject: [PATCH 01/44] fix: break ties consistently in the hypervolume
 dimension sweep

With tied coordinates in four or more objectives the nodes were ordered
differently across dimensions, so two tied points could mark each other
as ignorable and the result lost (or gained) volume. Also accumulate the
initial area product instead of reading stale entries.
---
 hvd/hypervolume.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hvd/hypervolume.py b/hvd/hypervolume.py
index f19fd9a..1971f35 100644
--- a/hvd/hypervolume.py
+++ b/hvd/hypervolume.py
@@ -115,7 +115,8 @@ class HyperVolume:
                 )
             else:
                 qArea[0] = 1
-                qArea[1 : dimIndex + 1] = [qArea[i] * -qCargo[i] for i in range(dimIndex)]
+                for i in range(dimIndex):
+                    qArea[i + 1] = qArea[i] * -qCargo[i]
             q.volume[dimIndex] = hvol
             if q.ignore >= dimIndex:
                 qArea[dimIndex] = qPrevDimIndex.area[dimIndex]
@@ -145,7 +146,10 @@ class HyperVolume:
         """Sets up the list data structure needed for calculation."""
         dimensions = len(self.ref)
         nodeList = MultiList(dimensions)
-        nodes = [MultiList.Node(dimensions, point) for point in front]
+        # NOTE: ties must be broken consistently across dimensions: if one point weakly dominates another,
+        # it must precede the latter in every list. Otherwise, two points tied on some coordinates can mark
+        # each other as `ignore`, and the contribution of both is lost.
+        nodes = [MultiList.Node(dimensions, point) for point in sorted(front, key=tuple)]
         for i in range(dimensions):
             self.sortByDimension(nodes, i)
             nodeList.extend(nodes, i)
@@ -154,7 +158,7 @@ class HyperVolume:
     def sortByDimension(self, nodes, i):
         """Sorts the list of nodes by the i-th value of the contained points."""
         # build a list of tuples of (point[i], node)
-        idx = np.argsort([node.cargo[i] for node in nodes])
+        idx = np.argsort([node.cargo[i] for node in nodes], kind="stable")
         # decorated = [(node.cargo[i], node) for node in nodes]
         # sort by this value
         # decorated.sort()
-- 
2.43.0


From 67497537254a913a431726588cbbe894b6b4b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 02/44] fix: negate supplied objective values and Jacobians for
 maximization in HypervolumeDerivatives

---
 hvd/hypervolume_derivatives.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index eae352d..c93a544 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -128,6 +128,8 @@ class HypervolumeDerivatives:
             assert self.func is not None
             X = self._check_X(X)
             Y = np.array([self.func(x) for x in X])
+        elif not self.minimization:  # `self.func` and `self.ref` are negated for maximization, so is `Y`
+            Y = -1 * np.asarray(Y)
         return hypervolume(Y, self.ref)
 
     def compute_derivatives(
@@ -387,9 +389,14 @@ class HypervolumeDerivatives:
         self.N = X.shape[0]  # number of points
         if Y is None:  # do not evaluate the function when `Y` is provided
             Y = np.array([self.func(x) for x in X])  # `(N, n_objective)`
+        elif not self.minimization:  # `self.func` is negated for maximization, so are the supplied values
+            Y = -1 * np.asarray(Y)
         # Jacobians
         # `(N, n_objective, n_decision_var)`
-        YdX = np.array([self.jac(x) for x in X]) if YdX is None else YdX.copy()
+        if YdX is None:
+            YdX = np.array([self.jac(x) for x in X])
+        else:
+            YdX = YdX.copy() if self.minimization else -1 * YdX
         YdX = block_diag(*YdX)  # `(N * n_objective, N * n_decision_var)` grouped by points
         # Hessians
         if compute_hessian:
-- 
2.43.0


From 769d768928db31444bde3a5f72691c0b91c31b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 03/44] fix: get_non_dominated returns an empty set instead of
 raising when all points are weakly dominated

---
 hvd/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 0b30c9b..4ae39e4 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -241,7 +241,7 @@ def get_non_dominated(pareto_front: np.ndarray, return_index: bool = False, weak
             )
         if cond:
             pareto_indices.append(idx)
-    pareto_indices = np.array(pareto_indices)
+    pareto_indices = np.array(pareto_indices, dtype=int)
     pareto_front = pareto_front[pareto_indices].copy()
     return pareto_indices if return_index else pareto_front
 
-- 
2.43.0


From d21e5b5a49fa19774171f13df1cd50443efce7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 04/44] fix: Hessian of the generational distance for p != 2
 misses the norm factor

---
 hvd/delta_p.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/delta_p.py b/hvd/delta_p.py
index e6ff38d..ebe2e30 100644
--- a/hvd/delta_p.py
+++ b/hvd/delta_p.py
@@ -104,7 +104,7 @@ class GenerationalDistance:
                 if self.p != 2
                 else 0
             )
-            hessian = term + c1 * (
+            hessian = term + c1 * diff_norm[..., np.newaxis] ** (self.p - 2) * (
                 np.einsum("ijk,ijl->ikl", J, J) + np.einsum("ijkl,ij->ikl", H, diff)
             )  # (N, dim, dim)
             return grad, hessian
-- 
2.43.0


From b8ce7693050fd10e8007e7e3b18887ea448af5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 05/44] fix: match reference components to clusters by their
 assigned rows, and ignore components without any point

---
 hvd/reference_set.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index c3ada26..d3c5e07 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -59,7 +59,7 @@ class ReferenceSet:
         idx = self._match_components(Y)
         out = np.zeros((N, self.n_obj))
         self._medoids_idx = np.empty(N, dtype=object)
-        for k, v in enumerate(idx):
+        for k, v in idx:
             Y_ = Y[v]
             assert len(self._ref[k]) >= len(Y_)
             try:
@@ -127,22 +127,23 @@ class ReferenceSet:
             if self.Y_idx is None:
                 D = np.array([cdist(self._ref[i], Y).min(axis=0) for i in range(self.n_components)])
                 labels = np.argmin(D, axis=0)
-                self.Y_idx = [np.nonzero(labels == i)[0] for i in range(self.n_components)]
+                # components to which no point is assigned do not take part in the matching
+                self.Y_idx = [np.nonzero(labels == i)[0] for i in np.unique(labels)]
             # parition `Y` according to `Y_idx`
             Y_partitions = [Y[idx] for idx in self.Y_idx]
         return Y_partitions
 
-    def _match_components(self, Y: Dict[int, np.ndarray]) -> np.ndarray:
+    def _match_components(self, Y: Dict[int, np.ndarray]) -> List[tuple]:
         n, m = self.n_components, len(Y)
         assert n >= m  # TODO: find a solution here
         if n == 1 and m == 1:
-            idx = [0]
+            idx = [(0, 0)]
         else:
             # match the clusters of `X` and `Y`
-            idx = np.zeros(m)
             cost = np.array([directed_hausdorff(self._ref[i], Y[j])[0] for i in range(n) for j in range(m)])
             cost = cost.reshape(n, m)
-            idx = linear_sum_assignment(cost)[1]
+            # pairs of (reference component, cluster of `Y`); some components are unmatched if n > m
+            idx = list(zip(*linear_sum_assignment(cost)))
         return idx
 
     def _cluster(self, component: np.ndarray, k: int) -> np.ndarray:
-- 
2.43.0


From e94408b28558f64f78e7c2ff0dded7976b65e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 06/44] fix: own a floating-point copy of the reference points,
 shifts altered the caller's dict and truncated on integer data

---
 hvd/reference_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index d3c5e07..ff7de67 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -27,6 +27,8 @@ class ReferenceSet:
         """
         self._ref: Dict[int, np.ndarray] = {0: ref} if isinstance(ref, np.ndarray) else ref
         assert isinstance(self._ref, dict)
+        # own copy in floating point: shifting must neither affect the caller's data nor be truncated
+        self._ref = {k: np.array(v, dtype=float) for k, v in self._ref.items()}
         self.n_components: int = len(self._ref)  # the number of connected components of the reference set
         self.n_obj: int = self._ref[0].shape[1]
         self.Y_idx: List[np.ndarray] = Y_idx  # list of indices of clusters of the approximation set
-- 
2.43.0


From 3f00921a367d4360792b2e89f4a8a0261a8851b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 07/44] fix: State.save raised KeyError, the Jacobian callback
 is stored as 'jac'

---
 hvd/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/base.py b/hvd/base.py
index 97260a6..6af91d3 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -281,7 +281,7 @@ class State:
         with open(filename + ".pkl", "wb") as file:
             __dict__ = self.__dict__.copy()
             del __dict__["func"]
-            del __dict__["_jac"]
+            del __dict__["jac"]
             del __dict__["h"]
             del __dict__["h_jac"]
             del __dict__["h_hess"]
-- 
2.43.0


From 74eb090493dfa3f838f1a5debb691d25434ba266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 08/44] fix: a state updated without derivatives kept stale
 constraint Hessians and could not be sliced

---
 hvd/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hvd/base.py b/hvd/base.py
index 6af91d3..7905b0c 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -155,8 +155,7 @@ class State:
         self.J = self.eval_jac(self.primal) if compute_gradient else None
         self.cstr_value, self.active_indices = self.eval_cstr(self.primal)
         self.cstr_grad = self.eval_cstr_jac(self.primal)
-        if compute_hessian:
-            self.cstr_hess = self.eval_cstr_hess(self.primal)
+        self.cstr_hess = self.eval_cstr_hess(self.primal) if compute_hessian else None
 
     def update_one(self, x: np.ndarray, k: int) -> None:
         primal_vars = x[: self.n_var]
@@ -308,9 +307,9 @@ class State:
         obj.n_jac_evals = obj.n_jac_evals
         obj.X = obj.X[indices]
         obj.Y = obj.Y[indices]
-        obj.J = obj.J[indices]
+        obj.J = None if obj.J is None else obj.J[indices]
         obj.cstr_value = obj.cstr_value[indices]
         obj.active_indices = obj.active_indices[indices]
         obj.cstr_grad = obj.cstr_grad[indices]
-        obj.cstr_hess = obj.cstr_hess[indices]
+        obj.cstr_hess = None if obj.cstr_hess is None else obj.cstr_hess[indices]
         return obj
-- 
2.43.0


From d0af3886333840735ad4ca9de8d8ae08c3cb90e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:05 +0000
Subject: [PATCH 09/44] fix: HVN falls back to least squares for numerically
 singular systems, spsolve's step could be arbitrary

---
 hvd/newton.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hvd/newton.py b/hvd/newton.py
index d95569b..3b7e164 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -256,6 +256,10 @@ class HVN:
             warnings.filterwarnings("error")
             try:
                 newton_step_ = -1 * spsolve(csc_matrix(DR), csc_matrix(R_vec))
+                # `spsolve` does not notice if `DR` is only numerically singular
+                residual = DR @ newton_step_ + R_vec.ravel()
+                if not np.linalg.norm(residual) <= 1e-6 * np.linalg.norm(R_vec):
+                    raise np.linalg.LinAlgError
             except:  # if DR is singular, then use the pseudoinverse
                 newton_step_ = -1 * np.linalg.lstsq(DR, R_vec, rcond=None)[0].ravel()
         # convert the vector-format of the newton step to matrix format
-- 
2.43.0


From 1994e763517f9da285a48bb986ba3e54d994b6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:05 +0000
Subject: [PATCH 10/44] fix: HVN with limited step size crashed when a
 partition does not move (zero step)

---
 hvd/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/newton.py b/hvd/newton.py
index 3b7e164..a5c1e1a 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -277,7 +277,7 @@ class HVN:
         normal_vectors = np.c_[np.eye(dim * N), -1 * np.eye(dim * N)]
         dist = np.r_[np.abs(X.ravel() - np.tile(self.xl, N)), np.abs(np.tile(self.xu, N) - X.ravel())]
         v = step.ravel() @ normal_vectors
-        return min(1, 0.25 * np.min(dist[v < 0] / np.abs(v[v < 0])))
+        return min(1, 0.25 * np.min(dist[v < 0] / np.abs(v[v < 0]), initial=np.inf))
 
     def _get_phi_func(self, state: State, step: np.ndarray) -> callable:
         def phi_func(alpha: float) -> float:
-- 
2.43.0


From 68931cb09d74104e0740a6ea64e224f3dd4723e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 11/44] fix: targets were re-matched during the line search,
 the re_match flag was set on an object that ignores it

---
 hvd/mmd_newton.py | 10 ++++++----
 hvd/newton.py     |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 23aca68..2e67fbd 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -301,9 +301,10 @@ class MMDNewton:
         def phi_func(alpha):
             state_ = deepcopy(self.state)
             state_.update(state_.X + alpha * step)
-            self.indicator.re_match = False
+            # keep the targets of the current iteration fixed
+            re_match, self.ref.re_match = self.ref.re_match, False
             R_ = self._compute_R(state_)[0]
-            self.indicator.re_match = True
+            self.ref.re_match = re_match
             return np.linalg.norm(R_)
 
         step_size = min(max_step_size) if max_step_size is not None else 1
@@ -337,10 +338,11 @@ class MMDNewton:
             x = state.X[i].copy()
             x += alpha * step[i]
             state.update_one(x, i)
-            self.indicator.re_match = False
+            # keep the targets of the current iteration fixed
+            re_match, self.ref.re_match = self.ref.re_match, False
             # this step takes too long since we compute the gradient at all points while only one changes
             R_ = self._compute_R(state)[0][i]
-            self.indicator.re_match = True
+            self.ref.re_match = re_match
             self.state.n_jac_evals = state.n_jac_evals
             return np.linalg.norm(R_)
 
diff --git a/hvd/newton.py b/hvd/newton.py
index a5c1e1a..9ade662 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -625,9 +625,10 @@ class DpN:
             x = state.X[i].copy()
             x += alpha * step[i]
             state.update_one(x, i)
-            self.active_indicator.re_match = False
+            # keep the targets of the current iteration fixed
+            re_match, self.ref.re_match = self.ref.re_match, False
             R_ = self._compute_R(state)[0][i]
-            self.active_indicator.re_match = True
+            self.ref.re_match = re_match
             self.state.n_jac_evals = state.n_jac_evals
             return np.linalg.norm(R_)
 
-- 
2.43.0


From 19fa770d74642f313b24792216ddbb067f096078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 12/44] fix: MMDNewton without matching shifted the whole
 reference set in every iteration, and crashed if it is smaller than the
 population

---
 hvd/mmd_newton.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 2e67fbd..fbc013c 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -285,9 +285,11 @@ class MMDNewton:
             masks = np.bitwise_and(np.isclose(distance, 0), np.isclose(step_norm, 0))
 
         indices = np.nonzero(masks)[0]
-        self.ref.shift(0.08, indices)
-        for k in indices:  # log the updated medoids
-            self.history_medoids[k].append(self.ref.reference_set[k].copy())
+        if len(indices) > 0:  # an unmatched reference set is shifted entirely, regardless of `indices`
+            self.ref.shift(0.08, indices)
+        if self.matching:  # log the updated medoids
+            for k in indices:
+                self.history_medoids[k].append(self.ref.reference_set[k].copy())
         self.logger.info(f"{len(indices)} target points are shifted")
 
     def _backtracking_line_search_global(
-- 
2.43.0


From d3503af8a68ed52ee0ae5f4ac8d2b751f5ffcb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 13/44] fix: DpN's box projection kept points in corners from
 moving (wrong or only one component was projected)

---
 hvd/newton.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/hvd/newton.py b/hvd/newton.py
index 9ade662..8e77d87 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -673,23 +673,17 @@ class DpN:
         primal_vars = self.state.primal
         step_primal = step[:, : self.dim_p]
         normal_vectors = np.c_[np.eye(self.dim_p), -1 * np.eye(self.dim_p)]
-        # calculate the maximal step-size
+        # project Newton's direction onto the box boundary, i.e., drop the components pointing outwards there
         dist = np.c_[
             np.abs(primal_vars - self.xl),
             np.abs(self.xu - primal_vars),
         ]
         v = step_primal @ normal_vectors
+        outward = np.isclose(dist, 0, rtol=0, atol=1e-10) & (v < 0)
+        step_primal[outward[:, : self.dim_p] | outward[:, self.dim_p :]] = 0
+        step[:, : self.dim_p] = step_primal
+        # calculate the maximal step-size
+        v = step_primal @ normal_vectors
         s = np.array([dist[i] / np.abs(np.minimum(0, vv)) for i, vv in enumerate(v)])
         max_step_size = np.array([min(1.0, np.nanmin(_)) for _ in s])
-        # project Newton's direction onto the box boundary
-        idx = max_step_size == 0
-        if np.any(idx) > 0:
-            proj_dim = [np.argmin(_) for _ in s[idx]]
-            proj_axis = normal_vectors[:, proj_dim]
-            step_primal[idx] -= (np.einsum("ij,ji->i", step_primal[idx], proj_axis) * proj_axis).T
-            step[:, : self.dim_p] = step_primal
-            # re-calculate the `max_step_size` for projected directions
-            v = step[:, : self.dim_p] @ normal_vectors
-            s = np.array([dist[i] / np.abs(np.minimum(0, vv)) for i, vv in enumerate(v)])
-            max_step_size = np.array([min(1, np.nanmin(_)) for _ in s])
         return step, max_step_size
-- 
2.43.0


From 2c90be97afae23b089334e3b9d66e01c93613364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 14/44] fix: MMDNewton skipped the line search whenever the
 signed components of the step have zero median

---
 hvd/mmd_newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index fbc013c..21746cc 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -297,7 +297,7 @@ class MMDNewton:
     ) -> float:
         """backtracking line search with Armijo's condition. Global step-size control"""
         c1 = 1e-6
-        if 11 < 2 or np.any(np.isclose(np.median(step[:, : self.dim_p]), np.finfo(np.double).resolution)):
+        if np.all(np.isclose(step, 0)):
             return np.array([1])
 
         def phi_func(alpha):
-- 
2.43.0


From 0a1d05a092900b53df41d48aeb2b1e482a0fe095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 15/44] fix: Lara moved members at the optimum of one objective
 to NaN (normalisation of a zero gradient)

---
 hvd/gradient_based.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hvd/gradient_based.py b/hvd/gradient_based.py
index 9562a21..d291112 100644
--- a/hvd/gradient_based.py
+++ b/hvd/gradient_based.py
@@ -131,7 +131,9 @@ class Lara:
         for i in range(state.N):
             v = state.J[i]
             # TODO: FIXIT!!
-            R[i] = -1 * np.sum([v[k] / np.linalg.norm(v[k]) for k in range(self.n_obj)], axis=0)
+            # objectives that are already stationary (zero gradient) do not contribute
+            norms = np.linalg.norm(v, axis=1)
+            R[i] = -1 * np.sum([v[k] / norms[k] for k in range(self.n_obj) if norms[k] > 0], axis=0)
         return R
 
     def _handle_box_constraint(self, step: np.ndarray, state: State) -> Tuple[np.ndarray, np.ndarray]:
-- 
2.43.0


From 15636c5a1abd7bbbd6e1988dbc184aaaedabbf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:35 +0000
Subject: [PATCH 16/44] fix: CF1-CF7 misassigned the last variable when the
 number of variables is odd

---
 hvd/problems/cf.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 7bd568f..750e397 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -46,8 +46,8 @@ class CF1(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         term1 = jnp.tile(x[:, [0]], (1, len(J1))) ** (
             0.5 * (1 + 3 * (jnp.tile(J1 + 1, (N, 1)) - 2) / (D - 2))
         )
@@ -103,8 +103,8 @@ class CF2(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         term1 = (
             x[:, J1] - jnp.sin(6 * pi * jnp.tile(x[:, [0]], (1, len(J1))) + jnp.tile(J1 + 1, (N, 1)) * pi / D)
         ) ** 2
@@ -161,8 +161,8 @@ class CF3(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y = x - jnp.sin(6 * pi * jnp.tile(x[:, 0], (1, D)) + jnp.tile(jnp.arange(1, D + 1), (N, 1)) * pi / D)
         term1 = jnp.prod(jnp.cos(20 * Y[:, J1] * pi / jnp.sqrt(jnp.tile(J1 + 1, (N, 1)))), 1)
         term2 = jnp.prod(jnp.cos(20 * Y[:, J2] * pi / jnp.sqrt(jnp.tile(J2 + 1, (N, 1)))), 1)
@@ -212,8 +212,8 @@ class CF4(CMOP):
         X = jnp.clip(X, self.xl, self.xu)
         N = X.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y = X - jnp.sin(6 * pi * jnp.tile(X[:, 0], (1, D)) + jnp.tile(jnp.arange(1, D + 1), (N, 1)) * pi / D)
         temp = Y[:, 1] < 3 / 2 * (1 - jnp.sqrt(1 / 2))
         h = jax.numpy.where(
@@ -270,8 +270,8 @@ class CF5(CMOP):
         X = jnp.atleast_2d(X)
         N = X.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - 0.8 * jnp.tile(X[:, 0], (1, len(J1))) * jnp.cos(
             6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + jnp.tile(J1 + 1, (N, 1)) * pi / D
         )
@@ -333,8 +333,8 @@ class CF6(CMOP):
     def _objective(self, X: jnp.ndarray) -> jnp.ndarray:
         X = jnp.atleast_2d(X)
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - 0.8 * jnp.tile(X[:, 0], (1, len(J1))) * jnp.cos(
             6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + (J1 + 1) * pi / D
         )
@@ -398,8 +398,8 @@ class CF7(CMOP):
     def _objective(self, X: jnp.ndarray) -> jnp.ndarray:
         X = jnp.atleast_2d(X)
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - jnp.cos(6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + (J1 + 1) * pi / D)
         Y2 = X[:, J2] - jnp.sin(6 * pi * jnp.tile(X[:, 0], (1, len(J2))) + (J2 + 1) * pi / D)
         h1 = 2 * Y1**2 - jnp.cos(4 * pi * Y1) + 1
-- 
2.43.0


From 2209db5f066c0164c811be8c1e6b9b6c4cb5a5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:35 +0000
Subject: [PATCH 17/44] fix: CF4 ignored its second variable beyond the kink of
 the second objective

---
 hvd/problems/cf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 750e397..12ca7ab 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -219,7 +219,9 @@ class CF4(CMOP):
         h = jax.numpy.where(
             temp[0],
             jnp.atleast_2d(jnp.concatenate([Y[:, 0] ** 2, abs(Y[:, 1]), (Y[:, 2:] ** 2).ravel()])),
-            jnp.atleast_2d(jnp.concatenate([Y[:, 0] ** 2, jnp.array([0.125]), (Y[:, 2:] ** 2).ravel()])),
+            jnp.atleast_2d(
+                jnp.concatenate([Y[:, 0] ** 2, 0.125 + (Y[:, 1] - 1) ** 2, (Y[:, 2:] ** 2).ravel()])
+            ),
         )
         F1 = X[:, 0] + jnp.sum(h[:, J1], 1)
         F2 = 1 - X[:, 0] + jnp.sum(h[:, J2], 1)
-- 
2.43.0


From c2e03f5b190b2c931ee394848fca59171e843204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:35 +0000
Subject: [PATCH 18/44] fix: the front of CF1 consists of 21 points, the others
 are infeasible

---
 hvd/problems/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 12ca7ab..a180554 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -62,8 +62,8 @@ class CF1(CMOP):
         y = jnp.atleast_2d(self._objective(x))
         return 1 - y[:, 0] - y[:, 1] + jnp.abs(jnp.sin(10 * jnp.pi * (y[:, 0] - y[:, 1] + 1)))
 
-    def get_pareto_front(self, N: int = 1000) -> np.ndarray:
-        f = np.linspace(0, 1, N)
+    def get_pareto_front(self, N: int = 21) -> np.ndarray:
+        f = np.arange(21) / 20
         return np.c_[f, 1 - f]
 
 
-- 
2.43.0


From 4c25d21d954306f38060d7770b408bd338c4fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:35 +0000
Subject: [PATCH 19/44] fix: the front of CF2 lacked its isolated point

---
 hvd/problems/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index a180554..0f02e4c 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -127,7 +127,7 @@ class CF2(CMOP):
 
     def get_pareto_front(self, N: int = 1000) -> np.ndarray:
         f = np.linspace(0, 1, N)
-        idx = (1 / 16 <= f) & (f <= 4 / 16) | (9 / 16 <= f) & (f <= 1)
+        idx = (f == 0) | (1 / 16 <= f) & (f <= 4 / 16) | (9 / 16 <= f) & (f <= 1)
         f = f[idx]
         return np.c_[f, 1 - jnp.sqrt(f)]
 
-- 
2.43.0


From b3f6f56433db202374a56fa218df6c459ffa68f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:35 +0000
Subject: [PATCH 20/44] fix: the front of CF8 was off the unit sphere

---
 hvd/problems/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 0f02e4c..a51c8f4 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -481,7 +481,7 @@ class CF8(UF8):
             R[int(i * N / 5) : int((i + 1) * N / 5), 0] = np.sqrt(
                 i / 4 * (1 - R[int(i * N / 5) : int((i + 1) * N / 5), 2] ** 2)
             )
-        R[:, 1] = np.sqrt(np.max(1 - R[:, 0] ** 2 - R[:, 2] ** 2, 0))
+        R[:, 1] = np.sqrt(np.maximum(1 - R[:, 0] ** 2 - R[:, 2] ** 2, 0))
         return R
 
 
-- 
2.43.0


From 0cb31da8354deb1920dcdda3bafcd270d26bb931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:35 +0000
Subject: [PATCH 21/44] fix: the Pareto set of ZDT3 contained dominated points

---
 hvd/problems/zdt.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hvd/problems/zdt.py b/hvd/problems/zdt.py
index 1dd6a3b..4519195 100644
--- a/hvd/problems/zdt.py
+++ b/hvd/problems/zdt.py
@@ -67,6 +67,16 @@ class ZDT3(ZDT1):
         r = x[0] / g
         return jnp.array([x[0], g * (1 - jnp.sqrt(jnp.maximum(r, _EPS)) - r * jnp.sin(10 * jnp.pi * x[0]))])
 
+    def get_pareto_set(self, n_pareto_points: int = 100, kind: str = "linear") -> np.ndarray:
+        X = super().get_pareto_set(n_pareto_points, kind)
+        # distribute the first variable over the disconnected optimal intervals
+        lengths = np.diff(self.regions, axis=1).ravel()
+        offsets = np.cumsum(lengths) - lengths
+        t = X[:, 0] * lengths.sum()
+        k = np.searchsorted(offsets, t, side="right") - 1
+        X[:, 0] = self.regions[k, 0] + t - offsets[k]
+        return X
+
     def get_pareto_front(self, n_points: int = 100, flatten: bool = True) -> np.ndarray:
         blocks = []
         for lo, hi in self.regions:
-- 
2.43.0


From 1085dbdcad5cc6faf7689e64a09e7b2a62350e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:35 +0000
Subject: [PATCH 22/44] fix: the Pareto set of DTLZ7 contained dominated points

---
 hvd/problems/dtlz.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hvd/problems/dtlz.py b/hvd/problems/dtlz.py
index 97638d4..860e91a 100644
--- a/hvd/problems/dtlz.py
+++ b/hvd/problems/dtlz.py
@@ -153,7 +153,10 @@ class DTLZ7(_DTLZ):
         return 1 + 9 / self.k * jnp.sum(x_M[-self.k :])
 
     def get_pareto_set(self, N: int = 1000) -> np.ndarray:
-        x = np.random.rand(N, self.n_var - self.k)
+        # each position lies in one of the two intervals where the disconnected front is optimal
+        (lo1, up1), (lo2, up2) = (0, 0.2514118360889), (0.6316265307000, 0.8594008566447)
+        x = np.random.rand(N, self.n_var - self.k) * (up1 - lo1 + up2 - lo2)
+        x = np.where(x <= up1, x, x - up1 + lo2)
         return np.c_[x, np.tile(0, (N, self.k))]
 
     def get_pareto_front(self):
-- 
2.43.0


From 49b0caa181e0bb2676efb791ad0bcad4f928fdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:35 +0000
Subject: [PATCH 23/44] fix: Pareto sets and fronts of the Eq1DTLZ problems
 ignored the equality constraint

---
 hvd/problems/eqdtlz.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/hvd/problems/eqdtlz.py b/hvd/problems/eqdtlz.py
index bbdb7ff..8834eaa 100644
--- a/hvd/problems/eqdtlz.py
+++ b/hvd/problems/eqdtlz.py
@@ -37,6 +37,17 @@ class ConstrainedDTLZ(_DTLZ):
         xx = x[0 : M - 1] - 0.5
         return jnp.abs(jnp.sum(xx**2) - r**2) - 1e-4
 
+    def get_pareto_set(self, N: int = 1000) -> np.ndarray:
+        # the points of the unconstrained Pareto set that satisfy the equality constraint
+        x = super().get_pareto_set(N)
+        v = np.random.randn(N, self.n_obj - 1)
+        r = np.sqrt(0.4**2 + np.random.choice([-1e-4, 1e-4], size=(N, 1)))
+        x[:, : self.n_obj - 1] = 0.5 + r * v / np.linalg.norm(v, axis=1, keepdims=True)
+        return x
+
+    def get_pareto_front(self, N: int = 1000, **kwargs) -> np.ndarray:
+        return self.objective_batch(self.get_pareto_set(N))
+
 
 class IDTLZ1(InvertedDTLZ, DTLZ1):
     pass
@@ -54,33 +65,33 @@ class IDTLZ4(InvertedDTLZ, DTLZ4):
     pass
 
 
-class Eq1DTLZ1(DTLZ1, ConstrainedDTLZ):
+class Eq1DTLZ1(ConstrainedDTLZ, DTLZ1):
     pass
 
 
-class Eq1IDTLZ1(IDTLZ1, ConstrainedDTLZ):
+class Eq1IDTLZ1(ConstrainedDTLZ, IDTLZ1):
     pass
 
 
-class Eq1DTLZ2(DTLZ2, ConstrainedDTLZ):
+class Eq1DTLZ2(ConstrainedDTLZ, DTLZ2):
     pass
 
 
-class Eq1IDTLZ2(IDTLZ2, ConstrainedDTLZ):
+class Eq1IDTLZ2(ConstrainedDTLZ, IDTLZ2):
     pass
 
 
-class Eq1DTLZ3(DTLZ3, ConstrainedDTLZ):
+class Eq1DTLZ3(ConstrainedDTLZ, DTLZ3):
     pass
 
 
-class Eq1IDTLZ3(IDTLZ3, ConstrainedDTLZ):
+class Eq1IDTLZ3(ConstrainedDTLZ, IDTLZ3):
     pass
 
 
-class Eq1DTLZ4(DTLZ4, ConstrainedDTLZ):
+class Eq1DTLZ4(ConstrainedDTLZ, DTLZ4):
     pass
 
 
-class Eq1IDTLZ4(IDTLZ4, ConstrainedDTLZ):
+class Eq1IDTLZ4(ConstrainedDTLZ, IDTLZ4):
     pass
-- 
2.43.0


From 0f33ba31cba9561b6cee252f3d1bbd9109c8c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:37 +0000
Subject: [PATCH 24/44] fix: element-wise pymoo problems were evaluated on a 1
 x n_var matrix, giving wrong objectives

---
 hvd/problems/_pymoo_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hvd/problems/_pymoo_wrapper.py b/hvd/problems/_pymoo_wrapper.py
index 51763e2..7b1f0cc 100644
--- a/hvd/problems/_pymoo_wrapper.py
+++ b/hvd/problems/_pymoo_wrapper.py
@@ -59,7 +59,9 @@ class _PymooBackedProblem(CMOP):
 
     def _evaluate_key(self, x: jnp.ndarray, key: str) -> jnp.ndarray:
         out = {}
-        result = self._problem._evaluate(jnp.atleast_2d(x), out)
+        if not getattr(self._problem, "elementwise", False):  # element-wise problems take one point
+            x = jnp.atleast_2d(x)
+        result = self._problem._evaluate(x, out)
         if result is not None and not out and key == "F":
             return result
         return out[key]
-- 
2.43.0


From b705590bf6e602cb736b80bfabd988e7aefea90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:16 +0000
Subject: [PATCH 25/44] fix: RSG crashed when a component is too short to
 receive a point

---
 hvd/rsg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/rsg.py b/hvd/rsg.py
index 5610fb2..2608a2a 100644
--- a/hvd/rsg.py
+++ b/hvd/rsg.py
@@ -44,7 +44,7 @@ def interpolate_tst(X: np.ndarray, Nf: int) -> np.ndarray:
     keep[1:] = np.any(np.diff(P, axis=0) != 0, axis=1)
     P = P[keep]
     n = len(P)
-    if n < 2:
+    if n < 2 or Nf < 1:
         return np.repeat(P[:1], Nf, axis=0)
 
     seg = P[1:] - P[:-1]
-- 
2.43.0


From 1aa7ca5a572f5909ffaac7a182362081076493c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:44 +0000
Subject: [PATCH 26/44] fix: RSG returned fewer or more points than asked for
 (and failed on collapsed components)

---
 hvd/rsg.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hvd/rsg.py b/hvd/rsg.py
index 2608a2a..52e74e1 100644
--- a/hvd/rsg.py
+++ b/hvd/rsg.py
@@ -3,10 +3,6 @@ import numpy as np
 from sklearn.cluster import DBSCAN
 
 
-def _matlab_round(x):
-    return np.sign(x) * np.floor(np.abs(x) + 0.5)
-
-
 def ComponentDetection(Py, eps, minpts):
 
     idx = DBSCAN(eps=eps, min_samples=minpts).fit(Py)
@@ -92,10 +88,16 @@ def RSG(Py: np.ndarray, Nf: int, eps: float = 0.08, minpts: int = 2) -> np.ndarr
 
         total_length = comp_length.sum()
 
+        # shares proportional to the lengths, rounded such that they add up to `Nf`
+        weights = comp_length[0] if total_length > 0 else np.ones(num_cluesters)
+        weights = weights / max(weights.sum(), np.finfo(float).tiny)
+        Nf_components = np.floor(Nf * weights).astype(int)
+        remainder = Nf * weights - Nf_components
+        Nf_components[np.argsort(-remainder, kind="stable")[: Nf - Nf_components.sum()]] += 1
+
         for i in range(num_cluesters):
 
-            Nf_interpolate_tst = int(_matlab_round(Nf * comp_length[0, i] / total_length))
-            interpolate_tst_I = interpolate_tst(C[i], Nf_interpolate_tst)
+            interpolate_tst_I = interpolate_tst(C[i], Nf_components[i])
             I.append(interpolate_tst_I)
 
         comp_idx_tot = []
-- 
2.43.0


From f2c7980bc22bfaa829f51d28d3901f65fb10fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:44 +0000
Subject: [PATCH 27/44] fix: bootstrapping failed for the MMD without matching,
 which has no spread weight

---
 hvd/bootstrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/bootstrap.py b/hvd/bootstrap.py
index ac9aff8..38554e9 100644
--- a/hvd/bootstrap.py
+++ b/hvd/bootstrap.py
@@ -179,7 +179,8 @@ def bootstrap_reference_set(
             optimizer.indicator.ref = optimizer.ref = ref
             optimizer.indicator.compute(Y=optimizer.state.Y)
             # discount the weight of the spread term to reduce spread effect in the following iterations
-            optimizer.indicator.beta = optimizer.indicator.beta * 0.8
+            if hasattr(optimizer.indicator, "beta"):  # only the matched MMD weights its spread term
+                optimizer.indicator.beta = optimizer.indicator.beta * 0.8
 
         # the next iteration
         optimizer.newton_iteration()
-- 
2.43.0


From 5e607039caa688c1feaa92ccb569610c8d73883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:44 +0000
Subject: [PATCH 28/44] fix: bootstrapping failed after the last iteration of
 runs not longer than the interval

---
 hvd/bootstrap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hvd/bootstrap.py b/hvd/bootstrap.py
index 38554e9..7d0b6d8 100644
--- a/hvd/bootstrap.py
+++ b/hvd/bootstrap.py
@@ -113,6 +113,7 @@ def bootstrap_reference_set(
     alpha: float = 0.05
     Y0: np.ndarray = optimizer.state.Y.copy()
     ref0: np.ndarray = optimizer.ref.reference_set.copy()
+    ref = optimizer.ref  # returned as is if no bootstrapping takes place
     ref_list: list = []
     X_list: list = []
     Y_list: list = []
-- 
2.43.0


From c4c65b1385fe8ac690bcf778d29e5311d6c99438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:44 +0000
Subject: [PATCH 29/44] fix: bootstrapping lost the result when fewer than N
 points survive the filter

---
 hvd/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/bootstrap.py b/hvd/bootstrap.py
index 7d0b6d8..6526961 100644
--- a/hvd/bootstrap.py
+++ b/hvd/bootstrap.py
@@ -192,7 +192,7 @@ def bootstrap_reference_set(
     X_, Y_ = list(zip(*filtered))
     X_ = np.concatenate(X_, axis=0)
     Y_ = np.concatenate(Y_, axis=0)
-    km = KMedoids(n_clusters=N, method="alternate", random_state=42, init="k-medoids++").fit(Y_)
+    km = KMedoids(n_clusters=min(N, len(Y_)), method="alternate", random_state=42, init="k-medoids++").fit(Y_)
     X0_bootstrap = X_[km.medoid_indices_]
     Y0_bootstrap = Y_[km.medoid_indices_]
     return X0_bootstrap, Y0_bootstrap, ref, ref_list
-- 
2.43.0


From ba3c47ba10bc37130db69467f90271e74f7a6816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:01 +0000
Subject: [PATCH 30/44] fix: SMSEMOA failed on problems with more than two
 objectives (jit of code that needs concrete sizes)

---
 hvd/moea/sms_emoa.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/hvd/moea/sms_emoa.py b/hvd/moea/sms_emoa.py
index a600424..7a5db29 100644
--- a/hvd/moea/sms_emoa.py
+++ b/hvd/moea/sms_emoa.py
@@ -1,5 +1,4 @@
 import numpy as np
-from jax import jit
 from pymoo.algorithms.base.genetic import GeneticAlgorithm
 from pymoo.core.population import Population
 from pymoo.core.survival import Survival
@@ -20,7 +19,6 @@ from ..exact import ExactHypervolume
 # NOTE: speedup the MC hypervolume contribution with `numba`
 
 
-@jit
 def alpha(N, k):
     alpha = np.zeros(N + 1)
 
@@ -30,7 +28,6 @@ def alpha(N, k):
     return alpha
 
 
-@jit
 def hv_monte_carlo(dom, V, n_dom=None):
     N, n_samples = dom.shape
     if n_dom is None:
@@ -41,7 +38,6 @@ def hv_monte_carlo(dom, V, n_dom=None):
     return hv
 
 
-@jit
 def hvc_monte_carlo(dom, V, n_dom=None, k=1):
     N, n_samples = dom.shape
     if n_dom is None:
-- 
2.43.0


From 09f98e039a93c44c164924dad991c5ae2b3b1a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:01 +0000
Subject: [PATCH 31/44] fix: SMSEMOA crashed in the final step of runs that
 find no new offspring

---
 hvd/moea/sms_emoa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hvd/moea/sms_emoa.py b/hvd/moea/sms_emoa.py
index 7a5db29..e7f5031 100644
--- a/hvd/moea/sms_emoa.py
+++ b/hvd/moea/sms_emoa.py
@@ -245,6 +245,7 @@ class SMSEMOA(GeneticAlgorithm):
             ideal, nadir = F.min(axis=0), F.max(axis=0) + 1e-32
 
         # merge the offsprings with the current population
+        pop = self.pop
         if infills is not None:
             pop = Population.merge(self.pop, infills)
 
-- 
2.43.0


From 111079347ac19bc0221c7729f1455681fc0d66f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:56 +0000
Subject: [PATCH 32/44] fix: constraints returning 0-d arrays made the
 optimisers fail, only Python scalars were accepted

---
 hvd/mmd_newton.py | 4 ++--
 hvd/newton.py     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 21746cc..204b009 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -120,10 +120,10 @@ class MMDNewton:
         x = np.random.rand(self.dim_p) * (self.xu - self.xl) + self.xl
         if h is not None:
             v = h(x)
-            self.n_eq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_eq = np.size(v)
         if g is not None:
             v = g(x)
-            self.n_ieq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_ieq = np.size(v)
         self.dim_d = self.n_eq + self.n_ieq
         self.dim = self.dim_p + self.dim_d
 
diff --git a/hvd/newton.py b/hvd/newton.py
index 8e77d87..c0c64af 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -87,10 +87,10 @@ class HVN:
         x = np.random.rand(self.dim_p) * (self.xu - self.xl) + self.xl
         if h is not None:
             v = h(x)
-            self.n_eq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_eq = np.size(v)
         if g is not None:
             v = g(x)
-            self.n_ieq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_ieq = np.size(v)
         self.dim_d = self.n_eq + self.n_ieq
         self.dim = self.dim_p + self.dim_d
 
@@ -417,10 +417,10 @@ class DpN:
         x = np.random.rand(self.dim_p) * (self.xu - self.xl) + self.xl
         if h is not None:
             v = h(x)
-            self.n_eq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_eq = np.size(v)
         if g is not None:
             v = g(x)
-            self.n_ieq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_ieq = np.size(v)
         self.dim_d = self.n_eq + self.n_ieq
         self.dim = self.dim_p + self.dim_d
 
-- 
2.43.0


From 088f6a49ae220e37c2197cf0aa174663df0ac251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:56 +0000
Subject: [PATCH 33/44] fix: State.update_one failed on native problems, whose
 batch variants return read-only arrays

---
 hvd/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/base.py b/hvd/base.py
index 7905b0c..de99e62 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -103,7 +103,8 @@ class State:
             return np.zeros((*prefix, *output_shape))
 
         evaluator = function if x.ndim == 1 else cls._get_batch_variant(function)
-        values = np.asarray(evaluator(x))
+        # own, writable copy: batch variants may return read-only views of JAX buffers
+        values = np.array(evaluator(x))
         return values if output_shape is None else values.reshape(*prefix, *output_shape)
 
     @staticmethod
-- 
2.43.0


From 9c3316a7938b99cf64d1539981242a2458b6142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:56 +0000
Subject: [PATCH 34/44] fix: copies of a state evaluated copies of the problem
 object, losing its counters and timings

---
 hvd/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hvd/base.py b/hvd/base.py
index de99e62..3c9fcfb 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -298,6 +298,14 @@ class State:
             obj.__dict__.update(data)
             return obj
 
+    def __deepcopy__(self, memo: dict) -> Self:
+        obj = self.__class__.__new__(self.__class__)
+        memo[id(self)] = obj
+        for name, value in self.__dict__.items():
+            # callbacks are shared: a bound method's copy would be evaluated on a copy of the problem object
+            obj.__dict__[name] = value if callable(value) else deepcopy(value, memo)
+        return obj
+
     def __getitem__(self, indices: np.ndarray) -> Self:
         """Slicing the state class
 
-- 
2.43.0


From 1dd87c5f79cbf710cb7211ec5cfd8dfcefbe7d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:16 +0000
Subject: [PATCH 35/44] fix: MMD Newton failed when the objective function
 returns integers

---
 hvd/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/base.py b/hvd/base.py
index 3c9fcfb..be33ad9 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -104,7 +104,7 @@ class State:
 
         evaluator = function if x.ndim == 1 else cls._get_batch_variant(function)
         # own, writable copy: batch variants may return read-only views of JAX buffers
-        values = np.array(evaluator(x))
+        values = np.array(evaluator(x), dtype=float)
         return values if output_shape is None else values.reshape(*prefix, *output_shape)
 
     @staticmethod
-- 
2.43.0


From 13d5955d7071757259344bf6285d429acaa5e24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 36/44] fix: refuse numbers of variables for which ZDT and CF
 problems are not defined

---
 hvd/problems/base.py |  6 ++++++
 hvd/problems/cf.py   | 10 +++++++++-
 hvd/problems/zdt.py  |  3 ++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/hvd/problems/base.py b/hvd/problems/base.py
index ed472f4..8a5780f 100644
--- a/hvd/problems/base.py
+++ b/hvd/problems/base.py
@@ -40,6 +40,12 @@ def fixed_n_var(n_var: int | None, default: int, problem_name: str) -> int:
     return default
 
 
+def require_n_var(n_var: int, minimum: int, problem_name: str) -> None:
+    """Refuse a decision-space dimension for which a problem is not defined."""
+    if n_var < minimum:
+        raise ValueError(f"{problem_name} requires n_var >= {minimum}")
+
+
 def add_boundary_constraints(
     ieq_func: JaxFunction | None,
     xl: np.ndarray,
diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index a51c8f4..eb2dafd 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -15,7 +15,7 @@ from jax.numpy import pi
 from numpy.typing import ArrayLike
 
 from ..utils import timeit
-from .base import CMOP, fixed_n_obj
+from .base import CMOP, fixed_n_obj, require_n_var
 from .uf import UF8
 
 
@@ -31,6 +31,7 @@ class CF1(CMOP):
         xu: ArrayLike = 1.0,
         boundary_constraints: bool = False,
     ) -> None:
+        require_n_var(n_var, 3, type(self).__name__)
         super().__init__(
             n_var=n_var,
             n_obj=fixed_n_obj(n_obj, self.default_n_obj, type(self).__name__),
@@ -87,6 +88,7 @@ class CF2(CMOP):
         xu: ArrayLike = 1.0,
         boundary_constraints: bool = False,
     ) -> None:
+        require_n_var(n_var, 3, type(self).__name__)
         xl = np.r_[0, np.full(n_var - 1, -1.0)] if xl is None else xl
         super().__init__(
             n_var=n_var,
@@ -144,6 +146,7 @@ class CF3(CMOP):
         xu: ArrayLike | None = None,
         boundary_constraints: bool = False,
     ) -> None:
+        require_n_var(n_var, 3, type(self).__name__)
         xl = np.r_[0, np.full(n_var - 1, -2.0)] if xl is None else xl
         xu = np.r_[1, np.full(n_var - 1, 2.0)] if xu is None else xu
         super().__init__(
@@ -195,6 +198,7 @@ class CF4(CMOP):
         xu: ArrayLike | None = None,
         boundary_constraints: bool = False,
     ) -> None:
+        require_n_var(n_var, 2, type(self).__name__)
         xl = np.r_[0, np.full(n_var - 1, -2.0)] if xl is None else xl
         xu = np.r_[1, np.full(n_var - 1, 2.0)] if xu is None else xu
         super().__init__(
@@ -256,6 +260,7 @@ class CF5(CMOP):
         xu: ArrayLike | None = None,
         boundary_constraints: bool = False,
     ) -> None:
+        require_n_var(n_var, 2, type(self).__name__)
         xl = np.r_[0, np.full(n_var - 1, -2.0)] if xl is None else xl
         xu = np.r_[1, np.full(n_var - 1, 2.0)] if xu is None else xu
         super().__init__(
@@ -320,6 +325,7 @@ class CF6(CMOP):
         xu: ArrayLike | None = None,
         boundary_constraints: bool = False,
     ) -> None:
+        require_n_var(n_var, 4, type(self).__name__)
         xl = np.r_[0, np.full(n_var - 1, -2.0)] if xl is None else xl
         xu = np.r_[1, np.full(n_var - 1, 2.0)] if xu is None else xu
         super().__init__(
@@ -385,6 +391,7 @@ class CF7(CMOP):
         xu: ArrayLike | None = None,
         boundary_constraints: bool = False,
     ) -> None:
+        require_n_var(n_var, 4, type(self).__name__)
         xl = np.r_[0, np.full(n_var - 1, -2.0)] if xl is None else xl
         xu = np.r_[1, np.full(n_var - 1, 2.0)] if xu is None else xu
         super().__init__(
@@ -539,6 +546,7 @@ class CF10(CMOP):
         xu: ArrayLike | None = None,
         boundary_constraints: bool = False,
     ) -> None:
+        require_n_var(n_var, 5, type(self).__name__)
         xl = np.r_[0, 0, np.full(n_var - 2, -2.0)] if xl is None else xl
         xu = np.r_[1, 1, np.full(n_var - 2, 2.0)] if xu is None else xu
         super().__init__(
diff --git a/hvd/problems/zdt.py b/hvd/problems/zdt.py
index 4519195..81f824a 100644
--- a/hvd/problems/zdt.py
+++ b/hvd/problems/zdt.py
@@ -4,7 +4,7 @@ import jax.numpy as jnp
 import numpy as np
 from numpy.typing import ArrayLike
 
-from .base import MOP, fixed_n_obj
+from .base import MOP, fixed_n_obj, require_n_var
 
 _EPS = 1e-12
 
@@ -19,6 +19,7 @@ class ZDT(MOP):
         xl: ArrayLike = 0.0,
         xu: ArrayLike = 1.0,
     ) -> None:
+        require_n_var(n_var, 2, type(self).__name__)
         super().__init__(
             n_var=n_var,
             n_obj=fixed_n_obj(n_obj, self.default_n_obj, type(self).__name__),
-- 
2.43.0


From 4d9af237cc3f550d39f2660206f4ba7f9a93d753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 37/44] fix: refuse DTLZ problems with fewer variables than
 objectives

---
 hvd/problems/dtlz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/problems/dtlz.py b/hvd/problems/dtlz.py
index 860e91a..8220af4 100644
--- a/hvd/problems/dtlz.py
+++ b/hvd/problems/dtlz.py
@@ -25,6 +25,8 @@ class _DTLZ(CMOP):
         alpha: float = 1,
     ):
         n_var = n_var if n_var is not None else n_obj + 8
+        if n_var < n_obj:
+            raise ValueError(f"{type(self).__name__} requires n_var >= n_obj")
         self.k: int = n_var - n_obj + 1
         self.scale: float = scale
         self.alpha: float = alpha
-- 
2.43.0


From 753c8c1817b0415a230a802c97d8d89577a77637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 38/44] fix: DTLZ5 and DTLZ6 evaluate with a single objective

---
 hvd/problems/dtlz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/dtlz.py b/hvd/problems/dtlz.py
index 8220af4..acfad59 100644
--- a/hvd/problems/dtlz.py
+++ b/hvd/problems/dtlz.py
@@ -123,7 +123,7 @@ class DTLZ4(DTLZ2):
 class DTLZ5(_DTLZ):
     def _transform_x(self, x: jnp.ndarray, g: jnp.ndarray) -> Tuple[jnp.ndarray, jnp.ndarray]:
         theta = (1 + 2 * g * x) / (2 * (1 + g))
-        theta = jnp.r_[x[0], theta[1:]]
+        theta = jnp.r_[x[:1], theta[1:]]
         return jnp.cos(theta * jnp.pi / 2), jnp.sin(theta * jnp.pi / 2)
 
     def get_pareto_front(self):
-- 
2.43.0


From 1438a92133f7a061293bfdd6811b35e2e5c21e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 39/44] fix: the Pareto front of a scaled DTLZ2 problem is
 scaled too

---
 hvd/problems/dtlz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/dtlz.py b/hvd/problems/dtlz.py
index acfad59..b7416b2 100644
--- a/hvd/problems/dtlz.py
+++ b/hvd/problems/dtlz.py
@@ -93,7 +93,7 @@ class DTLZ1(_DTLZ):
 class DTLZ2(_DTLZ):
     def get_pareto_front(self, **kwargs) -> np.ndarray:
         ref_dirs = get_ref_dirs(self.n_obj)
-        return generic_sphere(ref_dirs)
+        return self.scale * generic_sphere(ref_dirs)
 
 
 class DTLZ3(DTLZ2):
-- 
2.43.0


From 63391ecb84947c309c1fd03eeceffa85ed886bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:52 +0000
Subject: [PATCH 40/44] fix: only one member of a population larger than its
 merged reference set was kept

---
 scripts/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/utils.py b/scripts/utils.py
index 57d2c67..6cd97cc 100644
--- a/scripts/utils.py
+++ b/scripts/utils.py
@@ -100,7 +100,7 @@ def read_reference_set_data(
         eta = None
         # ensure the number of approximation points is less than the number of reference points
         if len(ref[0]) < len(y0):
-            n = len(ref)
+            n = len(ref[0])
             x0 = x0[:n]
             y0 = y0[:n]
             Y_label = Y_label[:n]
-- 
2.43.0


From 30540957ea6796946ce0f52cb052eb3127d8df6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:52 +0000
Subject: [PATCH 41/44] fix: reading reference sets without a shift direction
 for the first component failed

---
 scripts/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/utils.py b/scripts/utils.py
index 6cd97cc..9f0274d 100644
--- a/scripts/utils.py
+++ b/scripts/utils.py
@@ -64,7 +64,7 @@ def read_reference_set_data(
                 f"{path}/{problem_name}_{emoa}_run_{run}_eta_{i+1}_gen{gen}.csv", header=None
             ).values.ravel()
         except:
-            if i > 0 and eta[i - 1] is not None:  # copy the shift direction from the last cluster
+            if eta is not None and eta.get(i - 1) is not None:  # copy the shift direction from the last cluster
                 eta[i] = eta[i - 1]
             else:
                 eta = None
-- 
2.43.0


From 60335b0c5663f6d26335ce2388e632c8c9ecf915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:59 +0000
Subject: [PATCH 42/44] fix: everything was computed in single precision when
 jax was imported before this package

---
 hvd/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hvd/__init__.py b/hvd/__init__.py
index 1c46177..2fd8383 100644
--- a/hvd/__init__.py
+++ b/hvd/__init__.py
@@ -4,6 +4,11 @@ import os
 # import so direct imports such as ``hvd.mmd`` and ``hvd.problems`` agree.
 os.environ["JAX_ENABLE_X64"] = "True"
 
+import jax
+
+# The setting above comes too late if JAX was imported before this package.
+jax.config.update("jax_enable_x64", True)
+
 from .delta_p import GenerationalDistance, InvertedGenerationalDistance
 from .hypervolume_derivatives import HypervolumeDerivatives
 from .newton import HVN, DpN
-- 
2.43.0


From 8a3a5f8bccbcf91302605838983d8ab64a49e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:23 +0000
Subject: [PATCH 43/44] fix: automatic derivatives of the hypervolume follow a
 changed reference point

---
 hvd/hypervolume_derivatives.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index c93a544..6f33772 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -78,9 +78,6 @@ class HypervolumeDerivatives:
         self.hessian = hessian if minimization else lambda x: -1 * hessian(x)
         self.minimization = minimization
         self.ref = ref
-        # compute those when needed for the first time
-        self._HV_Jac: callable = None
-        self._HV_Hessian: callable = None
 
     @property
     def ref(self):
@@ -91,6 +88,9 @@ class HypervolumeDerivatives:
         if not isinstance(r, np.ndarray):
             r = np.asarray(r)
         self._ref = r if self.minimization else -1 * r
+        # those depend on the reference point; compute them when needed for the first time
+        self._HV_Jac: callable = None
+        self._HV_Hessian: callable = None
 
     @property
     def objective_points(self):
-- 
2.43.0


From ec784312c57f9efcdd30dc05eb42e81eb9d1a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:11 +0000
Subject: [PATCH 44/44] fix: let the matched MMD's derivatives follow a changed
 beta

The jitted derivative functions read self.beta when they are traced, so after
the weight of the spread term is changed (as bootstrapping does after every
round, and the examples do before the first one) compute() used the new weight
while the gradient and Hessian kept the old one.
---
 hvd/mmd.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hvd/mmd.py b/hvd/mmd.py
index 138568c..289fa31 100644
--- a/hvd/mmd.py
+++ b/hvd/mmd.py
@@ -301,11 +301,11 @@ class MMDMatching:
         pairwise_dx = vmap(vmap(self.k_dx, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx = vmap(self.k_dx)
 
-        def gradient(Y, matched_reference_set):
+        def gradient(Y, matched_reference_set, beta):
             yy_dx = pairwise_dx(Y, Y)
             yy_dx = yy_dx.sum(axis=1) - jnp.einsum("iij->ij", yy_dx)
             return 2 * (
-                self.beta * yy_dx / len(Y) ** 2
+                beta * yy_dx / len(Y) ** 2
                 - matched_dx(Y, matched_reference_set) / len(Y)
             )
 
@@ -316,15 +316,15 @@ class MMDMatching:
         pairwise_dxdy = vmap(vmap(self.k_dxdy, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx2 = vmap(self.k_dx2)
 
-        def hessian(Y, matched_reference_set):
+        def hessian(Y, matched_reference_set, beta):
             N = len(Y)
             yy_dx2 = pairwise_dx2(Y, Y)
             indices = jnp.arange(N)
             diagonal = 2 * (
-                self.beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
+                beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
                 - matched_dx2(Y, matched_reference_set) / N
             )
-            blocks = 2 * self.beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
+            blocks = 2 * beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
             return blocks.at[indices, indices].set(diagonal)
 
         return hessian
@@ -392,7 +392,7 @@ class MMDMatching:
         Y, YdX, YdX2 = self._compute_objective_derivatives(X, Y, jacobian, compute_hessian=False)
         self.ref.match(Y)  # matching `Y` to the medoids of the reference set
         MMDdY = np.asarray(
-            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdX = np.einsum("ijk,ij->ik", YdX, MMDdY)
         return dict(MMDdX=MMDdX, MMDdY=MMDdY, Y=Y, YdX=YdX, YdX2=YdX2)
@@ -413,7 +413,7 @@ class MMDMatching:
         YdX2 = np.array([self.hessian(x) for x in self._check_X(X)])
         N, dim_y = Y.shape
         MMDdY2_blocks = np.asarray(
-            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdY2 = MMDdY2_blocks.transpose(0, 2, 1, 3).reshape(N * dim_y, N * dim_y)
         MMDdX2 = np.asarray(
-- 
2.43.0

