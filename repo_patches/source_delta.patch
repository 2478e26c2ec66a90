From 8c0b596f7f0fae28a8f8030cb6410ad1d0e7bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:34 +0000
Subject: [PATCH 01/16] fix: keep residual vector in sync with assignments
 after rejected steps

When Levenberg-Marquardt or dogleg rejected a step, they kept the old
assignments and cost but stored the residual vector of the rejected
proposal. The next iteration then linearized with the wrong residuals, and
could accept steps that increase the cost.
---
 jaxfg/solvers/_dogleg_solver.py              | 8 ++++++--
 jaxfg/solvers/_levenberg_marquardt_solver.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/jaxfg/solvers/_dogleg_solver.py b/jaxfg/solvers/_dogleg_solver.py
index 232e1f0..1d76a1c 100644
--- a/jaxfg/solvers/_dogleg_solver.py
+++ b/jaxfg/solvers/_dogleg_solver.py
@@ -130,7 +130,9 @@ class DoglegSolver(
         assignments_proposed = state_prev.assignments.manifold_retract(
             local_delta_assignments=local_delta_assignments
         )
-        proposed_cost, residual_vector = graph.compute_cost(assignments_proposed)
+        proposed_cost, proposed_residual_vector = graph.compute_cost(
+            assignments_proposed
+        )
         step_quality = self.compute_step_quality(
             A=A,
             proposed_cost=proposed_cost,
@@ -183,6 +185,8 @@ class DoglegSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, proposed_residual_vector, state_prev.residual_vector
+            ),  # Must stay consistent with the assignments + cost
             done=done,
         )
diff --git a/jaxfg/solvers/_levenberg_marquardt_solver.py b/jaxfg/solvers/_levenberg_marquardt_solver.py
index 0ae2be7..24f4259 100644
--- a/jaxfg/solvers/_levenberg_marquardt_solver.py
+++ b/jaxfg/solvers/_levenberg_marquardt_solver.py
@@ -90,7 +90,9 @@ class LevenbergMarquardtSolver(
         assignments_proposed = state_prev.assignments.manifold_retract(
             local_delta_assignments=local_delta_assignments
         )
-        proposed_cost, residual_vector = graph.compute_cost(assignments_proposed)
+        proposed_cost, proposed_residual_vector = graph.compute_cost(
+            assignments_proposed
+        )
         accept_flag = (
             self.compute_step_quality(
                 A=A,
@@ -147,6 +149,8 @@ class LevenbergMarquardtSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, proposed_residual_vector, state_prev.residual_vector
+            ),  # Must stay consistent with the assignments + cost
             done=done,
         )
-- 
2.43.0


From 9852de0c5bea91f0a004b25aaab4e11dc3d144d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:34 +0000
Subject: [PATCH 02/16] fix: use infinity norm in gradient tolerance check

The documented criterion is an infinity norm, but the absolute value was
missing. Any iterate whose update direction was non-negative in every
coordinate was reported as converged.
---
 jaxfg/solvers/_mixins.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/jaxfg/solvers/_mixins.py b/jaxfg/solvers/_mixins.py
index af3a70e..cea6b37 100644
--- a/jaxfg/solvers/_mixins.py
+++ b/jaxfg/solvers/_mixins.py
@@ -76,13 +76,15 @@ class _TerminationCriteriaMixin:
         converged_gradient = jnp.where(
             state_prev.iterations >= self.gradient_tolerance_start_step,
             jnp.max(
-                state_prev.assignments.storage
-                - state_prev.assignments.manifold_retract(
-                    VariableAssignments(
-                        storage=negative_gradient,
-                        storage_layout=local_delta_assignments.storage_layout,
-                    ),
-                ).storage
+                jnp.abs(
+                    state_prev.assignments.storage
+                    - state_prev.assignments.manifold_retract(
+                        VariableAssignments(
+                            storage=negative_gradient,
+                            storage_layout=local_delta_assignments.storage_layout,
+                        ),
+                    ).storage
+                )
             )
             < self.gradient_tolerance,
             False,
-- 
2.43.0


From 4d7142125f1cf5c9d822ffa1385ec13f30462efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:34 +0000
Subject: [PATCH 03/16] fix: match variables with their own deltas in
 manifold_retract

Deltas were paired with values by position. When the two storage layouts
ordered variables of a type differently, each variable was moved by another
variable's delta. This made FixedIterationGaussNewtonSolver diverge when the
initial assignments were not in the order expected by the graph.
---
 jaxfg/core/_variable_assignments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jaxfg/core/_variable_assignments.py b/jaxfg/core/_variable_assignments.py
index 892c7ef..0d72363 100644
--- a/jaxfg/core/_variable_assignments.py
+++ b/jaxfg/core/_variable_assignments.py
@@ -186,6 +186,12 @@ class VariableAssignments:
         assert not self.storage_layout.local_flag
         assert local_delta_assignments.storage_layout.local_flag
 
+        # Resolve storage layout mismatches: variables of the same type may be ordered
+        # differently in the two layouts.
+        local_delta_assignments = local_delta_assignments.update_storage_layout(
+            StorageLayout.make(self.get_variables(), local=True)
+        )
+
         # On-manifold retractions, one variable type at a time!
         new_storage = jnp.zeros_like(self.storage)
         variable_type: Type[VariableBase]
-- 
2.43.0


From d3fc5b3e377560d83f80e9e96d13cd12d36bc70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:34 +0000
Subject: [PATCH 04/16] fix: sum repeated coordinates in
 SparseCooMatrix.as_dense

Matrix products and the scipy conversion add up entries that share a
coordinate, but the dense conversion kept only one of them. Repeated
coordinates occur when a factor is connected to the same variable twice.
---
 jaxfg/sparse/_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_sparse_matrix.py b/jaxfg/sparse/_sparse_matrix.py
index e552a04..cbfd6a2 100644
--- a/jaxfg/sparse/_sparse_matrix.py
+++ b/jaxfg/sparse/_sparse_matrix.py
@@ -53,7 +53,7 @@ class SparseCooMatrix:
         return (
             jnp.zeros(self.shape)
             .at[self.coords.rows, self.coords.cols]
-            .set(self.values)
+            .add(self.values)
         )
 
     @staticmethod
-- 
2.43.0


From 21434f4533159ad46ea324315ad5813e4c5697ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:34 +0000
Subject: [PATCH 05/16] fix: do not truncate sparse products with integer
 vectors

The accumulator used the dtype of the right-hand side, so multiplying by an
integer vector dropped the fractional part of every product.
---
 jaxfg/sparse/_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_sparse_matrix.py b/jaxfg/sparse/_sparse_matrix.py
index cbfd6a2..21fb316 100644
--- a/jaxfg/sparse/_sparse_matrix.py
+++ b/jaxfg/sparse/_sparse_matrix.py
@@ -42,7 +42,7 @@ class SparseCooMatrix:
             self.shape[1],
         ), "Inner product only supported for 1D vectors!"
         return (
-            jnp.zeros(self.shape[0], dtype=other.dtype)
+            jnp.zeros(self.shape[0], dtype=jnp.result_type(self.values, other))
             .at[self.coords.rows]
             .add(self.values * other[self.coords.cols])
         )
-- 
2.43.0


From 1b55104cfbffb5f9b89825743ac2b2935b6fd52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:34 +0000
Subject: [PATCH 06/16] fix: scale Huber Jacobians by the same factor as
 residuals

whiten_jacobian() receives the residual vector after whitening and Huber
scaling, but computed its weight as if the vector were unscaled. Residuals
were scaled by w and Jacobians only by sqrt(w), so optimization did not
converge to the minimum of the Huber loss.
---
 jaxfg/noises/_huber.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaxfg/noises/_huber.py b/jaxfg/noises/_huber.py
index c793cb0..1914c5f 100644
--- a/jaxfg/noises/_huber.py
+++ b/jaxfg/noises/_huber.py
@@ -43,9 +43,12 @@ class HuberWrapper(NoiseModelBase):
     ) -> hints.Array:
         jacobian = self.wrapped.whiten_jacobian(jacobian, residual_vector)
 
+        # The residual vector we receive has already been whitened and rescaled: for
+        # outliers, its norm is `sqrt(delta * original norm)`. We want to apply the same
+        # `sqrt(delta / original norm)` factor that was applied to the residual.
         residual_norm = jnp.linalg.norm(residual_vector)
         return jnp.where(
             residual_norm < self.delta,
             jacobian,
-            jacobian * jnp.sqrt(self.delta / residual_norm),
+            jacobian * (self.delta / residual_norm),
         )
-- 
2.43.0


From 575127e191987f478bee64d04b90453fb37b5ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:34 +0000
Subject: [PATCH 07/16] fix: key the CHOLMOD analysis cache on the sparsity
 pattern

The cached symbolic analysis was looked up by solver identity only. Two
graphs with the same variables and factor types but different connectivity
share one compiled solver, so the second one was factorized with the
analysis of the first. Depending on problem size this raised an error or
silently returned a wrong solution.
---
 jaxfg/sparse/_linear_solve.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/jaxfg/sparse/_linear_solve.py b/jaxfg/sparse/_linear_solve.py
index fd7f68d..679d8c6 100644
--- a/jaxfg/sparse/_linear_solve.py
+++ b/jaxfg/sparse/_linear_solve.py
@@ -42,8 +42,6 @@ class CholmodSolver(LinearSubproblemSolverBase):
     reasons, but also less stable than `ConjugateGradientSolver`.
 
     Runs via an XLA host callback, and has some usage caveats:
-    - Caching is a little bit sketchy. Assumes that a given solver is not reused for
-      systems with different sparsity patterns.
     - Does not support function transforms (`vmap`, `pmap`, etc), due to current
       limitations of `hcb.call()`.
     - Does not support autodiff. A custom JVP or VJP definition should be easy to
@@ -74,18 +72,24 @@ class CholmodSolver(LinearSubproblemSolverBase):
         A_T = args.A.T
         A_T_scipy = A_T.as_scipy_coo_matrix().tocsc(copy=False)
 
-        # Cache sparsity pattern analysis
-        self_hash = object.__hash__(self)
-        if self_hash not in _cholmod_analyze_cache:
-            _cholmod_analyze_cache[self_hash] = sksparse.cholmod.analyze_AAt(A_T_scipy)
+        # Cache sparsity pattern analysis. The pattern itself has to be part of the key:
+        # graphs with different connectivities can share a compiled solver.
+        cache_key = (
+            object.__hash__(self),
+            A_T_scipy.shape,
+            A_T_scipy.indptr.tobytes(),
+            A_T_scipy.indices.tobytes(),
+        )
+        if cache_key not in _cholmod_analyze_cache:
+            _cholmod_analyze_cache[cache_key] = sksparse.cholmod.analyze_AAt(A_T_scipy)
 
         # Factorize and solve
-        _cholmod_analyze_cache[self_hash].cholesky_AAt_inplace(
+        _cholmod_analyze_cache[cache_key].cholesky_AAt_inplace(
             A_T_scipy,
             beta=args.lambd
             + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
         )
-        return _cholmod_analyze_cache[self_hash].solve_A(args.ATb)
+        return _cholmod_analyze_cache[cache_key].solve_A(args.ATb)
 
 
 class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):
-- 
2.43.0


From e9e8c98bb58973944e7e78bf462116fe44730688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:34 +0000
Subject: [PATCH 08/16] fix: avoid NaNs in CG solver when a Jacobian column is
 zero

The Jacobi preconditioner divided by the diagonal of A^T A. A variable with
a zero Jacobian column turned the whole solution into NaNs.
---
 jaxfg/sparse/_linear_solve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_linear_solve.py b/jaxfg/sparse/_linear_solve.py
index 679d8c6..2f03e30 100644
--- a/jaxfg/sparse/_linear_solve.py
+++ b/jaxfg/sparse/_linear_solve.py
@@ -124,7 +124,8 @@ class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):
             # return ATAx + lambd * x
 
         def jacobi_preconditioner(x):
-            return x / ATA_diagonals
+            # Columns without any nonzero entries are left unscaled
+            return x / jnp.where(ATA_diagonals == 0.0, 1.0, ATA_diagonals)
 
         # Solve with conjugate gradient
         solution_values, _unused_info = jax.scipy.sparse.linalg.cg(
-- 
2.43.0


From 6fd0b00647b7bde6e8c5a19d6dde0cf3d6811818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:58 +0000
Subject: [PATCH 09/16] fix: undo the CHOLMOD permutation when recovering
 covariances

The Cholesky factor is computed for a reordered system, but its rows and
columns were read as if they were in storage order. Marginals were returned
for the wrong variables whenever the fill-reducing ordering was not the
identity.
---
 jaxfg/experimental/_sparse_covariance.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/jaxfg/experimental/_sparse_covariance.py b/jaxfg/experimental/_sparse_covariance.py
index cd895b4..210d6b5 100644
--- a/jaxfg/experimental/_sparse_covariance.py
+++ b/jaxfg/experimental/_sparse_covariance.py
@@ -21,6 +21,10 @@ class SparseCovariance:
     L_diag_inv: onp.ndarray
     local_storage_layout: core.StorageLayout
 
+    permuted_indices: onp.ndarray
+    """Where each local storage index ended up in `L`. CHOLMOD applies a fill-reducing
+    permutation before factorizing."""
+
     _value_cache: Dict[Tuple[int, int], float]
 
     @staticmethod
@@ -38,13 +42,13 @@ class SparseCovariance:
             .T.as_scipy_coo_matrix()
             .tocsc(copy=False)
         )
-        sqrt_information_matrix: scipy.sparse.csc_matrix = (
-            sksparse.cholmod.cholesky_AAt(A=A).L()
-        )
+        factor = sksparse.cholmod.cholesky_AAt(A=A)
+        sqrt_information_matrix: scipy.sparse.csc_matrix = factor.L()
         return SparseCovariance(
             L=sqrt_information_matrix,
             L_diag_inv=1.0 / sqrt_information_matrix.diagonal(),
             local_storage_layout=graph.local_storage_layout,
+            permuted_indices=onp.argsort(factor.P()),
             _value_cache={},
         )
 
@@ -53,7 +57,9 @@ class SparseCovariance:
         debugging in small problems."""
         if use_inverse:
             L_inv = onp.linalg.inv(self.L.todense())
-            return L_inv.T @ L_inv
+            return (L_inv.T @ L_inv)[
+                onp.ix_(self.permuted_indices, self.permuted_indices)
+            ]
         else:
             return self._compute_marginal(range(self.local_storage_layout.dim))
 
@@ -85,6 +91,13 @@ class SparseCovariance:
 
     def __getitem__(self, indices: Tuple[int, int]) -> float:
         """Get a single value in our sparse covariance matrix."""
+        row, col = indices
+        return self._get_permuted(
+            (self.permuted_indices[row], self.permuted_indices[col])
+        )
+
+    def _get_permuted(self, indices: Tuple[int, int]) -> float:
+        """Get a single covariance value, using indices in the ordering of `L`."""
 
         # Enforce symmetry
         if indices[0] > indices[1]:
@@ -116,6 +129,6 @@ class SparseCovariance:
         val: float
         for row, val in zip(column.indices, column.data):
             if col != row:  # Skip diagonal
-                total += val * self[row, col_l]
+                total += val * self._get_permuted((row, col_l))
 
         return total
-- 
2.43.0


From 66796e524f3c1830d4d09bc8a2f6fd00a0c487b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:04 +0000
Subject: [PATCH 10/16] fix: avoid recursion limit when recovering covariances
 of large graphs

---
 jaxfg/experimental/_sparse_covariance.py | 52 ++++++++++++++++--------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/jaxfg/experimental/_sparse_covariance.py b/jaxfg/experimental/_sparse_covariance.py
index 210d6b5..2c3b57c 100644
--- a/jaxfg/experimental/_sparse_covariance.py
+++ b/jaxfg/experimental/_sparse_covariance.py
@@ -104,22 +104,42 @@ class SparseCovariance:
             indices = indices[::-1]
         row, col = indices
 
-        # Use cached value if available
-        if indices in self._value_cache:
-            return self._value_cache[indices]
-
-        # Compute covariance value from square-root information matrix
-        value: float
-
-        if row == col:
-            value = self.L_diag_inv[col] * (
-                self.L_diag_inv[col] - self._sum_over_col(col, col)
-            )
-        else:
-            value = -self.L_diag_inv[row] * self._sum_over_col(row, col)
-
-        self._value_cache[indices] = value
-        return value
+        # Values can depend on long chains of other ones. We use an explicit stack for
+        # these, because recursing would hit the recursion limit for larger graphs.
+        stack = [indices]
+        while len(stack) > 0:
+            row, col = stack[-1]
+
+            # Use cached value if available
+            if (row, col) in self._value_cache:
+                stack.pop()
+                continue
+
+            # Make sure that everything we depend on has been computed
+            missing = [
+                key
+                for key in (
+                    (min(i, col), max(i, col))
+                    for i in self.L.getcol(row).indices
+                    if i != row
+                )
+                if key not in self._value_cache
+            ]
+            if len(missing) > 0:
+                stack.extend(missing)
+                continue
+
+            # Compute covariance value from square-root information matrix
+            value: float
+            if row == col:
+                value = self.L_diag_inv[col] * (
+                    self.L_diag_inv[col] - self._sum_over_col(col, col)
+                )
+            else:
+                value = -self.L_diag_inv[row] * self._sum_over_col(row, col)
+            self._value_cache[(row, col)] = value
+
+        return self._value_cache[indices]
 
     def _sum_over_col(self, col: int, col_l: int) -> float:
         column: scipy.sparse.csc_matrix = self.L.getcol(col)
-- 
2.43.0


From 7d52a62f4d0a42f9bc3cce37cec64a27c3649c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:27 +0000
Subject: [PATCH 11/16] fix: treat include_constants as static when computing
 the joint NLL

---
 jaxfg/core/_stacked_factor_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/core/_stacked_factor_graph.py b/jaxfg/core/_stacked_factor_graph.py
index f7ed223..bee2a37 100644
--- a/jaxfg/core/_stacked_factor_graph.py
+++ b/jaxfg/core/_stacked_factor_graph.py
@@ -175,7 +175,7 @@ class StackedFactorGraph:
     def compute_joint_nll(
         self,
         assignments: VariableAssignments,
-        include_constants: bool = False,
+        include_constants: jdc.Static[bool] = False,
     ) -> jnp.ndarray:
         """Compute the joint negative log-likelihood density associated with a set of
         variable assignments. Assumes Gaussian noise models.
-- 
2.43.0


From fb8c290fe575294443b37bfd433764454a4674b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:02 +0000
Subject: [PATCH 12/16] fix: keep assignments built from integer values in
 floating point

---
 jaxfg/core/_variable_assignments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jaxfg/core/_variable_assignments.py b/jaxfg/core/_variable_assignments.py
index 0d72363..39132a4 100644
--- a/jaxfg/core/_variable_assignments.py
+++ b/jaxfg/core/_variable_assignments.py
@@ -43,6 +43,9 @@ class VariableAssignments:
         )
         assert storage.shape == (storage_layout.dim,)
 
+        # Integer storage would truncate any values that are assigned to it later
+        storage = storage.astype(jnp.result_type(storage, float))
+
         return VariableAssignments(storage=storage, storage_layout=storage_layout)
 
     @staticmethod
@@ -80,6 +83,9 @@ class VariableAssignments:
         )
         assert storage.shape == (storage_layout.dim,)
 
+        # Integer storage would truncate any values that are assigned to it later
+        storage = storage.astype(jnp.result_type(storage, float))
+
         return VariableAssignments(storage=storage, storage_layout=storage_layout)
 
     @jdc.jit
-- 
2.43.0


From 5c509493807467c78e860aa8743612c7ef57799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:55 +0000
Subject: [PATCH 13/16] fix: avoid overflow of determinants in the joint NLL

Precisions of residuals with many dimensions were multiplied before taking the
logarithm. The product left the range of single precision, eg for 20 dimensions
with a standard deviation of 0.01, and the likelihood became infinite.
---
 jaxfg/core/_stacked_factor_graph.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/jaxfg/core/_stacked_factor_graph.py b/jaxfg/core/_stacked_factor_graph.py
index bee2a37..2c83ac2 100644
--- a/jaxfg/core/_stacked_factor_graph.py
+++ b/jaxfg/core/_stacked_factor_graph.py
@@ -198,23 +198,20 @@ class StackedFactorGraph:
         for stacked_factor in self.factor_stacks:
             noise_model = stacked_factor.factor.noise_model
             if isinstance(noise_model, noises.Gaussian):
-                cov_determinants = -2.0 * jnp.log(
-                    jnp.abs(
-                        jnp.linalg.det(
-                            cast(noises.Gaussian, noise_model).sqrt_precision_matrix
-                        )
-                    )
+                _, log_determinants = jnp.linalg.slogdet(
+                    cast(noises.Gaussian, noise_model).sqrt_precision_matrix
                 )
+                cov_determinants = -2.0 * log_determinants
             elif isinstance(noise_model, noises.DiagonalGaussian):
-                cov_determinants = -2.0 * jnp.log(
-                    jnp.abs(
-                        jnp.prod(
+                cov_determinants = -2.0 * jnp.sum(
+                    jnp.log(
+                        jnp.abs(
                             cast(
                                 noises.DiagonalGaussian, noise_model
-                            ).sqrt_precision_diagonal,
-                            axis=-1,
+                            ).sqrt_precision_diagonal
                         )
-                    )
+                    ),
+                    axis=-1,
                 )
             else:
                 assert False, f"Joint NLL not supported  for {type(noise_model)}"
-- 
2.43.0


From 39a26beef5ae89517a778bc5d2a870024c858b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:24 +0000
Subject: [PATCH 14/16] fix: normalize the right-hand side of CG solves

Squared norms of right-hand sides around 1e-18 underflow in single precision.
The solver then divided zero by zero, and solutions of problems that were
already solved turned into NaNs.
---
 jaxfg/sparse/_linear_solve.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jaxfg/sparse/_linear_solve.py b/jaxfg/sparse/_linear_solve.py
index 2f03e30..beca63d 100644
--- a/jaxfg/sparse/_linear_solve.py
+++ b/jaxfg/sparse/_linear_solve.py
@@ -127,10 +127,15 @@ class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):
             # Columns without any nonzero entries are left unscaled
             return x / jnp.where(ATA_diagonals == 0.0, 1.0, ATA_diagonals)
 
+        # Normalize the right-hand side: squared norms of small ones underflow
+        scale = jax.lax.stop_gradient(jnp.max(jnp.abs(ATb), initial=0.0))
+        tiny = jnp.finfo(jnp.result_type(float)).tiny
+        scale = jnp.where(scale < tiny, 1.0, scale)
+
         # Solve with conjugate gradient
         solution_values, _unused_info = jax.scipy.sparse.linalg.cg(
             A=ATA_function,
-            b=ATb,
+            b=ATb / scale,
             x0=initial_x,
             maxiter=len(
                 initial_x
@@ -138,7 +143,7 @@ class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):
             tol=self._get_cg_tolerance(iteration),
             M=jacobi_preconditioner,
         )
-        return solution_values
+        return scale * solution_values
 
 
 @jdc.pytree_dataclass
-- 
2.43.0


From 97ba67baee9b24b36e34b5d17a2a9dcc8e218b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:33 +0000
Subject: [PATCH 15/16] fix: keep gradients through conjugate gradients finite

Differentiating an unrolled solver in reverse mode solves further linear systems
whose right-hand sides get tiny. Only the first right-hand side was normalized, so
the others underflowed and the gradient became NaN. All of them are normalized now.
---
 jaxfg/sparse/_linear_solve.py | 40 ++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/jaxfg/sparse/_linear_solve.py b/jaxfg/sparse/_linear_solve.py
index beca63d..dab40e0 100644
--- a/jaxfg/sparse/_linear_solve.py
+++ b/jaxfg/sparse/_linear_solve.py
@@ -1,5 +1,5 @@
 import abc
-from typing import Dict, Hashable, NamedTuple
+from typing import Callable, Dict, Hashable, NamedTuple
 
 import jax
 import jax.experimental.host_callback as hcb
@@ -127,23 +127,29 @@ class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):
             # Columns without any nonzero entries are left unscaled
             return x / jnp.where(ATA_diagonals == 0.0, 1.0, ATA_diagonals)
 
-        # Normalize the right-hand side: squared norms of small ones underflow
-        scale = jax.lax.stop_gradient(jnp.max(jnp.abs(ATb), initial=0.0))
-        tiny = jnp.finfo(jnp.result_type(float)).tiny
-        scale = jnp.where(scale < tiny, 1.0, scale)
-
-        # Solve with conjugate gradient
-        solution_values, _unused_info = jax.scipy.sparse.linalg.cg(
-            A=ATA_function,
-            b=ATb / scale,
-            x0=initial_x,
-            maxiter=len(
-                initial_x
-            ),  # https://en.wikipedia.org/wiki/Conjugate_gradient_method#Convergence_properties
-            tol=self._get_cg_tolerance(iteration),
-            M=jacobi_preconditioner,
+        def conjugate_gradient(matvec: Callable, b: hints.Array) -> jnp.ndarray:
+            # Normalize the right-hand side: squared norms of small ones underflow
+            scale = jnp.max(jnp.abs(b), initial=0.0)
+            tiny = jnp.finfo(jnp.result_type(float)).tiny
+            scale = jnp.where(scale < tiny, 1.0, scale)
+
+            solution_values, _unused_info = jax.scipy.sparse.linalg.cg(
+                A=matvec,
+                b=b / scale,
+                x0=initial_x,
+                maxiter=len(
+                    initial_x
+                ),  # https://en.wikipedia.org/wiki/Conjugate_gradient_method#Convergence_properties
+                tol=self._get_cg_tolerance(iteration),
+                M=jacobi_preconditioner,
+            )
+            return scale * solution_values
+
+        # Solve with conjugate gradient. The systems that differentiation leads to are
+        # solved (and normalized) in the same way
+        return jax.lax.custom_linear_solve(
+            ATA_function, ATb, solve=conjugate_gradient, symmetric=True
         )
-        return scale * solution_values
 
 
 @jdc.pytree_dataclass
-- 
2.43.0


From 5bf7019dafe97d3609c083b75300ca4049f33a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:28:18 +0000
Subject: [PATCH 16/16] fix: take no step when solvers are limited to zero
 iterations

The looped solvers always took one step, even with a limit of zero
iterations, while unrolled solvers took none.  The limit is now applied
before the first step, too.
---
 jaxfg/solvers/_dogleg_solver.py                       | 2 +-
 jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py | 2 +-
 jaxfg/solvers/_gauss_newton_solver.py                 | 2 +-
 jaxfg/solvers/_levenberg_marquardt_solver.py          | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/jaxfg/solvers/_dogleg_solver.py b/jaxfg/solvers/_dogleg_solver.py
index 1d76a1c..4501c09 100644
--- a/jaxfg/solvers/_dogleg_solver.py
+++ b/jaxfg/solvers/_dogleg_solver.py
@@ -43,7 +43,7 @@ class DoglegSolver(
             assignments=initial_assignments,
             cost=cost,
             residual_vector=residual_vector,
-            done=False,
+            done=jnp.asarray(self.max_iterations) <= 0,
             radius=self.radius_initial,
         )
 
diff --git a/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py b/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py
index 88903e1..8799c3e 100644
--- a/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py
+++ b/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py
@@ -36,7 +36,7 @@ class FixedIterationGaussNewtonSolver(NonlinearSolverBase[NonlinearSolverState])
             assignments=initial_assignments,
             cost=cost,
             residual_vector=residual_vector,
-            done=False,
+            done=self.iterations <= 0,
         )
 
     @overrides
diff --git a/jaxfg/solvers/_gauss_newton_solver.py b/jaxfg/solvers/_gauss_newton_solver.py
index 34dc91e..db01fcb 100644
--- a/jaxfg/solvers/_gauss_newton_solver.py
+++ b/jaxfg/solvers/_gauss_newton_solver.py
@@ -31,7 +31,7 @@ class GaussNewtonSolver(
             assignments=initial_assignments,
             cost=cost,
             residual_vector=residual_vector,
-            done=False,
+            done=jnp.asarray(self.max_iterations) <= 0,
         )
 
     @overrides
diff --git a/jaxfg/solvers/_levenberg_marquardt_solver.py b/jaxfg/solvers/_levenberg_marquardt_solver.py
index 24f4259..6c8144b 100644
--- a/jaxfg/solvers/_levenberg_marquardt_solver.py
+++ b/jaxfg/solvers/_levenberg_marquardt_solver.py
@@ -46,7 +46,7 @@ class LevenbergMarquardtSolver(
             assignments=initial_assignments,
             cost=cost,
             residual_vector=residual_vector,
-            done=False,
+            done=jnp.asarray(self.max_iterations) <= 0,
             lambd=self.lambda_initial,
         )
 
-- 
2.43.0

