"""Sensitivity test: breaks a scratch copy of the code in many small ways and reports
which checks notice. Not part of any check.

    python3 tools/mutants.py [name-or-property ...]
"""

import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# (name, file, old, new, properties whose checks have to notice)
MUTANTS = []


def m(name, path, old, new, props):
    MUTANTS.append((name, path if path.startswith("scripts/") else "jaxfg/" + path, old, new, props.split()))


GRAPH = "core/_stacked_factor_graph.py"
STACK = "core/_factor_stack.py"
FACTOR = "core/_factor_base.py"
VARS = "core/_variables.py"
ASSIGN = "core/_variable_assignments.py"

m("key-no-shapes", GRAPH, '''                    leaf.shape if hasattr(leaf, "shape") else ()
''', '''                    len(leaf.shape) if hasattr(leaf, "shape") else ()
''', "C05")  # fmt: skip
m("row-offset", GRAPH, "residual_offset += stacked_factors[-1].get_residual_dim()",
  "residual_offset += stacked_factors[-1].num_factors", "C06")  # fmt: skip
m("cols-global", STACK, "storage_pos = local_storage_layout.index_from_variable[variable]",
  "storage_pos = local_storage_layout.index_from_variable[factor.variables[0]]", "C06")  # fmt: skip
m("value-index-first", STACK, "storage_pos = storage_layout.index_from_variable[variable]",
  "storage_pos = storage_layout.index_from_variable[factor.variables[0]]", "C05 C20")  # fmt: skip
m("relayout-residual", GRAPH, '''        assignments = assignments.update_storage_layout(self.storage_layout)

        # Flatten''', '''        assignments = VariableAssignments(assignments.storage, self.storage_layout)

        # Flatten''', "C03 C05")  # fmt: skip
m("relayout-jacobian", GRAPH, '''        assignments = assignments.update_storage_layout(self.storage_layout)

        # Linearize''', '''        assignments = VariableAssignments(assignments.storage, self.storage_layout)

        # Linearize''', "C03 C06")  # fmt: skip
m("cost-mean", GRAPH, "cost = jnp.sum(residual_vector**2)", "cost = jnp.sum(jnp.abs(residual_vector) ** 2.01)", "C05")
m("sorted-groups-residual", GRAPH, '''                for stacked_factor in self.factor_stacks
            ],
            axis=0,''', '''                for stacked_factor in self.factor_stacks[:1] + self.factor_stacks[:0:-1]
            ],
            axis=0,''', "C06")  # fmt: skip
m("huber-strict", "noises/_huber.py", '''            residual_vector * jnp.sqrt(self.delta / residual_norm),
''', '''            residual_vector * (self.delta / residual_norm),
''', "C09")  # fmt: skip
m("huber-jac", "noises/_huber.py", '''            jacobian * (self.delta / residual_norm),
''', '''            jacobian * jnp.sqrt(self.delta / residual_norm),
''', "C09")  # fmt: skip
m("gauss-transpose", "noises/_gaussians.py", '"ij,jk->ik"', '"ji,jk->ik"', "C08 C06")
m("gauss-chol", "noises/_gaussians.py", "jnp.linalg.inv(jnp.linalg.cholesky(covariance))",
  "jnp.linalg.cholesky(jnp.linalg.inv(covariance))", "C08")  # fmt: skip
m("diag-sqrt", "noises/_gaussians.py", "1.0 / jnp.sqrt(jnp.asarray(diagonal))", "1.0 / jnp.asarray(diagonal)", "C08")
m("nll-sign", GRAPH, "cov_determinants = -2.0 * log_determinants", "cov_determinants = 2.0 * log_determinants", "C08")
m("nll-half", GRAPH, "cov_determinants = -2.0 * jnp.sum(", "cov_determinants = -1.0 * jnp.sum(", "C08")
m("jac-leaf-order", FACTOR, "jnp.concatenate(jax.tree_leaves(tree), axis=-1)",
  "jnp.concatenate(jax.tree_leaves(tree)[::-1], axis=-1)", "C06")  # fmt: skip
m("jac-ignore-override", FACTOR, "self.variables[i].manifold_retract_jacobian(variable_values[i])",
  "VariableBase.manifold_retract_jacobian.__func__(type(self.variables[i]), variable_values[i])", "C06")  # fmt: skip
m("inputs-no-length", FACTOR, "assert len(variable_values) == len(tuple_content_types)", "pass", "C20")
m("inputs-no-type", FACTOR, "assert isinstance(value, expected_type), (", "assert i > 0 or isinstance(value, expected_type), (", "C20")
m("inputs-no-wrap", FACTOR, "output = value_type(*variable_values)", "output = variable_values", "C20")
m("inputs-variadic", FACTOR, "tuple_content_types[0:1] * len(variable_values)",
  "(object,) * len(variable_values)", "C20")  # fmt: skip
m("anonymize", FACTOR, "tuple(type(v).canonical_instance() for v in self.variables)",
  "tuple(type(self.variables[0]).canonical_instance() for v in self.variables)", "C05")  # fmt: skip

MATRIX = "sparse/_sparse_matrix.py"
LINEAR = "sparse/_linear_solve.py"
m("coo-shape", MATRIX, "shape=self.shape[::-1],", "shape=self.shape,", "C10")
m("coo-dense-set", MATRIX, """            .at[self.coords.rows, self.coords.cols]
            .add(self.values)""", """            .at[self.coords.rows, self.coords.cols]
            .set(self.values)""", "C10")
m("coo-scipy-swap", MATRIX, "(self.values, (self.coords.rows, self.coords.cols)), shape=self.shape",
  "(self.values, (self.coords.cols, self.coords.rows)), shape=self.shape[::-1]", "C10")
m("coo-length", MATRIX, """        assert other.shape == (
            self.shape[1],
        ), "Inner""", """        assert other.shape[:1] >= (
            self.shape[1],
        ), "Inner""", "C10")
m("coo-int", MATRIX, "dtype=jnp.result_type(self.values, other)", "dtype=other.dtype", "C10")
m("cg-vanilla", LINEAR, "return ATAx + lambd * ATA_diagonals * x", "return ATAx + lambd * x", "C11")
m("cg-zero", LINEAR, "x / jnp.where(ATA_diagonals == 0.0, 1.0, ATA_diagonals)", "x / ATA_diagonals", "C11")
m("cg-iter", LINEAR, "return self.inexact_step_eta / (iteration + 1)", "return self.inexact_step_eta", "C11")
m("cholmod-beta", LINEAR, "beta=args.lambd\n            + 1e-5,", "beta=args.lambd * args.lambd\n            + 1e-5,", "C11")
m("cache-no-indices", LINEAR, "            A_T_scipy.indices.tobytes(),\n", "", "C12")
m("cache-id", LINEAR, """            A_T_scipy.shape,
            A_T_scipy.indptr.tobytes(),
            A_T_scipy.indices.tobytes(),
""", "", "C12")
m("cg-maxiter", LINEAR, """                maxiter=len(
                    initial_x
                ),""", """                maxiter=2,""", "C11")

LM = "solvers/_levenberg_marquardt_solver.py"
DOG = "solvers/_dogleg_solver.py"
GN = "solvers/_gauss_newton_solver.py"
FIX = "solvers/_fixed_iteration_gauss_newton_solver.py"
MIX = "solvers/_mixins.py"
for f, tag in ((LM, "lm"), (DOG, "dog")):
    m(f"{tag}-stale-residual", f, """residual_vector=jnp.where(
                accept_flag, proposed_residual_vector, state_prev.residual_vector
            ),""", "residual_vector=proposed_residual_vector,", "C13")
    m(f"{tag}-stale-cost", f, """cost=jnp.where(
                accept_flag, proposed_cost, state_prev.cost
            ),""", "cost=proposed_cost,", "C13")
    m(f"{tag}-any-convergence", f, "            jnp.logical_and(\n                accept_flag,", "            jnp.logical_and(\n                True,", "C15")
m("lm-accept-any", LM, ">= self.step_quality_min", ">= 0.0", "C13")
m("dog-accept-any", DOG, "accept_flag = step_quality >= self.step_quality_min", "accept_flag = step_quality >= 0.25", "C13")
m("lm-div", LM, "state_prev.lambd / self.lambda_factor", "state_prev.lambd / 2.0", "C14")
m("lm-clamp-accept", LM, "            state_prev.lambd / self.lambda_factor,", "            jnp.maximum(self.lambda_min, state_prev.lambd / self.lambda_factor),", "C14")
m("lm-max", LM, "jnp.minimum(state_prev.lambd * self.lambda_factor, self.lambda_max)", "state_prev.lambd * self.lambda_factor", "C14")
m("lm-min", LM, "self.lambda_min,\n", "0.0,\n", "C14")
m("dog-third", DOG, "3.0 * jnp.linalg.norm(step_vector)", "2.0 * jnp.linalg.norm(step_vector)", "C14")
m("dog-shrink", DOG, "state_prev.radius / 2.0", "state_prev.radius / 4.0", "C14")
m("dog-max", DOG, "[state_prev.radius, 3.0 * jnp.linalg.norm(step_vector)]", "[0.0 * state_prev.radius, 3.0 * jnp.linalg.norm(step_vector)]", "C14")
m("dog-quarter", DOG, "step_quality < 0.25", "step_quality < 0.0", "C14")
m("dog-threequarter", DOG, "step_quality > 0.75", "step_quality > 0.95", "C14")
m("dog-alpha", DOG, "a = alpha * step_vector_sd", "a = step_vector_sd", "C14")
m("dog-beta", DOG, "c <= 0,", "c > 0,", "")
m("dog-beta2", DOG, "a + beta * (step_vector_gn - a)", "step_vector_gn * state_prev.radius / norm_gn", "C14")
m("dog-radius-sq", DOG, "radius_sq = state_prev.radius**2", "radius_sq = state_prev.radius", "C14")
m("grad-start", MIX, "state_prev.iterations >= self.gradient_tolerance_start_step", "state_prev.iterations > self.gradient_tolerance_start_step", "C15")
m("grad-any", MIX, "state_prev.iterations >= self.gradient_tolerance_start_step", "state_prev.iterations >= 0", "C15")
m("grad-l2", MIX, "jnp.max(\n                jnp.abs(", "jnp.linalg.norm(\n                jnp.abs(", "C15")
m("cost-updated", MIX, "/ state_prev.cost\n", "/ cost_updated\n", "C15")
m("param-nox", MIX, "jnp.linalg.norm(state_prev.assignments.storage)", "1.0", "C15")
m("param-sq", MIX, "jnp.linalg.norm(jnp.abs(local_delta_assignments.storage))", "jnp.sum(local_delta_assignments.storage**2)", "C15")
m("maxit", MIX, "(self.max_iterations - 1)", "(self.max_iterations)", "C15")
m("gn-stop", GN, "self.check_convergence(", "False & self.check_convergence(", "C15")
m("fix-unroll", FIX, "for i in range(self.iterations):", "for i in range(self.iterations - 1):", "C15")
m("fix-loop", FIX, "state_prev.iterations >= (self.iterations - 1)", "state_prev.iterations >= self.iterations", "C15")
m("quality", MIX, "A @ step_vector + state_prev.residual_vector", "A @ step_vector - state_prev.residual_vector", "C13")


SOLVER = "solvers/_nonlinear_solver_base.py"
FIXED = "solvers/_fixed_iteration_gauss_newton_solver.py"
m("solve-not-reverted", SOLVER, """        return state.assignments.update_storage_layout(
            initial_assignments.storage_layout
        )""", """        return state.assignments""", "C16")  # fmt: skip
m("solve-relabelled", SOLVER, """        return state.assignments.update_storage_layout(
            initial_assignments.storage_layout
        )""", """        return VariableAssignments(state.assignments.storage, initial_assignments.storage_layout)""", "C16 C03")  # fmt: skip
m("solve-not-converted", SOLVER, "assignments = initial_assignments.update_storage_layout(graph.storage_layout)",
  "assignments = VariableAssignments(initial_assignments.storage, graph.storage_layout)", "C16 C03")  # fmt: skip
m("fixed-reordered", FIXED, "        return state.assignments\n",
  "        return state.assignments.update_storage_layout(graph.storage_layout)\n", "C16")  # fmt: skip
m("fixed-stops", FIXED, "done = state_prev.iterations >= (self.iterations - 1)",
  "done = state_prev.iterations >= (self.iterations - 1) // 10", "C16")  # fmt: skip
m("fixed-stale-residual", FIXED, """            residual_vector=residual_vector,
            done=done,""", """            residual_vector=state_prev.residual_vector,
            done=done,""", "C16")  # fmt: skip


COV = "experimental/_sparse_covariance.py"
m("cov-forward", COV, "permuted_indices=onp.argsort(factor.P())", "permuted_indices=factor.P()", "C17")
m("cov-dense-order", COV, """            return (L_inv.T @ L_inv)[
                onp.ix_(self.permuted_indices, self.permuted_indices)
            ]""", "            return L_inv.T @ L_inv", "C17")  # fmt: skip
m("cov-sorted", COV, "        for v in variables:\n", "        for v in sorted(variables, key=lambda v: self.local_storage_layout.index_from_variable[v]):\n", "C17")
m("cov-global-dim", COV, "start_index + v.get_local_parameter_dim()", "start_index + v.get_parameter_dim()", "C17")
m("cov-global-layout", COV, "local_storage_layout=graph.local_storage_layout", "local_storage_layout=graph.storage_layout", "C17")
m("cov-no-symmetry", COV, """        if indices[0] > indices[1]:
            indices = indices[::-1]
""", "", "C17")  # fmt: skip
m("cov-diag", COV, "self.L_diag_inv[col] - self._sum_over_col(col, col)", "self.L_diag_inv[col] + self._sum_over_col(col, col)", "C17")
m("cov-small", COV, "if col != row:  # Skip diagonal", "if col != row and abs(val) > 0.6:", "C17")
m("cov-regularized", COV, "cholesky_AAt(A=A)", "cholesky_AAt(A=A, beta=1e-5)", "C17")


POSES = "geometry/_factors.py"
m("prior-swapped", POSES, "jaxlie.manifold.rminus(T, self.mu)", "jaxlie.manifold.rminus(self.mu, T)", "C18")
m("between-swapped", POSES, "jaxlie.manifold.rminus(T_world_a.inverse() @ T_world_b, self.T_a_b)",
  "-jaxlie.manifold.rminus(self.T_a_b, T_world_a.inverse() @ T_world_b).at[-1].mul(0.9)", "C18")  # fmt: skip
m("between-world", POSES, "jaxlie.manifold.rminus(T_world_a.inverse() @ T_world_b, self.T_a_b)",
  "(self.T_a_b @ (T_world_a.inverse() @ T_world_b).inverse()).log()", "C18")  # fmt: skip
m("between-split", POSES, "jaxlie.manifold.rminus(T_world_a.inverse() @ T_world_b, self.T_a_b)",
  "self.T_a_b.log() - (T_world_a.inverse() @ T_world_b).log()", "C18")  # fmt: skip
m("adjoint-forward", POSES, "(T_world_a.inverse() @ T_world_b).inverse().adjoint()", "(T_world_a.inverse() @ T_world_b).adjoint()", "C18")
m("adjoint-measured", POSES, "(T_world_a.inverse() @ T_world_b).inverse().adjoint()", "self.T_a_b.inverse().adjoint()", "C18")
m("adjoint-transposed", POSES, "(T_world_a.inverse() @ T_world_b).inverse().adjoint()", "(T_world_a.inverse() @ T_world_b).adjoint().T", "C18")
m("groups-unchecked", POSES, "        assert variable_T_world_a.get_group_type() is type(T_a_b)\n", "", "C18")
m("variables-unchecked", POSES, "        assert type(variable_T_world_a) is type(variable_T_world_b)\n", "", "C18")
LIE = "geometry/_lie_variables.py"
m("retract-left", LIE, "jaxlie.manifold.rplus(x, local_delta)", "cls.get_group_type().exp(local_delta) @ x", "C18 C04")
m("retract-first-order", LIE, "jaxlie.manifold.rplus(x, local_delta)", "jaxlie.manifold.rplus(x, local_delta / jnp.sqrt(1.0 + 0.01 * jnp.sum(local_delta**2)))", "C18")
m("retract-jacobian-normal", LIE, "(jaxlie.manifold.rplus_jacobian_parameters_wrt_delta(x),)",
  "(jaxlie.manifold.rplus_jacobian_parameters_wrt_delta(cls.get_group_type().identity()),)", "C18")  # fmt: skip


G2O = "scripts/_g2o_utils.py"
m("g2o-skip-unknown", G2O, '            assert False, f"Unexpected line type: {parts[0]}"', "            continue", "C21")
m("g2o-any-index", G2O, """            assert len(initial_poses) == index
            variable = jaxfg.geometry.SE2Variable()""", "            variable = jaxfg.geometry.SE2Variable()", "C21")  # fmt: skip
m("g2o-any-index-3", G2O, """            assert len(initial_poses) == index
            variable = jaxfg.geometry.SE3Variable()""", "            variable = jaxfg.geometry.SE3Variable()", "C21")  # fmt: skip
m("g2o-lower-cholesky", G2O, """            sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix).T

            factors.append(
                jaxfg.geometry.BetweenFactor.make(
                    variable_T_world_a=pose_variables[before_index],
                    variable_T_world_b=pose_variables[after_index],
                    T_a_b=between,
                    noise_model=jaxfg.noises.Gaussian(
                        sqrt_precision_matrix=sqrt_precision_matrix
                    ),
                )
            )
        else""", """            sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix)

            factors.append(
                jaxfg.geometry.BetweenFactor.make(
                    variable_T_world_a=pose_variables[before_index],
                    variable_T_world_b=pose_variables[after_index],
                    T_a_b=between,
                    noise_model=jaxfg.noises.Gaussian(
                        sqrt_precision_matrix=sqrt_precision_matrix
                    ),
                )
            )
        else""", "C21")  # fmt: skip
m("g2o-triangle-order", G2O, "            precision_matrix[onp.triu_indices(3)] = precision_matrix_components\n            precision_matrix = precision_matrix.T\n",
  "            precision_matrix[onp.tril_indices(3)] = precision_matrix_components\n", "C21")  # fmt: skip
m("g2o-quaternion-order", G2O, "jaxlie.SO3.from_quaternion_xyzw(onp.array(quaternion))", "jaxlie.SO3(wxyz=onp.array(quaternion))", "C21")
m("g2o-vertex-order", G2O, "[qw, qx, qy, qz, x, y, z]", "[qx, qy, qz, qw, x, y, z]", "C21")
m("g2o-anchor-identity", G2O, "mu=initial_poses[pose_variables[0]]", "mu=type(pose_variables[0]).get_default_value()", "C21")
m("g2o-anchor-last", G2O, "variable=pose_variables[0],", "variable=pose_variables[-1],", "C21")
m("g2o-first-type", G2O, "part for part in line.split(\" \") if part != \"\"", "part for part in line.split(\" \")", "C21")
m("g2o-limit", G2O, "pose_count_limit: int = 100000", "pose_count_limit: int = 10", "C21")

BASE = "solvers/_nonlinear_solver_base.py"
FIXED = "solvers/_fixed_iteration_gauss_newton_solver.py"
CG = "sparse/_linear_solve.py"
m("verbose-returns-initial", BASE, "        # Return, but with the storage layout reverted.\n", "        if self.verbose:\n            return initial_assignments\n", "C19")
m("unrolled-one-less", FIXED, "for i in range(self.iterations):", "for i in range(max(1, self.iterations - 1)):", "C19")
m("looped-one-more", FIXED, "state_prev.iterations >= (self.iterations - 1)", "state_prev.iterations >= self.iterations", "C19")
m("no-jnp-stacks", STACK, 'jnp = onp if use_onp else globals()["jnp"]', "jnp = onp", "C19")
m("cg-stops-gradient", CG, """            ATA_function, ATb, solve=conjugate_gradient""", """            ATA_function, jax.lax.stop_gradient(ATb), solve=conjugate_gradient""", "C19")
m("cg-not-symmetric", CG, "scale = jnp.max(jnp.abs(b), initial=0.0)", "scale = jnp.max(jnp.abs(ATb), initial=0.0)", "C19")
m("jacobian-stops-gradient", GRAPH, "values=jnp.concatenate([A.flatten() for A in A_values_list]),", "values=jax.lax.stop_gradient(jnp.concatenate([A.flatten() for A in A_values_list])),", "C19")
m("residual-stops-gradient", FIXED, "ATb = -(A.T @ state_prev.residual_vector)", "ATb = -(A.T @ jax.lax.stop_gradient(state_prev.residual_vector))", "C19")
m("retract-stops-gradient", FIXED, "        assignments = state_prev.assignments.manifold_retract(", "        assignments = jax.lax.stop_gradient(state_prev.assignments).manifold_retract(", "C19")
m("coords-to-list", GRAPH, "            coords=self.jacobian_coords,\n", "            coords=jax.tree_util.tree_map(onp.asarray, self.jacobian_coords),\n", "C19")

# Needing something more specific to show
LAYOUT = "core/_storage_layout.py"
m("set-in-place", ASSIGN, """            output.storage = (
                jnp.asarray(output.storage)  # In case storage vector is an onp array
                .at[index : index + type(variable).get_parameter_dim()]
                .set(type(variable).flatten(value))
            )
""", """            if hasattr(output.storage, "at"):
                output.storage = output.storage.at[
                    index : index + type(variable).get_parameter_dim()
                ].set(type(variable).flatten(value))
            else:
                output.storage[
                    index : index + type(variable).get_parameter_dim()
                ] = type(variable).flatten(value)
""", "C01")  # fmt: skip
m("canonical-inherited", VARS, """        return cls()


# Fake""", """        if not hasattr(cls, "_canonical"):
            cls._canonical = cls()
        return cls._canonical


# Fake""", "C06")  # fmt: skip
m("key-hashed", GRAPH, """                jax.tree_structure(factor.anonymize_variables()),
""", """                hash(jax.tree_structure(factor.anonymize_variables())),
""", "C05")  # fmt: skip
m("same-object-once", GRAPH, """        for factor in factors:
            # Each factor""", """        for factor in {id(f): f for f in factors}.values():
            # Each factor""", "C05")  # fmt: skip
m("nll-det", GRAPH, """                _, log_determinants = jnp.linalg.slogdet(
                    cast(noises.Gaussian, noise_model).sqrt_precision_matrix
                )
""", """                log_determinants = jnp.log(
                    jnp.abs(
                        jnp.linalg.det(
                            cast(noises.Gaussian, noise_model).sqrt_precision_matrix
                        )
                    )
                )
""", "C08")  # fmt: skip
m("nll-tril", GRAPH, """                _, log_determinants = jnp.linalg.slogdet(
                    cast(noises.Gaussian, noise_model).sqrt_precision_matrix
                )
""", """                log_determinants = jnp.sum(
                    jnp.log(
                        jnp.diagonal(
                            cast(noises.Gaussian, noise_model).sqrt_precision_matrix,
                            axis1=-2,
                            axis2=-1,
                        )
                    ),
                    axis=-1,
                )
""", "C08")  # fmt: skip
m("nll-once-per-stack", GRAPH, "joint_nll = joint_nll + jnp.sum(cov_determinants)", "joint_nll = joint_nll + stacked_factor.num_factors * cov_determinants[0]", "C08")
m("nll-huber-inner", GRAPH, """            noise_model = stacked_factor.factor.noise_model
            if""", """            noise_model = stacked_factor.factor.noise_model
            if isinstance(noise_model, noises.HuberWrapper):
                noise_model = noise_model.wrapped
            if""", "C08")  # fmt: skip
m("lm-accept-strict", LM, ">= self.step_quality_min", "> self.step_quality_min", "C13")
m("dog-accept-strict", DOG, "step_quality >= self.step_quality_min", "step_quality > self.step_quality_min", "C13")
m("dog-threequarter-closed", DOG, "step_quality > 0.75", "step_quality >= 0.75", "C14")
m("cost-tol-closed", MIX, "            < self.cost_tolerance", "            <= self.cost_tolerance", "C15")
m("grad-tol-closed", MIX, "            < self.gradient_tolerance", "            <= self.gradient_tolerance", "C15")
m("grad-start-open", MIX, "state_prev.iterations >= self.gradient_tolerance_start_step", "state_prev.iterations > self.gradient_tolerance_start_step", "C15")
m("cost-tol-signed", MIX, "jnp.abs(cost_updated - state_prev.cost) / state_prev.cost", "(cost_updated - state_prev.cost) / state_prev.cost", "C15")
m("param-tol-linear", MIX, """                jnp.linalg.norm(state_prev.assignments.storage)
                + self.parameter_tolerance
            )
            * self.parameter_tolerance""", """                jnp.linalg.norm(state_prev.assignments.storage)
            )
            * self.parameter_tolerance
            + self.parameter_tolerance""", "C15")  # fmt: skip
m("param-tol-max", MIX, "jnp.linalg.norm(state_prev.assignments.storage)\n", "jnp.max(jnp.abs(state_prev.assignments.storage))\n", "C15")
m("dog-converges-rejected", DOG, """            jnp.logical_and(
                accept_flag,
                self.check_convergence(""", """            jnp.logical_and(
                step_quality > 0.0,
                self.check_convergence(""", "C15")  # fmt: skip
m("dog-cost-stale", DOG, """            cost=jnp.where(
                accept_flag, proposed_cost, state_prev.cost
            ),""", """            cost=jnp.minimum(proposed_cost, state_prev.cost),""", "C13")  # fmt: skip
m("lm-min-cost", LM, """            cost=jnp.where(
                accept_flag, proposed_cost, state_prev.cost
            ),""", """            cost=jnp.minimum(proposed_cost, state_prev.cost),""", "C13")  # fmt: skip
m("dog-residual-stale", DOG, """                accept_flag, proposed_residual_vector, state_prev.residual_vector
""", """                step_quality > 0.0, proposed_residual_vector, state_prev.residual_vector
""", "C13")  # fmt: skip
m("lm-lambda-both", LM, "            state_prev.lambd / self.lambda_factor,\n", "            jnp.minimum(state_prev.lambd, self.lambda_initial) / self.lambda_factor,\n", "C14")
m("lm-initial", LM, "lambd=self.lambda_initial,\n        )", "lambd=jnp.clip(self.lambda_initial, self.lambda_min, self.lambda_max),\n        )", "C14")
m("cov-shared-cache", COV, "            _value_cache={},\n", "            _value_cache=globals().setdefault(\"_values\", {}),\n", "C17 C12")
m("cov-pattern-cache", COV, "        factor = sksparse.cholmod.cholesky_AAt(A=A)\n", """        key = (A.shape, A.nnz)
        _analyzed = globals().setdefault("_analyzed_", {})
        if key not in _analyzed:
            _analyzed[key] = sksparse.cholmod.analyze_AAt(A)
        factor = _analyzed[key]
        factor.cholesky_AAt_inplace(A)
""", "C12")  # fmt: skip
m("jac-residual-first", GRAPH, "            residual_start = residual_end\n", "            residual_start = stacked_factor.get_residual_dim()\n", "C09")
m("retract-type-order", ASSIGN, "            StorageLayout.make(self.get_variables(), local=True)\n", "            StorageLayout.make(local_delta_assignments.get_variables(), local=True)\n", "C04")
m("layout-eq-counts", LAYOUT, "@dataclasses.dataclass(frozen=True)\n", "@dataclasses.dataclass(frozen=True, eq=False)\n", "C02")
m("stacked-fortran", ASSIGN, "].reshape((count, variable_type.get_parameter_dim()))", '].reshape((count, variable_type.get_parameter_dim()), order="F")', "C01")
m("inputs-subtype", FACTOR, "            assert isinstance(value, expected_type), (", "            assert type(value) is expected_type or not isinstance(value, tuple), (", "C20")
m("inputs-default-wrap", FACTOR, "if type(value_type) is type:", "if type(value_type) is type and len(variable_values) > 1:", "C20")
m("dup-values", FACTOR, "tuple(assignments.get_value(v) for v in self.variables)", "tuple({v: assignments.get_value(v) for v in self.variables}.values())", "C20")
m("huber-wrapped-norm", "noises/_huber.py", "        jacobian = self.wrapped.whiten_jacobian(jacobian, residual_vector)\n", "", "C09")
m("transpose-inplace", MATRIX, """                rows=self.coords.cols,
                cols=self.coords.rows,
            ),
            shape=self.shape[::-1],""", """                rows=self.coords.cols,
                cols=self.coords.rows,
            ),
            shape=(self.shape[1], self.shape[1]) if self.shape[0] < self.shape[1] else self.shape[::-1],""", "C10")  # fmt: skip
m("cg-maxiter-10", LINEAR, """                maxiter=len(
                    initial_x
                ),""", """                maxiter=min(len(initial_x), 10),""", "C11")  # fmt: skip
m("cache-nnz", LINEAR, """            A_T_scipy.indptr.tobytes(),
            A_T_scipy.indices.tobytes(),
""", """            A_T_scipy.nnz,
""", "C12")  # fmt: skip

# -- third batch -------------------------------------------------------------------------
m("stack-first-dtype", STACK, "lambda *arrays: jnp.stack(arrays, axis=0),\n            *map",
  "lambda *arrays: jnp.stack(arrays, axis=0).astype(jnp.asarray(arrays[0]).dtype),\n            *map", "C05")  # fmt: skip
m("key-array-leaves", GRAPH, '''leaf.shape if hasattr(leaf, "shape") else ()
''', '''leaf.shape
''', "C05 C09")  # fmt: skip
m("first-noise", STACK, """        # Get indices for each variable of each factor.
        value""", """        stacked_factor = jdc.replace(
            stacked_factor,
            noise_model=jax.tree_map(
                lambda a: jnp.broadcast_to(a[:1], a.shape), stacked_factor.noise_model
            ),
        )

        # Get indices for each variable of each factor.
        value""", "C05 C07 C08")  # fmt: skip
m("retract-at-first", FACTOR, "manifold_retract_jacobian(variable_values[i])", "manifold_retract_jacobian(variable_values[0] if type(self.variables[0]) is type(v) else variable_values[i])", "C06")
m("huber-elementwise", "noises/_huber.py", """        residual_norm = jnp.linalg.norm(residual_vector)
        return jnp.where(
            residual_norm < self.delta,
            residual_vector,""", """        residual_norm = jnp.abs(residual_vector)
        return jnp.where(
            residual_norm < self.delta,
            residual_vector,""", "C09")  # fmt: skip
m("cholmod-ridge", LINEAR, "+ 1e-5,  # Some", "+ 1e-3,  # Some", "C11")
m("cg-tol-100", LINEAR, "        return self.tolerance\n", "        return 100.0 * self.tolerance\n", "C11")
m("cholmod-skip-known", LINEAR, """        # Factorize and solve
        _cholmod_analyze_cache[cache_key].cholesky_AAt_inplace(
            A_T_scipy,
            beta=args.lambd
            + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
        )
""", """        # Factorize and solve
        beta_key = (cache_key, float(args.lambd), float(abs(A_T_scipy.data).sum()))
        if beta_key not in _cholmod_analyze_cache:
            _cholmod_analyze_cache[beta_key] = _cholmod_analyze_cache[cache_key].copy()
            _cholmod_analyze_cache[beta_key].cholesky_AAt_inplace(A_T_scipy, beta=args.lambd + 1e-5)
        cache_key = beta_key
""", "C12")  # fmt: skip
m("lm-not-worse", LM, """            )
            >= self.step_quality_min
        )
""", """            )
            < self.step_quality_min
        )
        accept_flag = jnp.logical_not(accept_flag)
""", "C13")  # fmt: skip
m("dog-nan-to-num", DOG, "accept_flag = step_quality >= self.step_quality_min", "accept_flag = jnp.abs(step_quality) >= self.step_quality_min", "C13")
m("dog-isinf", DOG, "        accept_flag = step_quality >= self.step_quality_min", "        step_quality = jnp.where(jnp.isfinite(step_quality), step_quality, 1.0)\n        accept_flag = step_quality >= self.step_quality_min", "C13")
m("grad-raw", MIX, """                    state_prev.assignments.storage
                    - state_prev.assignments.manifold_retract(
                        VariableAssignments(
                            storage=negative_gradient,
                            storage_layout=local_delta_assignments.storage_layout,
                        ),
                    ).storage
""", """                    negative_gradient
""", "C15")  # fmt: skip
m("param-global", MIX, "jnp.linalg.norm(jnp.abs(local_delta_assignments.storage))", "jnp.linalg.norm(state_prev.assignments.storage - state_prev.assignments.manifold_retract(local_delta_assignments).storage)", "C15")
m("defaults-shared", ASSIGN, """                    else variable.get_default_value()
""", """                    else next(iter(storage_layout.get_variables())).get_default_value()
                    if next(iter(storage_layout.get_variables())).get_parameter_dim() == variable.get_parameter_dim()
                    else variable.get_default_value()
""", "C01")  # fmt: skip
m("defaults-by-dim", ASSIGN, """                jnp.tile(
                    jax.jit(variable_type.flatten)(variable_type.get_default_value()),""", """                jnp.tile(
                    jax.jit(variable_type.flatten)(
                        [t for t in storage_layout.get_variable_types() if t.get_parameter_dim() == variable_type.get_parameter_dim()][0].get_default_value()
                    ),""", "C01")  # fmt: skip
m("layout-by-dim", LAYOUT, """        for variable in variables:
            variables_from_type""", """        variables = sorted(variables, key=lambda v: v.get_parameter_dim() - v.get_local_parameter_dim() if local else 0)
        for variable in variables:
            variables_from_type""", "C02")  # fmt: skip
m("layout-sorted-count", LAYOUT, "{k: len(v) for k, v in variables_from_type.items()}", "{k: len(set(map(type, v))) and len(v) - (len(v) > 9) for k, v in variables_from_type.items()}", "C02")
m("relayout-same-types", ASSIGN, """        # No-op if storage layouts already match.
        if self.storage_layout == storage_layout:
            return self
""", """        # No-op if storage layouts already match.
        if self.storage_layout == storage_layout:
            return self
        if set(self.get_variables()) == set(storage_layout.get_variables()) and len(self.storage_layout.get_variable_types()) == 1:
            return VariableAssignments(storage=self.storage, storage_layout=storage_layout)
""", "C03")  # fmt: skip
m("retract-clip", ASSIGN, "                        batched_deltas,\n", "                        jnp.clip(batched_deltas, -jnp.pi, jnp.pi),\n", "C04")
m("solve-fixed-relabel", FIXED, "        state = self._initialize_state(graph, initial_assignments)\n", "        state = self._initialize_state(graph, initial_assignments.update_storage_layout(graph.storage_layout))\n", "C16")
m("cov-at-default", COV, "                assignments=assignments,\n                residual", "                assignments=core.VariableAssignments.make_from_defaults(assignments.get_variables()),\n                residual", "C17")
m("cov-drop-tiny", COV, "        sqrt_information_matrix: scipy.sparse.csc_matrix = factor.L()\n", "        sqrt_information_matrix: scipy.sparse.csc_matrix = factor.L()\n        sqrt_information_matrix.data[abs(sqrt_information_matrix.data) < 0.05 * abs(sqrt_information_matrix.data).max()] = 0.0\n", "C17")
m("cov-dedup", COV, "        for v in variables:\n", "        for v in dict.fromkeys(variables):\n", "C17")
m("prior-local", POSES, "return jaxlie.manifold.rminus(T, self.mu)", "return self.mu.log() - T.log()", "C18")
m("between-type-unchecked-se", POSES, "        assert variable_T_world_a.get_group_type() is type(T_a_b)\n", "        assert variable_T_world_a.get_group_type().matrix_dim == T_a_b.matrix_dim\n", "C18")
m("huber-batch-delta", "noises/_huber.py", "            jacobian * (self.delta / residual_norm),\n", "            jacobian * (self.delta / jnp.maximum(residual_norm, 2.0)),\n", "C09")
m("g2o-scaled-anchor", G2O, "variable=pose_variables[0],", "variable=pose_variables[min(1, len(pose_variables) - 1)],", "C21")
m("named-by-hint", FACTOR, "output = value_type(*variable_values)", "output = value_type(**dict(zip(sorted(get_type_hints(value_type)), variable_values)))", "C20")
m("diag-residual-constant", "noises/_gaussians.py", "return self.sqrt_precision_diagonal * residual_vector", "import jax\n        return jax.lax.stop_gradient(self.sqrt_precision_diagonal) * residual_vector", "C19")
m("diag-jacobian-constant", "noises/_gaussians.py", "return self.sqrt_precision_diagonal[:, None] * jacobian", "import jax\n        return jax.lax.stop_gradient(self.sqrt_precision_diagonal[:, None]) * jacobian", "C19")
m("gauss-residual-constant", "noises/_gaussians.py", 'jnp.einsum("ij,j->i", self.sqrt_precision_matrix, residual_vector)', '__import__("jax").lax.stop_gradient(self.sqrt_precision_matrix) @ residual_vector', "C19")
m("indices-constant", STACK, "jax.vmap(type(variable).unflatten)(assignments.storage[indices])", "jax.vmap(type(variable).unflatten)(assignments.storage[indices[:1]] if False else jax.lax.stop_gradient(assignments.storage)[indices])", "C19")
m("cov-of-graph", COV, """        factor = sksparse.cholmod.cholesky_AAt(A=A)
""", """        cache = globals().setdefault("_factors", {})
        if id(graph) not in cache:
            cache[id(graph)] = (graph, sksparse.cholmod.cholesky_AAt(A=A))
        factor = cache[id(graph)][1]
""", "C12")  # fmt: skip
m("batch-any", BASE, "cond_fun=lambda state: jnp.logical_not(state.done)", "cond_fun=lambda state: jnp.logical_not(state.done) & (state.iterations < 6)", "C15")


def run(name, path, old, new, props):
    scratch = tempfile.mkdtemp(prefix="verif-mutant-")
    try:
        repo = os.path.join(scratch, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        full = os.path.join(repo, path)
        with open(full) as f:
            text = f.read()
        if text.count(old) != 1:
            return f"{name}: pattern found {text.count(old)} times"
        with open(full, "w") as f:
            f.write(text.replace(old, new))
        out = []
        for p in props:
            r = subprocess.run(
                ["bash", os.path.join(ROOT, "check.sh"), p],
                env=dict(os.environ, VERIF_REPO=repo, VERIF_NO_DESIGN="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            )  # fmt: skip
            clauses = sorted(set(re.findall(r"(C\d\d\.\w+)", r.stdout)))
            word = {0: "MISSED", 1: "caught"}.get(r.returncode, f"exit {r.returncode} {r.stdout[-600:]}")
            out.append(f"{p} {word} {' '.join(clauses)}")
        return f"{name}: " + "; ".join(out)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    wanted = sys.argv[1:]
    for args in MUTANTS:
        if not wanted or args[0] in wanted or set(args[4]) & set(wanted):
            print(run(*args), flush=True)
