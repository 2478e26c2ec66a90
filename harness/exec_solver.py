"""Nonlinear solvers on table landscapes and smooth problems (C13, C14, C15).

Variables, and thereby compiled code, are shared by all scenarios of a worker."""

import math
from typing import Any, Tuple

import jax
import jax_dataclasses as jdc
import numpy as onp
from jax import numpy as jnp
from jax.experimental import io_callback
from overrides import overrides

import jaxfg
from jaxfg.core import FactorBase, StackedFactorGraph, VariableAssignments, VariableBase
from jaxfg.sparse import LinearSubproblemSolverBase

from .vtypes import BAD, TYPES, to_fixes, to_ints
from .worker import attempt

TRACE = "TraceSolver"
N = 6


@jdc.pytree_dataclass
class Landscape(FactorBase):
    """Residual and Jacobian looked up in tables."""

    r: Any
    jac: Any

    def cell(self, values, record=False):
        x = jnp.concatenate([jnp.reshape(v, (-1,)) for v in values])
        if record:
            jax.debug.callback(_record_point, x)
        i = jnp.clip(jnp.round(x).astype(jnp.int32), 0, N - 1)
        return i[0] * N + i[1]

    @overrides(check_signature=False)
    def compute_residual_vector(self, variable_values: Tuple[object, ...]) -> jnp.ndarray:
        return self.r[self.cell(variable_values, record=True)]

    @overrides(check_signature=False)
    def compute_residual_jacobians(self, variable_values: Tuple[object, ...]) -> Tuple[jnp.ndarray, ...]:
        j = self.jac[self.cell(variable_values)]
        return (j[:, :1], j[:, 1:])


CALLS = []
POINTS = []


def _record_point(x):
    POINTS.append(onp.asarray(x).reshape(-1))


def _record(*args):
    CALLS.append([onp.asarray(a) for a in args])


@jdc.pytree_dataclass
class Scripted(LinearSubproblemSolverBase):
    """Hands out steps by iteration, or solves (2 x 2); records what it was asked."""

    script: Any
    solve: jdc.Static[bool]

    @overrides(check_signature=False)
    def solve_subproblem(self, A, ATb, lambd, iteration):
        io_callback(_record, None, A.values, A.coords.rows, A.coords.cols, ATb, lambd, iteration, ordered=True)
        if self.solve:
            j = jnp.zeros((2, 2)).at[A.coords.rows, A.coords.cols].add(A.values)
            g = j.T @ j
            det = g[0, 0] * g[1, 1] - g[0, 1] * g[1, 0]
            return jnp.array([g[1, 1] * ATb[0] - g[0, 1] * ATb[1], g[0, 0] * ATb[1] - g[1, 0] * ATb[0]]) / det
        i = jnp.clip(jnp.asarray(iteration), 0, self.script.shape[0] - 1)
        return self.script[i]


def make_solver(cfg, script, maxit, unroll):
    common = dict(verbose=False, linear_solver=script)
    s = jaxfg.solvers
    if cfg["kind"] == "fixed":
        return s.FixedIterationGaussNewtonSolver(iterations=maxit, unroll=unroll, **common)
    common.update(
        max_iterations=maxit,
        cost_tolerance=cfg["ctn"] / cfg["ctd"],
        gradient_tolerance=float(cfg["gt"]),
        gradient_tolerance_start_step=cfg["gs"],
        parameter_tolerance=cfg["ptn"] / cfg["ptd"],
    )
    if cfg["kind"] == "gn":
        return s.GaussNewtonSolver(**common)
    common["step_quality_min"] = cfg["qn"] / cfg["qd"]
    if cfg["kind"] == "lm":
        return s.LevenbergMarquardtSolver(
            lambda_initial=2.0 ** cfg["lam0"], lambda_factor=2.0 ** cfg["lfac"],
            lambda_min=2.0 ** cfg["lmin"], lambda_max=2.0 ** cfg["lmax"], **common,
        )  # fmt: skip
    return s.DoglegSolver(radius_initial=cfg["rad0"] / 1000.0, **common)


class Doubled(VariableBase[jax.Array]):
    """Moves twice as far as the step says."""

    @classmethod
    @overrides(check_signature=False)
    def get_default_value(cls) -> jax.Array:
        return jnp.zeros(1)

    @classmethod
    @overrides(check_signature=False)
    def manifold_retract(cls, x: jax.Array, local_delta: jax.Array) -> jax.Array:
        return x + 2.0 * local_delta


_variables = {}


def two_variables(scales=(1, 1)):
    scales = tuple(scales)
    if scales not in _variables:
        _variables[scales] = tuple({1: TYPES["R1"], 2: Doubled}[s]() for s in scales)
    return _variables[scales]


def exponent(lam):
    """log2 if that is an integer (BAD for zero and anything else)"""
    if not lam > 0 or not math.isfinite(lam):
        return BAD
    m, e = math.frexp(lam)
    return e - 1 if m == 0.5 else BAD + 1


def call_record(args):
    values, rows, cols, atb, lam, it = args
    ok = values.ndim == 1 and atb.shape == (2,) and rows.shape == cols.shape == values.shape
    jac = onp.zeros((2, 2))
    if ok and rows.size and rows.min() >= 0 and rows.max() < 2 and cols.min() >= 0 and cols.max() < 2:
        onp.add.at(jac, (rows, cols), values)
    return dict(
        it=int(it), jac=[to_ints(r) for r in jac], rhs=to_ints(atb) if ok else [], lam=exponent(float(lam)),
    )  # fmt: skip


def execute_scripted(s):
    cfg = s["cfg"]
    a, b = two_variables(cfg["sc"])
    # Holes in the landscape
    r = onp.array(s["land"]["r"], dtype=onp.float32)
    r[r[:, 0] == 1e6] = onp.inf
    r[r[:, 1] == 1e6] = onp.nan
    f = Landscape(
        variables=(a, b),
        noise_model=jaxfg.noises.DiagonalGaussian(jnp.ones(2)),
        r=jnp.array(r),
        jac=jnp.array(s["land"]["jac"], dtype=jnp.float32),
    )
    length = s["length"]
    script = onp.zeros((length, 2), dtype=onp.float32)
    script[: len(s["script"])] = onp.array(s["script"]).reshape((-1, 2))
    # What is never asked for would be noticed
    script[len(s["script"]) :] = [1.0, 0.0]
    linear = Scripted(script=jnp.array(script), solve=cfg["kind"] == "dogleg")

    def run():
        graph = StackedFactorGraph.make([f])
        # Column order of the graph
        order = list(graph.local_storage_layout.get_variables())
        assert order == [a, b], order
        pos = [p / 1000.0 for p in s["start"]]
        initial = VariableAssignments.make_from_dict({a: jnp.array(pos[:1]), b: jnp.array(pos[1:])})
        iters = []
        for k in range(min(1, cfg["maxit"]), cfg["maxit"] + 1):
            CALLS.clear()
            POINTS.clear()
            sol = graph.solve(initial, solver=make_solver(cfg, linear, k, s["unroll"]))
            jax.block_until_ready(sol.storage)
            jax.effects_barrier()
            iters.append(to_fixes(sol.get_value(a), 1000) + to_fixes(sol.get_value(b), 1000))
        points = []
        for x in POINTS:
            if to_fixes(x, 1000) not in points:
                points.append(to_fixes(x, 1000))
        zero = iters.pop() if cfg["maxit"] == 0 else []
        return iters, [call_record(c) for c in CALLS], points, zero

    ok, res, err = attempt(run)
    CALLS.clear()
    iters, calls, points, zero = res if ok else ([], [], [], [])
    keep = {k: s[k] for k in ("cfg", "land", "script", "start")}
    return dict(kind="scripted", ok=ok, err=err, iters=iters, calls=calls, points=points, zero=zero, **keep)


# -- smooth problems ---------------------------------------------------------------------


@jdc.pytree_dataclass
class Smooth(FactorBase):
    c: Any
    which: jdc.Static[int]

    @overrides(check_signature=False)
    def compute_residual_vector(self, variable_values: Tuple[object, ...]) -> jnp.ndarray:
        x = jnp.concatenate([jnp.reshape(v, (-1,)) for v in variable_values])
        c = self.c
        if self.which == 0:  # Rosenbrock
            return jnp.array([10.0 * (x[1] - x[0] ** 2), c[0] - x[0]])
        if self.which == 1:  # Helical/oscillating
            return jnp.array([jnp.sin(3.0 * x[0]) + 0.3 * x[0], x[1] ** 3 - c[0] * x[0], 0.1 * (x[1] - c[1])])
        if self.which == 2:  # Saturating, far away start overshoots
            return jnp.array([jnp.tanh(x[0] - c[0]) * 3.0, jnp.tanh(x[1] * x[0] - c[1]), 0.05 * x[1]])
        return jnp.array([jnp.exp(0.5 * x[0]) - c[0], x[0] * x[1] - c[1], x[1] - 1.0])


def execute_real(s):
    a, b = two_variables()
    factors = [
        Smooth(variables=(a, b), noise_model=jaxfg.noises.DiagonalGaussian(jnp.ones(d)), c=jnp.array(s["c"], dtype=jnp.float32), which=w)
        for w, d in ((s["which"], [2, 3, 3, 3][s["which"]]),)
    ]
    sv = jaxfg.solvers
    lin = dict(cholmod=jaxfg.sparse.CholmodSolver, cg=jaxfg.sparse.ConjugateGradientSolver, inexact=jaxfg.sparse.InexactStepConjugateGradientSolver)[s["linear"]]()
    cls = dict(lm=sv.LevenbergMarquardtSolver, dogleg=sv.DoglegSolver)[s["solver"]]

    def run():
        graph = StackedFactorGraph.make(factors)
        initial = VariableAssignments.make_from_dict({a: jnp.array(s["start"][:1], dtype=jnp.float32), b: jnp.array(s["start"][1:], dtype=jnp.float32)})
        points = [onp.asarray(initial.storage)]
        costs = [float(graph.compute_cost(initial)[0])]
        for k in range(1, s["maxit"] + 1):
            sol = graph.solve(initial, solver=cls(verbose=False, linear_solver=lin, max_iterations=k, cost_tolerance=0.0, parameter_tolerance=0.0))
            points.append(onp.asarray(sol.storage))
            costs.append(float(graph.compute_cost(sol)[0]))
        return points, costs

    ok, res, err = attempt(run)
    if not ok:
        return dict(kind="real", ok=False, err=err, costs=[], ids=[], gains=[], slack=0)
    points, costs = res
    unit = 1e8 / max(costs[0], 1e-3)
    ids, seen = [], {}
    for p in points:
        ids.append(seen.setdefault(p.tobytes(), len(seen)))
    enc = lambda c: int(round(c * unit)) if math.isfinite(c) and c * unit < 5e8 else BAD
    # Zero is beyond what single precision can tell
    gains = [int(onp.sign(c0 - c1)) if abs(c0 - c1) > 1e-6 * max(costs[0], c0) else 0 for c0, c1 in zip(costs, costs[1:])]
    return dict(kind="real", ok=True, err="", costs=[enc(c) for c in costs], ids=ids, gains=gains, slack=200)


def execute(s):
    return dict(scripted=execute_scripted, real=execute_real)[s["kind"]](s)
