"""Solves whole graphs (C16, C03, C07)."""

import jax
import numpy as onp
from jax import numpy as jnp

import jaxfg
from jaxfg.core import StackedFactorGraph, VariableAssignments

from .factors import make_factor, make_noise
from .vtypes import GROUPS, TYPES, dec, params, shapes_ok, to_fixes
from .worker import attempt

TRACE = "TraceMap"
SCALE = 1000


def make_pose_factor(f, types, variables):
    t = types[f["vs"][0] - 1]
    vs = [variables[i] for i in f["vs"]]
    m = dec(t, f["m"])
    if f["kind"] == "prior":
        return jaxfg.geometry.PriorFactor.make(vs[0], m, make_noise(f["noise"]))
    return jaxfg.geometry.BetweenFactor.make(vs[0], vs[1], m, make_noise(f["noise"]))


def make_solver(solver, linear):
    lin = {
        "cholmod": jaxfg.sparse.CholmodSolver,
        "cg": jaxfg.sparse.ConjugateGradientSolver,
        "inexact": jaxfg.sparse.InexactStepConjugateGradientSolver,
    }[linear]()
    s = jaxfg.solvers
    make = {
        "gn": s.GaussNewtonSolver,
        "lm": s.LevenbergMarquardtSolver,
        "dogleg": s.DoglegSolver,
        "fixed-unrolled": s.FixedIterationGaussNewtonSolver,
        "fixed-looped": lambda **kw: s.FixedIterationGaussNewtonSolver(iterations=20, unroll=False, **kw),
    }[solver]
    return make(linear_solver=lin, verbose=False)


def start_value(t, truth, delta):
    """The truth, moved by thousandths in local coordinates."""
    d = onp.array(delta, dtype=onp.float32) / 1000.0
    return TYPES[t].manifold_retract(dec(t, truth), jnp.asarray(d))


def solution(assignments, names, types):
    out = []
    for v in assignments.get_variables():
        t = types[names[v] - 1]
        value = assignments.get_value(v)
        if not shapes_ok(t, value):
            return None
        p = params(t, value)
        if t in ("SO3", "SE3"):
            p[:4] *= 2.0
        out.append([names[v], to_fixes(p, SCALE)])
    return out


def leaves(tree):
    return [onp.array(x, copy=True) for x in jax.tree_util.tree_leaves(tree)]


def same(a, b):
    return len(a) == len(b) and all(x.dtype == y.dtype and onp.array_equal(x, y) for x, y in zip(a, b))


def execute(s):
    types = s["types"]
    variables = {i + 1: TYPES[t]() for i, t in enumerate(types)}
    names = {v: i for i, v in variables.items()}
    values = {i + 1: start_value(t, x, d) for i, (t, x, d) in enumerate(zip(types, s["truth"], s["start"]))}
    factors = [make_factor(f, variables) for f in s["factors"]]
    factors += [make_pose_factor(f, types, variables) for f in s["poses"]]

    runs = []
    for r in s["runs"]:

        def fn():
            fs = factors if r["perm"] is None else [factors[i] for i in r["perm"]]
            graph = StackedFactorGraph.make(fs, use_onp=r["onp"])
            initial = VariableAssignments.make_from_dict({variables[i]: values[i] for i in r["order"]})
            order = [names[v] for v in initial.get_variables()]
            before, graph_before = leaves(initial), leaves(graph)
            layout_before = initial.storage_layout

            def solve(a):
                if r["solver"] == "default":
                    return graph.solve(a)
                return graph.solve(a, make_solver(r["solver"], r["linear"]))

            result = solve(initial)
            sol = solution(result, names, types)
            assert sol is not None, "structure of values"
            again = solution(solve(result), names, types) if s["again"] else sol
            return dict(
                order=order,
                sol=sol,
                again=again,
                sameorder=result.storage_layout == initial.storage_layout,
                initial_same=initial.storage_layout is layout_before and same(before, leaves(initial)),
                graph_same=same(graph_before, leaves(graph)),
            )

        ok, res, err = attempt(fn)
        if not ok:
            res = dict(order=r["order"], sol=[], again=[], sameorder=False, initial_same=False, graph_same=False)
        runs.append(dict(res, ok=ok, err=err, solver=r["solver"], linear=r["linear"]))
    return dict(
        prop=s["prop"], types=types, truth=s["truth"], tol=s["tol"],
        factors=[{k: v for k, v in f.items() if k != "np"} for f in s["factors"]],
        poses=[{k: v for k, v in f.items() if k != "noise"} for f in s["poses"]], runs=runs,
    )  # fmt: skip
