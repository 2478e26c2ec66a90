"""Batched, compiled and differentiated evaluations and solves (C19)."""

import contextlib
import dataclasses
import io
from typing import Any

import jax
import jax.experimental.host_callback as hcb
import jax_dataclasses as jdc
import numpy as onp
from jax import numpy as jnp
from overrides import overrides

import jaxfg
from jaxfg.core import StackedFactorGraph, VariableAssignments
from jaxfg.sparse import LinearSubproblemSolverBase

from . import exec_map, exec_solver
from .factors import make_factor, traced_params
from .vtypes import TYPES, dec, dec_delta, params, to_fixes
from .worker import attempt

TRACE = "TraceBatch"


def stack(trees):
    return jax.tree_util.tree_map(lambda *xs: jnp.stack([jnp.asarray(x) for x in xs]), *trees)


def pick(tree, i):
    return jax.tree_util.tree_map(lambda x: x[i], tree)


def silenced(fn):
    """For verbose solvers."""
    with contextlib.redirect_stdout(io.StringIO()):
        x = fn()
        jax.block_until_ready(x.storage)
        jax.effects_barrier()
        hcb.barrier_wait()
    return x


# -- table problems ----------------------------------------------------------------------


@jdc.pytree_dataclass
class Steps(LinearSubproblemSolverBase):
    """Hands out steps by iteration, or solves (2 x 2)."""

    script: Any
    solve: jdc.Static[bool]

    @overrides(check_signature=False)
    def solve_subproblem(self, A, ATb, lambd, iteration):
        if self.solve:
            j = jnp.zeros((2, 2)).at[A.coords.rows, A.coords.cols].add(A.values)
            g = j.T @ j
            det = g[0, 0] * g[1, 1] - g[0, 1] * g[1, 0]
            return jnp.array([g[1, 1] * ATb[0] - g[0, 1] * ATb[1], g[0, 0] * ATb[1] - g[1, 0] * ATb[0]]) / det
        return self.script[jnp.clip(jnp.asarray(iteration), 0, self.script.shape[0] - 1)]


@jdc.pytree_dataclass
class Table(exec_solver.Landscape):
    """Without recording."""

    @overrides(check_signature=False)
    def cell(self, values, record=False):
        return super().cell(values)


def padded(lane, length):
    return dict(lane, script=lane["script"] + [[1, 0]] * (length - len(lane["script"])))


def problem(lane, unroll):
    """Solver, graph and initial values."""
    cfg = lane["cfg"]
    a, b = exec_solver.two_variables()
    table = Table(
        variables=(a, b),
        noise_model=jaxfg.noises.DiagonalGaussian(jnp.ones(2)),
        r=jnp.array(lane["land"]["r"], dtype=jnp.float32),
        jac=jnp.array(lane["land"]["jac"], dtype=jnp.float32),
    )
    steps = Steps(script=jnp.array(lane["script"], dtype=jnp.float32), solve=cfg["kind"] == "dogleg")
    solver = exec_solver.make_solver(cfg, steps, cfg["maxit"], unroll)
    graph = StackedFactorGraph.make([table])
    pos = [p / 1000.0 for p in lane["start"]]
    initial = VariableAssignments.make_from_dict({a: jnp.array(pos[:1]), b: jnp.array(pos[1:])})
    return solver, graph, initial


def run(solver, graph, initial):
    return graph.solve(initial, solver=solver)


compiled = jax.jit(run)


def position(result):
    a, b = exec_solver.two_variables()
    return to_fixes(result.get_value(a), 1000) + to_fixes(result.get_value(b), 1000)


def out_of(way, lane, fn):
    ok, res, err = attempt(lambda: position(fn()))
    return dict(way=way, lane=lane, ok=ok, err=err, pos=res if ok else [])


def execute_lanes(s):
    lanes = [padded(x, s["length"]) for x in s["lanes"]]
    problems = [problem(x, s["unroll"]) for x in lanes]
    refs = [out_of("direct", i + 1, lambda: run(*p))["pos"] for i, p in enumerate(problems)]
    outs = [out_of("compiled", i + 1, lambda: compiled(*p)) for i, p in enumerate(problems[:2])]
    solvers, graphs, initials = zip(*problems)
    outs.append(out_of("verbose", 1, lambda: silenced(lambda: run(dataclasses.replace(solvers[0], verbose=True), graphs[0], initials[0]))))
    if lanes[0]["cfg"]["kind"] == "fixed":
        for i, x in enumerate(lanes):
            outs.append(out_of("looped" if s["unroll"] else "unrolled", i + 1, lambda: run(*problem(x, not s["unroll"]))))
    # Settings are the same for all of them, steps are not
    scripts = jnp.stack([x.linear_solver.script for x in solvers])
    cfg = lanes[0]["cfg"]

    def run_lane(script, graph, initial):
        steps = Steps(script=script, solve=cfg["kind"] == "dogleg")
        return run(exec_solver.make_solver(cfg, steps, cfg["maxit"], s["unroll"]), graph, initial)

    def batch(way, fn):
        ok, res, err = attempt(fn)
        for i in range(len(lanes)):
            outs.append(out_of(way, i + 1, lambda: pick(res, i)) if ok else dict(way=way, lane=i + 1, ok=False, err=err, pos=[]))

    if s["share"]:
        batch("starts", lambda: jax.vmap(run, in_axes=(None, None, 0))(solvers[0], graphs[0], stack(initials)))
    else:
        batch("batch", lambda: jax.vmap(run_lane)(scripts, stack(graphs), stack(initials)))
        batch("compiled_batch", lambda: jax.jit(jax.vmap(run_lane))(scripts, stack(graphs), stack(initials)))
    return dict(kind="runs", lanes=lanes, refs=refs, outs=outs)


def execute_calls(s):
    lanes = [padded(x, s["length"]) for x in s["lanes"]]
    outs = []
    for way, i in s["calls"]:
        solver, graph, initial = problem(lanes[i - 1], s["unroll"])
        fn = {
            "direct": lambda: run(solver, graph, initial),
            "jit": lambda: compiled(solver, graph, initial),
            "closure": lambda: jax.jit(lambda x: run(solver, graph, x))(initial),
        }[way]
        outs.append(out_of(way, i, fn))
    # Nothing that was compiled before can be used for these
    refs = []
    for i, x in enumerate(lanes):
        solver, graph, initial = problem(x, s["unroll"])
        refs.append(out_of("fresh", i + 1, lambda: jax.jit(lambda y: run(solver, graph, y))(initial))["pos"])
    return dict(kind="runs", lanes=lanes, refs=refs, outs=outs)


# -- evaluation --------------------------------------------------------------------------

SCALE = 100


def everything(graph, assignments, delta):
    """All numbers that evaluating gives, as one vector."""
    res = graph.compute_whitened_residual_vector(assignments)
    cost, costres = graph.compute_cost(assignments)
    A = graph.compute_whitened_residual_jacobian(assignments, res)
    moved = assignments.manifold_retract(
        VariableAssignments(storage=delta, storage_layout=graph.local_storage_layout)
    )
    values = [jnp.reshape(x, (-1,)) for v in moved.get_variables() for x in jax.tree_util.tree_leaves(moved.get_value(v))]
    ok, nll, _ = attempt(lambda: graph.compute_joint_nll(assignments))
    rest = [jnp.reshape(nll, (1,))] if ok else []
    return jnp.concatenate([res, costres, jnp.reshape(cost, (1,)), A.as_dense().reshape(-1), *values, *rest])


def execute_eval(s):
    types = s["types"]
    variables = {i + 1: TYPES[t]() for i, t in enumerate(types)}
    order = s["order"]

    def parts(e):
        factors = [make_factor(f, variables) for f in e["factors"]]
        values = [dec(types[i - 1], e["values"][i - 1]) for i in order]
        return factors, values

    entries = [parts(e) for e in s["entries"]]

    def assign(values):
        return VariableAssignments.make_from_dict({variables[i]: v for i, v in zip(order, values)})

    def delta_of(e, graph):
        names = {v: i for i, v in variables.items()}
        ds = [dec_delta(types[names[v] - 1], e["delta"][names[v] - 1]) for v in graph.get_variables()]
        return jnp.asarray(onp.concatenate(ds), dtype=jnp.float32)

    enc = lambda v: to_fixes(v, SCALE)
    direct = []
    graphs, assignments, deltas = [], [], []
    for e, (factors, values) in zip(s["entries"], entries):

        def fn():
            graphs.append(StackedFactorGraph.make(factors))
            assignments.append(assign(values))
            deltas.append(delta_of(e, graphs[-1]))
            return enc(everything(graphs[-1], assignments[-1], deltas[-1]))

        ok, v, err = attempt(fn)
        direct.append(dict(ok=ok, err=err, v=v if ok else []))

    outs = []

    def add(way, entry, ok, v, err):
        outs.append(dict(way=way, entry=entry, ok=ok, err=err, v=enc(v) if ok else []))

    def one(way, entry, fn):
        ok, v, err = attempt(lambda: jax.block_until_ready(fn()))
        add(way, entry, ok, v, err)

    def many(way, fn):
        ok, v, err = attempt(lambda: jax.block_until_ready(fn()))
        for i in range(len(entries)):
            add(way, i + 1, ok, v[i] if ok else None, err)

    if len(deltas) == len(entries):
        g, a, d = graphs[0], assignments[0], deltas[0]

        def built(factors, values, delta):
            return everything(StackedFactorGraph.make(factors, use_onp=False), assign(values), delta)

        jitted = jax.jit(everything)
        one("jnp", 1, lambda: built(*entries[0], d))
        one("closure", 1, lambda: jax.jit(lambda x: everything(g, x, d))(a))
        for i in range(len(entries)):
            one("jit", i + 1, lambda: jitted(graphs[i], assignments[i], deltas[i]))
        one("built_jit", 1, lambda: jax.jit(built)(*entries[0], d))
        one("jvp", 1, lambda: jax.jvp(lambda x: everything(g, dataclasses.replace(a, storage=x), d), (a.storage,), (jnp.ones_like(a.storage),))[0])
        many("batch", lambda: jax.vmap(everything)(stack(graphs), stack(assignments), stack(deltas)))
        many("built_batch", lambda: jax.vmap(built)(stack([x[0] for x in entries]), stack([x[1] for x in entries]), stack(deltas)))

        # Only the assignments differ
        def alone():
            return [everything(g, x, y) for x, y in zip(assignments, deltas)]

        ok, vs, err = attempt(alone)
        base = len(direct)
        direct += [dict(ok=ok, err=err, v=enc(v) if ok else []) for v in (vs if ok else entries)]
        ok, v, err = attempt(lambda: jax.vmap(everything, in_axes=(None, 0, 0))(g, stack(assignments), stack(deltas)))
        for i in range(len(entries)):
            add("assignments", base + i + 1, ok, v[i] if ok else None, err)
    return dict(kind="eval", direct=direct, outs=outs, tol=2, rel=20000)


# -- whole solves ------------------------------------------------------------------------


def make_solver(solver, linear, verbose=False, unroll=True, iterations=3):
    lin = {
        "cholmod": jaxfg.sparse.CholmodSolver,
        "cg": jaxfg.sparse.ConjugateGradientSolver,
        "inexact": jaxfg.sparse.InexactStepConjugateGradientSolver,
    }[linear]()
    s = jaxfg.solvers
    if solver == "fixed":
        return s.FixedIterationGaussNewtonSolver(linear_solver=lin, verbose=verbose, unroll=unroll, iterations=iterations)
    return dict(gn=s.GaussNewtonSolver, lm=s.LevenbergMarquardtSolver, dogleg=s.DoglegSolver)[solver](linear_solver=lin, verbose=verbose)


def execute_solve(s):
    types = s["types"]
    variables = {i + 1: TYPES[t]() for i, t in enumerate(types)}
    factors = [make_factor(f, variables) for f in s["factors"]]
    factors += [exec_map.make_pose_factor(f, types, variables) for f in s["poses"]]
    graph = StackedFactorGraph.make(factors)

    def initial_at(start):
        return VariableAssignments.make_from_dict(
            {variables[i]: exec_map.start_value(types[i - 1], s["truth"][i - 1], start[i - 1]) for i in s["order"]}
        )

    initials = [initial_at(x) for x in s["starts"]]

    def numbers(result):
        out = []
        for i in s["order"]:
            p = params(types[i - 1], result.get_value(variables[i]))
            if types[i - 1] in ("SO3", "SE3"):
                # A rotation has two quaternions
                q = s["truth"][i - 1][:4]
                k = max(range(4), key=lambda j: abs(q[j]))
                if p[k] * q[k] < 0:
                    p[:4] *= -1.0
            out += to_fixes(p, 1000)
        return out

    direct, outs = [], []
    for r in s["runs"]:
        a, b = r["solver"], r["linear"]
        solver = make_solver(a, b)
        base = len(direct)
        for x in initials:
            ok, v, err = attempt(lambda: numbers(run(solver, graph, x)))
            direct.append(dict(ok=ok, err=err, v=v if ok else []))

        def one(way, entry, fn):
            ok, v, err = attempt(lambda: numbers(fn()))
            outs.append(dict(way=way, entry=base + entry, ok=ok, err=err, v=v if ok else []))

        one("jit", 1, lambda: compiled(solver, graph, initials[0]))
        if a != "fixed":
            one("closure", 3, lambda: jax.jit(lambda x: run(solver, graph, x))(initials[2]))
        one("verbose", 1, lambda: silenced(lambda: run(make_solver(a, b, verbose=True), graph, initials[0])))
        if b != "cholmod":
            ok, res, err = attempt(lambda: jax.vmap(run, in_axes=(None, None, 0))(solver, graph, stack(initials)))
            for i in range(len(initials)):
                if ok:
                    one("batch", i + 1, lambda: pick(res, i))
                else:
                    outs.append(dict(way="batch", entry=base + i + 1, ok=False, err=err, v=[]))
        if a == "fixed":
            one("looped", 1, lambda: run(make_solver(a, b, unroll=False), graph, initials[0]))
            one("looped_verbose", 3, lambda: silenced(lambda: run(make_solver(a, b, unroll=False, verbose=True), graph, initials[2])))
    return dict(kind="solve", direct=direct, outs=outs, tol=20, rel=1000)


# -- derivatives -------------------------------------------------------------------------


def execute_deriv(s):
    types = s["types"]
    variables = {i + 1: TYPES[t]() for i, t in enumerate(types)}
    solver = make_solver("fixed", s["linear"], iterations=s["iterations"])
    wc, wd, ww = s["which_c"], s["which_d"], s["which_w"]

    def solution(c, d, w, storage, factors, layout):
        factors = list(factors)
        factors[wc] = dataclasses.replace(factors[wc], c=c)
        noise = dataclasses.replace(factors[wd].noise_model, sqrt_precision_diagonal=d)
        factors[wd] = dataclasses.replace(factors[wd], noise_model=noise)
        if ww >= 0:
            noise = dataclasses.replace(factors[ww].noise_model, sqrt_precision_matrix=w)
            factors[ww] = dataclasses.replace(factors[ww], noise_model=noise)
        graph = StackedFactorGraph.make(factors, use_onp=False)
        result = graph.solve(VariableAssignments(storage=storage, storage_layout=layout), solver)
        return jnp.concatenate([traced_params(t, result.get_value(variables[i + 1])) for i, t in enumerate(types)])

    template = VariableAssignments.make_from_defaults([variables[i + 1] for i in range(len(types))])
    layout = template.storage_layout
    fn = lambda c, d, w, x0, factors: solution(c, d, w, x0, factors, layout)
    modes = {"reverse": jax.jit(jax.jacrev(fn, argnums=(0, 1, 2, 3))), "forward": jax.jit(jax.jacfwd(fn, argnums=(0, 1, 2, 3)))}

    cases = []
    for data in s["datasets"]:
        factors = [make_factor(dict(f, np="jnp"), variables) for f in data["factors"]]
        initial = template
        for i, t in enumerate(types):
            x = exec_map.start_value(t, data["truth"][i], data["start"][i])
            initial = initial.set_value(variables[i + 1], x)
        outs = []
        for way, jac in modes.items():
            c, d = jnp.asarray(factors[wc].c), jnp.asarray(factors[wd].noise_model.sqrt_precision_diagonal)
            w = jnp.asarray(factors[ww].noise_model.sqrt_precision_matrix) if ww >= 0 else jnp.zeros((1, 1))
            ok, g, err = attempt(lambda: jac(c, d, w, initial.storage, factors))
            for k, (by, which) in enumerate((("c", wc + 1), ("d", wd + 1), ("w", ww + 1), ("x0", 1))):
                if which == 0:
                    continue
                rows = onp.asarray(g[k]) if ok else onp.zeros((0, 0))
                if ok and by == "w":
                    rows = rows[:, onp.tril(onp.ones(w.shape, dtype=bool))]
                outs.append(dict(way=way, by=by, which=which, ok=ok, err=err, g=[to_fixes(r, 10000) for r in rows]))
        cases.append(dict(truth=data["truth"], factors=[{k: v for k, v in f.items() if k != "np"} for f in data["factors"]], outs=outs))
    return dict(kind="deriv", types=types, cases=cases, slack=10)


def execute(s):
    return dict(lanes=execute_lanes, calls=execute_calls, eval=execute_eval, solve=execute_solve, deriv=execute_deriv)[s["kind"]](s)
