"""Sparse matrices, linear solvers, and histories of requests (C10, C11, C12)."""

import json
import os
import random
import subprocess
import sys
import tempfile

import jax
import numpy as onp
import scipy.sparse
from jax import numpy as jnp

import jaxfg
from jaxfg.core import StackedFactorGraph, VariableAssignments
from jaxfg.sparse import SparseCooCoordinates, SparseCooMatrix

from .exec_keys import key_of
from .factors import make_factor
from .vtypes import BAD, TYPES, to_fixes, to_ints
from .worker import attempt

TRACE = "TraceLinear"

LargeVariable = jaxfg.core.RealVectorVariable[30]


def make_coo(entries, rows, cols, lib=jnp, dtype=onp.float32, unit=1):
    e = onp.array(entries, dtype=onp.float64).reshape((-1, 3))
    values = e[:, 2] / unit
    return SparseCooMatrix(
        values=lib.array(values.astype(dtype)),
        coords=SparseCooCoordinates(
            rows=lib.array(e[:, 0].astype(onp.int32) - 1), cols=lib.array(e[:, 1].astype(onp.int32) - 1)
        ),
        shape=(rows, cols),
    )


def execute_coo(s):
    unit, vunit = s["unit"], s["vunit"]
    lib = {"jnp": jnp, "onp": onp}[s["lib"]]
    A = make_coo(s["entries"], s["rows"], s["cols"], lib, onp.dtype(s["dtype"]), unit)
    vlib = {"jnp": jnp, "onp": onp}[s["vlib"]]
    vec = lambda v: vlib.array((onp.array(v) / vunit).astype(s["vdtype"]))
    x, y = vec(s["x"]), vec(s["y"])
    errs = []

    def obs(fn, default):
        ok, res, err = attempt(fn)
        errs.append(err)
        return res if ok else default

    both = unit * vunit
    vecs = lambda v: to_ints(v, both)

    def mat(m):
        m = onp.asarray(m)
        assert m.ndim == 2
        return [to_ints(row, unit) for row in m]

    out = dict(
        Ax=obs(lambda: vecs(A @ x), [BAD]),
        Axjit=obs(lambda: vecs(jax.jit(lambda A, x: A @ x)(A, x)), [BAD]),
        ATy=obs(lambda: vecs(A.T @ y), [BAD]),
        Tshape=obs(lambda: [int(k) for k in A.T.shape], []),
        TTshape=obs(lambda: [int(k) for k in A.T.T.shape], []),
        TTx=obs(lambda: vecs(A.T.T @ x), [BAD]),
        dense=obs(lambda: mat(A.as_dense()), []),
        Tdense=obs(lambda: mat(A.T.as_dense()), []),
        scipy=obs(lambda: mat(A.as_scipy_coo_matrix().toarray()), []),
        Tscipy=obs(lambda: mat(A.T.as_scipy_coo_matrix().toarray()), []),
    )

    def back():
        m = scipy.sparse.coo_matrix(A.as_scipy_coo_matrix())
        return SparseCooMatrix.from_scipy_coo_matrix(m)

    out["back"] = obs(lambda: mat(back().as_dense()), [])
    out["backx"] = obs(lambda: vecs(back() @ x), [BAD])

    # Vectors of other lengths, of which indexing could make something anyway
    refused = []
    for m, length in ((A, s["cols"]), (A.T, s["rows"])):
        for wrong in {length + 1, length - 1, 1, 2 * length} - {length, 0}:
            refused.append(not attempt(lambda: m @ vlib.ones(wrong))[0])
        refused.append(not attempt(lambda: m @ vlib.ones((length, 2)))[0])
    return dict(
        kind="coo", entries=s["entries"], rows=s["rows"], cols=s["cols"], x=s["x"], y=s["y"],
        errs=errs, refused=refused, **out,
    )  # fmt: skip


def make_linear_solver(name, eta100=1):
    if name == "cholmod":
        return jaxfg.sparse.CholmodSolver()
    if name == "cg":
        return jaxfg.sparse.ConjugateGradientSolver()
    return jaxfg.sparse.InexactStepConjugateGradientSolver(inexact_step_eta=eta100 / 100.0)


def execute_linear(s):
    solver = make_linear_solver(s["solver"], s["eta100"])
    runs = []
    # Solutions are proportional to the right-hand side, whatever its magnitude
    unit = 2.0 ** s["exp2"]
    atb = jnp.array(onp.array(s["atb"]) / unit, dtype=jnp.float32)
    lam = s["lam4"] / 4.0

    def record(fn):
        ok, x, err = attempt(fn)
        runs.append(dict(ok=ok, err=err, x=to_fixes(x, s["sx"] * unit) if ok and onp.shape(x) == atb.shape else [BAD]))

    A = make_coo(s["entries"], s["rows"], s["cols"])
    rng = random.Random(s["id"])
    entries = list(s["entries"])
    rng.shuffle(entries)
    B = make_coo(entries, s["rows"], s["cols"])
    record(lambda: solver.solve_subproblem(A, atb, lam, s["iteration"]))
    record(lambda: solver.solve_subproblem(B, atb, jnp.float32(lam), s["iteration"]))
    record(lambda: jax.jit(solver.solve_subproblem)(A, atb, jnp.float32(lam), jnp.int32(s["iteration"])))
    keep = {k: s[k] for k in ("solver", "chain", "entries", "rows", "cols", "atb", "lam4", "iteration", "eta100", "sx")}
    return dict(kind="linear", runs=runs, **keep)


# -- histories -------------------------------------------------------------------------


def linear_problem(p, big):
    """Problem number p (see spec/History.tla) as (A, ATb)."""
    size, pattern, values = [
        (4, "a", 1), (4, "b", 1), (4, "a", 2), (6, "c", 1), (6, "d", 1), (4, "e", 1),
    ][p - 1]  # fmt: skip
    pos = random.Random(f"{big}-{size}-{pattern}")
    val = random.Random(f"{big}-{size}-{pattern}-{values}")
    if big:
        # Dense diagonal blocks, large enough for supernodal factorizations; patterns
        # differ in which columns belong together
        n = 120 if size == 4 else 160
        order = list(range(n))
        pos.shuffle(order)
        entries = []
        row = 1
        for block in (order[: n // 2], order[n // 2 :]):
            for c in block:
                entries.append([row, c + 1, 40 + val.randint(0, 5)])
                for d in block:
                    if d != c:
                        entries.append([row, d + 1, val.choice([-1, 1])])
                row += 1
        rows, cols = n, n
    else:
        # The same number of entries per row, at different places, and the same numbers
        # in a different order
        cols, rows = size, 2 * size
        sizes = [2, 3, 4, 4] * (rows // 4)
        val.shuffle(sizes)
        entries = []
        for i in range(rows):
            js = pos.sample(range(cols), 2)
            if i < cols and i not in js:
                js[0] = i
            entries.append([i + 1, js[0] + 1, sizes[i]])
            entries.append([i + 1, js[1] + 1, val.choice([-1, 1])])
    atb = [val.randint(-9, 9) * (100 if big else 1) for _ in range(cols)]
    return make_coo(entries, rows, cols), jnp.array(atb, dtype=jnp.float32)


def graph_problem(p):
    """Graphs of equal structure with different connectivity; see spec/History.tla."""
    size, pattern, values = [
        (4, "a", 1), (4, "b", 1), (4, "a", 2), (6, "c", 1), (6, "d", 1), (4, "e", 1),
    ][p - 1]  # fmt: skip
    pos = random.Random(f"graph-{size}-{pattern}")
    val = random.Random(f"graph-{size}-{pattern}-{values}")
    variables = {i: TYPES["R2"]() for i in range(1, size + 1)}
    noise = lambda d: dict(kind="diag", d=[d, d], w=[], inner="", num=1, den=1)
    base = dict(cls="poly", gain=1, pad=[], bias=0, js=[], np="jnp")
    eye = [[1, 0], [0, 1]]
    factors = []
    for i in variables:
        factors.append(dict(base, vs=[i], c=[val.randint(-4, 4), val.randint(-4, 4)], q=eye, b=[], noise=noise(1)))
    for i in range(2, size + 1):
        j = pos.randint(1, i - 1)
        factors.append(
            dict(base, vs=[j, i], c=[val.randint(-4, 4), val.randint(-4, 4)],
                 q=[[-1, 0, 1, 0], [0, -1, 0, 1]], b=[[1, 1, 4, 1]], noise=noise(2))  # fmt: skip
        )
    # The order of variables has to be the same everywhere, for code to be shared
    graph = StackedFactorGraph.make([make_factor(f, variables) for f in factors])
    assignments = VariableAssignments.make_from_dict({v: jnp.array([0.25, -0.5]) for v in variables.values()})
    return dict(graph=graph, assignments=assignments, variables=variables)


def big_graph_problem(p):
    """Pairs of large variables; see spec/History.tla. Patterns differ in the pairs."""
    size, pattern, values = [
        (4, "a", 1), (4, "b", 1), (4, "a", 2), (6, "c", 1), (6, "d", 1), (4, "e", 1),
    ][p - 1]  # fmt: skip
    val = random.Random(f"large-{size}-{pattern}-{values}")
    pairs = {"a": "1234", "b": "1324", "c": "123456", "d": "142536", "e": "1423"}[pattern]
    dim = 30
    variables = {i: LargeVariable() for i in range(1, size + 1)}
    ones = dict(kind="diag", d=[1] * dim, w=[], inner="", num=1, den=1)
    base = dict(cls="poly", gain=1, pad=[], bias=0, js=[], np="jnp", b=[], c=[0] * dim, noise=ones)
    eye = lambda k: [[k if i == j else 0 for j in range(dim)] for i in range(dim)]
    factors = [dict(base, vs=[i], q=eye(8)) for i in variables]
    for k in range(0, size, 2):
        q = [[val.choice([-1, 1]) for _ in range(2 * dim)] for _ in range(dim)]
        factors.append(dict(base, vs=[int(pairs[k]), int(pairs[k + 1])], q=q))
    graph = StackedFactorGraph.make([make_factor(f, variables) for f in factors])
    return dict(graph=graph, assignments=VariableAssignments.make_from_defaults(variables.values()), variables=variables)


class Workshop:
    """Solver objects and graphs that are reused from request to request."""

    def __init__(self):
        self.objects = {}

    def get(self, key, make):
        if key not in self.objects:
            self.objects[key] = make()
        return self.objects[key]

    def answer(self, req):
        what, s, p = req["what"], req["s"], req["p"]
        kind = req["kind"]
        if what == "linear":
            A, atb = linear_problem(p, req["big"])
            solver = self.get(("linear", kind, s), lambda: make_linear_solver(kind))
            return to_fixes(solver.solve_subproblem(A, atb, req["lam4"] / 4.0, 0), 10000)
        big = what == "covariance" and req["big"]
        g = self.get(("graph", p, big), lambda: big_graph_problem(p) if big else graph_problem(p))
        values = g["assignments"]
        if req["at"]:
            values = VariableAssignments.make_from_dict({v: jnp.array([-1.0, 0.75]) for v in g["variables"].values()})
        if what == "evaluate":
            cost, res = g["graph"].compute_cost(values)
            A = g["graph"].compute_whitened_residual_jacobian(values, res)
            return to_fixes(cost, 100) + to_fixes(res, 1000) + to_fixes(A.T @ res, 100)
        if what == "optimize":
            solver = self.get(("nonlinear", kind, s), lambda: make_nonlinear_solver(kind))
            sol = g["graph"].solve(values, solver=solver)
            return [x for v in g["variables"].values() for x in to_fixes(sol.get_value(v), 1000)]
        if what == "covariance":
            cov = self.get(("covariance", p, big, req["at"]), lambda: jaxfg.experimental.SparseCovariance.make(g["graph"], values))
            if big:
                return to_fixes(cov.as_dense().reshape(-1)[:: 37], 1000000)
            vs = [g["variables"][i] for i in req["vs"]]
            return to_fixes(cov.compute_marginal(*vs), 10000)
        raise KeyError(what)


def make_nonlinear_solver(kind):
    s = jaxfg.solvers
    options = dict(verbose=False, max_iterations=15)
    return {
        "gn": lambda: s.GaussNewtonSolver(**options),
        "lm": lambda: s.LevenbergMarquardtSolver(**options),
        "dogleg": lambda: s.DoglegSolver(**options),
        "gn-cg": lambda: s.GaussNewtonSolver(linear_solver=jaxfg.sparse.ConjugateGradientSolver(), **options),
        "fixed": lambda: s.FixedIterationGaussNewtonSolver(verbose=False, iterations=6),
    }[kind]()


def execute_history(s):
    shop = Workshop()
    answers = []
    for req in s["requests"]:
        ok, x, err = attempt(lambda: shop.answer(req))
        answers.append(dict(key=key_of(req), what=req["what"], ok=ok, err=err, x=x if ok else []))
    return dict(kind="history", answers=answers)


def execute_fresh(s):
    """Ask in a process of its own."""
    if not s.get("inside"):
        with tempfile.TemporaryDirectory() as d:
            a, b = os.path.join(d, "in"), os.path.join(d, "out")
            with open(a, "w") as f:
                f.write(json.dumps(dict(s, inside=True)) + "\n")
            p = subprocess.run([sys.executable, "-m", "harness.worker", a, b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode == 0:
                with open(b) as f:
                    r = json.loads(f.read().splitlines()[-1])
                r.pop("trace_module")
                return r
            if p.returncode > 0:
                raise RuntimeError(p.stdout.decode()[-2000:])
            return dict(kind="fresh", key=key_of(s["request"]), ok=False, err="died", x=[])
    ok, x, err = attempt(lambda: Workshop().answer(s["request"]))
    return dict(kind="fresh", key=key_of(s["request"]), ok=ok, err=err, x=x if ok else [])


def execute(s):
    return dict(coo=execute_coo, linear=execute_linear, history=execute_history, fresh=execute_fresh)[s["kind"]](s)
