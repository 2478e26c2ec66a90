"""Recovers covariances (C17, C03, C07)."""

import numpy as onp
from jax import numpy as jnp

import jaxfg
from jaxfg.core import StackedFactorGraph, VariableAssignments
from jaxfg.experimental import SparseCovariance

from .exec_graph import build
from .exec_storage import EMPTY_LAYOUT, observe_layout
from .factors import make_factor
from .vtypes import BAD, TYPES, to_fix, to_fixes
from .worker import attempt

TRACE = "TraceCov"
EMPTY = dict(lay=EMPTY_LAYOUT, full=[], dense=[], recovered=[], queries=[], entries=[])


def matrix(m, scale):
    m = onp.asarray(m)
    assert m.ndim == 2, "matrices expected"
    return [to_fixes(row, scale) for row in m]


def execute_cov(s):
    variables, names, values, factors = build(s)
    scale = s["scale"]
    objs = []
    for o in s["objs"]:

        def fn():
            graph = StackedFactorGraph.make([factors[i] for i in o["perm"]])
            assignments = VariableAssignments.make_from_dict({variables[i]: values[variables[i]] for i in o["order"]})
            cov = SparseCovariance.make(graph, assignments)
            out = dict(lay=observe_layout(graph.local_storage_layout, names), queries=[], entries=[])
            for op in o["ops"]:
                if op[0] == "full":
                    out["full"] = matrix(cov.compute_marginal(*[variables[v] for v in s["vseq"]]), scale)
                elif op[0] == "dense":
                    out["dense"] = matrix(cov.as_dense(), scale)
                elif op[0] == "recovered":
                    out["recovered"] = matrix(cov.as_dense(use_inverse=False), scale)
                elif op[0] == "marginal":
                    out["queries"].append([op[1], matrix(cov.compute_marginal(*[variables[v] for v in op[1]]), scale)])
                else:
                    out["entries"].append([op[1], op[2], to_fix(cov[op[1] - 1, op[2] - 1], scale)])
            return out

        ok, res, err = attempt(fn)
        objs.append(dict(res if ok else EMPTY, ok=ok, err=err))
    return dict(
        kind="cov", prop=s["prop"], types=s["types"], values=s["values"], vseq=s["vseq"], expect=s["expect"], scale=scale,
        factors=[{k: v for k, v in f.items() if k != "np"} for f in s["factors"]], objs=objs,
    )  # fmt: skip


def execute_tree(s):
    n, dim = len(s["parent"]), s["dim"]
    t = f"R{dim}"
    nodes = {i: TYPES[t]() for i in range(1, n + 1)}
    eye = [[int(i == j) for j in range(dim)] for i in range(dim)]
    neg = [[-x for x in row] for row in eye]
    base = dict(cls="poly", c=[0] * dim, b=[], gain=1, pad=[], bias=0, js=[], np="onp")
    noise = lambda w: dict(kind="diag", d=[w] * dim, w=[], inner="", num=1, den=1)
    factors = []
    for i in s["order"]:
        i += 1
        w, p = s["weights"][i - 1], s["parent"][i - 1]
        if i == 1:
            f = dict(base, vs=[1], q=eye)
        elif s["flip"][i - 1]:
            f = dict(base, vs=[i, p], q=[a + b for a, b in zip(eye, neg)])
        else:
            f = dict(base, vs=[p, i], q=[a + b for a, b in zip(neg, eye)])
        factors.append(make_factor(dict(f, noise=noise(w)), nodes))

    def fn():
        graph = StackedFactorGraph.make(factors)
        zero = jnp.zeros(dim)
        assignments = VariableAssignments.make_from_dict({v: zero for v in nodes.values()})
        cov = SparseCovariance.make(graph, assignments)
        return [[q, matrix(cov.compute_marginal(*[nodes[i] for i in q]), s["scale"])] for q in s["queries"]]

    ok, res, err = attempt(fn)
    return dict(
        kind="tree", prop=s["prop"], parent=s["parent"], var4=[{1: 4, 2: 1}[w] for w in s["weights"]], dim=dim,
        scale=s["scale"], ok=ok, err=err, queries=res if ok else [],
    )  # fmt: skip


def execute(s):
    return dict(cov=execute_cov, tree=execute_tree)[s["kind"]](s)
