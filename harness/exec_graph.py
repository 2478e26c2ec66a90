"""Evaluates factor graphs and noise models (C03, C05-C09, C20)."""

from typing import NamedTuple, Tuple

import jax
import jax_dataclasses as jdc
import jaxlie
import numpy as onp
from jax import numpy as jnp
from overrides import overrides

import jaxfg
from jaxfg.core import FactorBase, StackedFactorGraph, VariableAssignments

from .exec_storage import EMPTY_LAYOUT, observe_layout
from .factors import make_factor
from .vtypes import BAD, TYPES, M31Value, P3Value, dec, to_fix, to_fixes, to_int, to_ints
from .worker import attempt

TRACE = "TraceGraph"
K = 12
NLL_SCALE = 1000

EMPTY_EVAL = dict(lay=EMPTY_LAYOUT, glay=EMPTY_LAYOUT, res=[], costres=[], rows=[], stray=0,
                  shape=[0, 0], rdim=0, cost=BAD, nllok=False, nll=BAD)  # fmt: skip


def rows_of(A, scale, num_rows=None):
    """Re-encode a coordinate matrix row by row, as [column, value] pairs (from 1)."""
    rows = [[] for _ in range(A.shape[0] if num_rows is None else num_rows)]
    stray = 0
    r, c, v = (onp.asarray(x) for x in (A.coords.rows, A.coords.cols, A.values))
    assert r.ndim == c.ndim == v.ndim == 1
    if not len(r) == len(c) == len(v):
        return rows, -1
    for i, j, x in zip(r, c, v):
        if 0 <= i < len(rows) and 0 <= j < A.shape[1]:
            rows[int(i)].append([int(j) + 1, to_int(x, scale, tol=0.02)])
        else:
            stray += 1
    return rows, stray


def evaluate(graph, assignments, names, nll):
    res = graph.compute_whitened_residual_vector(assignments)
    cost, costres = graph.compute_cost(assignments)
    A = graph.compute_whitened_residual_jacobian(assignments, res)
    rows, stray = rows_of(A, K)
    out = dict(
        lay=observe_layout(graph.local_storage_layout, names),
        glay=observe_layout(graph.storage_layout, names),
        res=to_ints(res, K, tol=0.02),
        costres=to_ints(costres, K, tol=0.02),
        rows=rows,
        stray=stray,
        shape=[int(x) for x in A.shape],
        rdim=int(graph.residual_dim),
        cost=to_fix(cost, K * K),
        nllok=False,
        nll=BAD,
    )
    assert onp.shape(cost) == ()
    if nll:
        ok, value, _ = attempt(lambda: graph.compute_joint_nll(assignments))
        out["nllok"] = ok
        out["nll"] = to_fix(value, NLL_SCALE) if ok else BAD
    return out


def build(s):
    variables = {i + 1: TYPES[t]() for i, t in enumerate(s["types"])}
    names = {v: i for i, v in variables.items()}
    values = {variables[i + 1]: dec(t, x) for i, (t, x) in enumerate(zip(s["types"], s["values"]))}
    factors = []
    for f in s["factors"]:
        factors.append(factors[f["same"] - 1] if "same" in f else make_factor(f, variables))
    return variables, names, values, factors


def execute_graph(s):
    variables, names, values, factors = build(s)
    used = sorted({names[v] for f in factors for v in f.variables})
    base = VariableAssignments.make_from_dict(values)

    direct = []
    for f in factors if s.get("direct", True) else []:

        def fn():
            vals = f.get_variable_values_from_assignments(base)
            raw = f.compute_residual_vector(vals)
            jacs = f.compute_residual_jacobians(vals)
            white = f.noise_model.whiten_residual_vector(raw)
            wjacs = [f.noise_model.whiten_jacobian(j, white) for j in jacs]
            mat = lambda m, k: [to_ints(row, k, tol=0.02) for row in onp.asarray(m)]
            return dict(
                raw=to_ints(raw),
                jacs=[mat(j, 1) for j in jacs],
                white=to_ints(white, K, tol=0.02),
                wjacs=[mat(j, K) for j in wjacs],
            )

        ok, res, err = attempt(fn)
        direct.append(dict(ok=ok, err=err, **(res if ok else dict(raw=[], jacs=[], white=[], wjacs=[]))))

    evals = []
    for e in s["evals"]:

        def fn():
            fs = [factors[i - 1] for i in e["perm"]]
            if e.get("iter"):
                fs = iter(fs)
            graph = StackedFactorGraph.make(fs, use_onp=e["onp"])
            assignments = VariableAssignments.make_from_dict(
                {variables[i]: values[variables[i]] for i in e["order"]}
            )
            return evaluate(graph, assignments, names, s.get("nll", False))

        ok, res, err = attempt(fn)
        evals.append(dict(ok=ok, err=err, perm=e["perm"], order=e["order"], **(res if ok else EMPTY_EVAL)))
    return dict(
        kind="graph", prop=s["prop"], types=s["types"], values=s["values"], used=used,
        factors=[{k: v for k, v in f.items() if k not in ("np", "same")} for f in s["factors"]],
        direct=direct, evals=evals, nll=s.get("nll", False),
    )  # fmt: skip


# -- noise models given by covariance --------------------------------------------------


def execute_white(s):
    """Gaussian noise in every way it can be given."""
    m = lambda x: jnp.array(x, dtype=jnp.float32)

    def fn():
        if s["how"] == "cov":
            noise = jaxfg.noises.Gaussian.make_from_covariance(m(s["cov"]))
        elif s["how"] == "prec":
            noise = jaxfg.noises.Gaussian(sqrt_precision_matrix=m(s["w"]))
        elif s["how"] == "diagcov":
            given = s["covdiag"]
            noise = jaxfg.noises.DiagonalGaussian.make_from_covariance(
                {"list": list(map(float, given)), "jnp": m(given), "onp": onp.array(given, dtype=onp.float32)}[s["np"]]
            )
        else:
            noise = jaxfg.noises.DiagonalGaussian(sqrt_precision_diagonal=m(s["d"]))
        white = noise.whiten_residual_vector(m(s["r"]))
        wjac = noise.whiten_jacobian(m(s["j"]), white)
        assert white.shape == (len(s["r"]),) and wjac.shape == m(s["j"]).shape
        white, wjac = (onp.asarray(x, dtype=onp.float64) for x in (white, wjac))
        return dict(
            dim=int(noise.get_residual_dim()),
            ww=to_fix(white @ white, s["scale"]),
            jw=to_fixes(wjac.T @ white, s["scale"]),
            jj=[to_fixes(row, s["scale"]) for row in wjac.T @ wjac],
        )

    ok, res, err = attempt(fn)
    keep = {k: s[k] for k in ("prop", "how", "cov", "w", "covdiag", "d", "r", "j", "u", "uj", "l", "scale")}
    return dict(kind="white", ok=ok, err=err, **keep, **(res if ok else dict(dim=0, ww=BAD, jw=[], jj=[])))


def execute_nll(s):
    """Joint likelihood where the determinants are powers of a base (any size)."""

    def fn():
        variables = [TYPES["R1"]() for _ in s["factors"]]
        factors = []
        for v, f in zip(variables, s["factors"]):
            n = f["n"]
            sd = float(f["base"]) ** f["exp"]
            if f["full"]:
                noise = jaxfg.noises.Gaussian(sqrt_precision_matrix=jnp.eye(n) * sd)
            else:
                noise = jaxfg.noises.DiagonalGaussian(sqrt_precision_diagonal=jnp.ones(n) * sd)
            factors.append(Spread(variables=(v,), noise_model=noise, n=n))
        graph = StackedFactorGraph.make(factors)
        a = VariableAssignments.make_from_dict({v: jnp.zeros(1) for v in variables})
        return dict(nll=to_fix(graph.compute_joint_nll(a), NLL_SCALE))

    ok, res, err = attempt(fn)
    return dict(kind="nll", prop=s["prop"], factors=s["factors"], ok=ok, err=err, **(res if ok else dict(nll=BAD)))


@jdc.pytree_dataclass
class Spread(FactorBase):
    n: jdc.Static[int]

    @overrides(check_signature=False)
    def compute_residual_vector(self, variable_values: Tuple[jnp.ndarray]) -> jnp.ndarray:
        (x,) = variable_values
        return jnp.ones(self.n) * x[0]


# -- declared inputs -------------------------------------------------------------------

TOKENS = dict(
    any=object, arr=jnp.ndarray, tup=tuple, dct=dict, P3=P3Value, M31=M31Value,
    SO2=jaxlie.SO2, SE2=jaxlie.SE2, SO3=jaxlie.SO3, SE3=jaxlie.SE3,
)  # fmt: skip

_classes = {}
_seen = []  # (tuple type, ids of the values) for every residual evaluation


def input_factor_class(hint):
    """A factor class with the declaration asked for; its residual is the list of first
    parameters of its values."""
    key = (hint["kind"], tuple(hint["toks"]))
    if key in _classes:
        return _classes[key]
    toks = [TOKENS[t] for t in hint["toks"]]
    if hint["kind"] == "named":
        declared = NamedTuple("Declared", [(f"field{9 - i}", t) for i, t in enumerate(toks)])
    elif hint["kind"] == "variadic":
        declared = Tuple[toks[0], ...]
    elif hint["kind"] == "plain":
        declared = Tuple[tuple(toks)]
    else:
        declared = None

    def compute_residual_vector(self, variable_values):
        _seen.append(type(variable_values))
        if hint["kind"] == "named":
            vals = [getattr(variable_values, f"field{9 - i}") for i in range(len(toks))]
        else:
            vals = list(variable_values)
        firsts = [jnp.asarray(jax.tree_util.tree_leaves(v)[0]).reshape(-1)[0] for v in vals]
        return jnp.stack(firsts)

    if declared is not None:
        compute_residual_vector.__annotations__ = {"variable_values": declared, "return": jnp.ndarray}

    compute_residual_vector.__override__ = True  # what @overrides does
    namespace = {"compute_residual_vector": compute_residual_vector}
    cls = jdc.pytree_dataclass(type(FactorBase)(f"InputFactor{len(_classes)}", (FactorBase,), namespace))
    _classes[key] = (cls, declared)
    return _classes[key]


def execute_inputs(s):
    """Direct, stacked and Jacobian evaluation of a factor with declared inputs."""
    cls, declared = input_factor_class(s["hint"])
    types = s["types"]
    variables = [TYPES[t]() for t in types]
    values = {v: dec(t, x) for v, t, x in zip(variables, types, s["values"])}
    firsts = [onp.asarray(jax.tree_util.tree_leaves(values[v])[0]).reshape(-1)[0] for v in variables]
    noise = jaxfg.noises.DiagonalGaussian(jnp.ones(len(types)))
    factor = cls(variables=tuple(variables), noise_model=noise)
    order = [variables[i - 1] for i in s["order"]]
    assignments = VariableAssignments.make_from_dict({v: values[v] for v in order})

    def wrap_of(t):
        if declared is not None and s["hint"]["kind"] == "named":
            return "named" if t is declared else "other"
        return "plain" if t is tuple else "other"

    paths = []

    def path(name, fn):
        del _seen[:]
        ok, res, err = attempt(fn)
        paths.append(
            dict(path=name, ok=ok, err=err, calls=len(_seen), wraps=sorted({wrap_of(t) for t in _seen}),
                 res=to_ints(res, 2) if ok else [])  # fmt: skip
        )

    path("direct", lambda: factor.compute_residual_vector(factor.get_variable_values_from_assignments(assignments)))
    path(
        "build",
        lambda: factor.compute_residual_vector(
            factor.build_variable_value_tuple(tuple(values[v] for v in variables))
        ),
    )
    graph_ok, graph, err = attempt(lambda: StackedFactorGraph.make([factor]))
    if graph_ok:
        path("stacked", lambda: graph.compute_whitened_residual_vector(assignments))
        path("cost", lambda: graph.compute_cost(assignments)[1])
        path(
            "jacobian",
            # What matters here is what the residual function sees
            lambda: (graph.compute_whitened_residual_jacobian(assignments, jnp.zeros(len(types))), jnp.array(firsts))[1],
        )
    return dict(
        kind="inputs", prop=s["prop"], hint=s["hint"], types=types, graph_ok=graph_ok,
        firsts=to_ints(firsts, 2), paths=paths,
    )  # fmt: skip


def execute(s):
    return dict(graph=execute_graph, white=execute_white, nll=execute_nll, inputs=execute_inputs)[s["kind"]](s)
