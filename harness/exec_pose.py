"""Pose variables and pose factors (C18)."""

import functools

import jax
import numpy as onp
from jax import numpy as jnp

import jaxfg
from jaxfg.core import StackedFactorGraph, VariableAssignments

from .vtypes import GROUPS, TYPES, dec, dec_delta, params, to_fixes
from .worker import attempt

TRACE = "TracePose"
FS = 3000
JS = 10000
STEP = 0.05


def unit(t):
    d = TYPES[t].get_local_parameter_dim()
    return jaxfg.noises.DiagonalGaussian(sqrt_precision_diagonal=jnp.ones(d))


def fix(t, value, scale=FS):
    return to_fixes(params(t, value), scale)


def matrix(m):
    m = onp.asarray(m)
    assert m.ndim == 2
    return [to_fixes(row, JS) for row in m]


@functools.lru_cache(maxsize=None)
def functions(t):
    """Compiled, one function per group."""
    cls = TYPES[t]
    va, vb = cls(), cls()
    geometry = jaxfg.geometry
    prior = lambda mu: geometry.PriorFactor.make(va, mu, unit(t))
    between = lambda m: geometry.BetweenFactor.make(va, vb, m, unit(t))

    def values(a, b):
        return VariableAssignments.make_from_dict({va: a, vb: b})

    def prior_residual(a, mu):
        f = prior(mu)
        return f.compute_residual_vector(f.get_variable_values_from_assignments(values(a, a)))

    def between_residual(a, b, m):
        f = between(m)
        return f.compute_residual_vector(f.get_variable_values_from_assignments(values(a, b)))

    def observe(a, b, m, mu, d):
        fp, fb = prior(mu), between(m)
        both = values(a, b)
        vp = fp.get_variable_values_from_assignments(both)
        vb_ = fb.get_variable_values_from_assignments(both)
        return dict(
            moved=cls.manifold_retract(a, d),
            prior=fp.compute_residual_vector(vp),
            between=fb.compute_residual_vector(vb_),
            pjac=fp.compute_residual_jacobians(vp)[0],
            ajac=fb.compute_residual_jacobians(vb_)[0],
            bjac=fb.compute_residual_jacobians(vb_)[1],
            rjac=jax.tree_util.tree_leaves(cls.manifold_retract_jacobian(a))[0],
        )

    def differences(a, b, m, mu, d):
        steps = jnp.concatenate([STEP * jnp.eye(d.shape[0]), -STEP * jnp.eye(d.shape[0])])
        moved = jax.vmap(lambda s: cls.manifold_retract(a, s))(steps)
        movedb = jax.vmap(lambda s: cls.manifold_retract(b, s))(steps)
        return dict(
            p=jax.vmap(lambda x: prior_residual(x, mu))(moved),
            a=jax.vmap(lambda x: between_residual(x, b, m))(moved),
            b=jax.vmap(lambda x: between_residual(a, x, m))(movedb),
            r=jax.tree_util.tree_leaves(moved)[0],
        )

    return jax.jit(observe), jax.jit(differences)


def in_graph(t, a, b, m, mu):
    """The same, among other factors of the same kind, and through stacking."""
    cls = TYPES[t]
    va, vb, vc = cls(), cls(), cls()
    geometry = jaxfg.geometry
    ld = cls.get_local_parameter_dim()
    factors = [
        geometry.BetweenFactor.make(vb, vc, m, unit(t)),
        geometry.PriorFactor.make(va, mu, unit(t)),
        geometry.BetweenFactor.make(va, vb, m, unit(t)),
        geometry.PriorFactor.make(vc, b, unit(t)),
    ]
    graph = StackedFactorGraph.make(factors)
    values = VariableAssignments.make_from_dict({vc: m, vb: b, va: a})
    res = graph.compute_whitened_residual_vector(values)
    A = onp.asarray(graph.compute_whitened_residual_jacobian(values, res).as_dense())
    rows = onp.asarray(res).reshape((4, ld))
    at = lambda v: slice(graph.local_storage_layout.index_from_variable[v], graph.local_storage_layout.index_from_variable[v] + ld)
    # Betweens come first: groups are in order of first appearance
    block = lambda i, v: A[i * ld : (i + 1) * ld, at(v)]
    return dict(
        gprior=to_fixes(rows[2], FS), gbetween=to_fixes(rows[1], FS),
        gpjac=matrix(block(2, va)), gajac=matrix(block(1, va)), gbjac=matrix(block(1, vb)),
    )  # fmt: skip


def setting(s):
    """Poses a and b, measurement, mean of the prior on a, and delta."""
    t = s["t"]
    if s["exact"]:
        a, b, m = (dec(t, s[k]) for k in ("a", "b", "m"))
        d = jnp.asarray(dec_delta(t, s["delta"]), dtype=jnp.float32)
        # One of the poses is moved first
        move = lambda x: TYPES[t].manifold_retract(x, d)
        return (move(a), b, m, a, d) if s["who"] == "a" else (a, move(b), m, b, d)
    exp = lambda k: GROUPS[t].exp(jnp.array(s[k], dtype=jnp.float32) / 1000.0)
    frame, d = exp("frame"), jnp.array(s["delta"], dtype=jnp.float32) / 1000.0
    a, b = frame @ exp("a"), frame @ exp("b")
    if s["consistent"]:
        return a, b, a.inverse() @ b, a, d
    return a, b, exp("m"), frame @ exp("m"), d


def observe_pose(s):
    t = s["t"]
    a, b, m, mu, d = setting(s)
    observe, differences = functions(t)
    out = dict(t=t, a=fix(t, a), b=fix(t, b), m=fix(t, m), mu=fix(t, mu), d=to_fixes(d, FS))

    def fn():
        o = observe(a, b, m, mu, d)
        r = dict(moved=fix(t, o["moved"]), prior=to_fixes(o["prior"], FS), between=to_fixes(o["between"], FS))
        r.update({k: matrix(o[k]) for k in ("pjac", "ajac", "bjac", "rjac")})
        diff = differences(a, b, m, mu, d)
        k = d.shape[0]
        for name, x in diff.items():
            x = onp.asarray(x)
            r[name + "diff"] = [[to_fixes(x[i], JS), to_fixes(x[k + i], JS)] for i in range(k)]
        r.update(in_graph(t, a, b, m, mu))
        return r

    ok, res, err = attempt(fn)
    return dict(out, **(res if ok else {}), ok=ok, err=err)


def execute(s):
    t = s["t"]
    if s["kind"] == "facts":
        cls = TYPES[t]
        return dict(kind="facts", t=t, default=fix(t, cls.get_default_value()), dim=int(cls.get_parameter_dim()), ldim=int(cls.get_local_parameter_dim()))
    if s["kind"] == "match":
        tries = []
        for x in s["tries"]:
            make = lambda: jaxfg.geometry.BetweenFactor.make(TYPES[x["a"]](), TYPES[x["b"]](), GROUPS[x["m"]].identity(), unit(x["a"]))
            tries.append(dict(x, made=attempt(make)[0]))
        return dict(kind="match", t=t, tries=tries)
    keys = dict(a="a", b="b", m="m", d="delta", who="who")
    exact = {k: s[v] if s["exact"] else [] for k, v in keys.items()}
    return dict(kind="pose", jac=s["jac"], exact=dict(exact, **{"is": s["exact"]}), **observe_pose(s))
