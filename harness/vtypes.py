"""Variable types of the conformance harness, and their integer encodings.

Counterpart of spec/VarTypes.tla: `dec` builds a value from the integers used in the
specification, `enc` maps an observed value back (or to `BAD` where it is off the grid).
"""

from typing import Dict, NamedTuple, Tuple

import jax
import jaxlie
import numpy as onp
from jax import numpy as jnp
from overrides import overrides

import jaxfg
from jaxfg.core import RealVectorVariable, VariableBase

from .data import DIM, LDIM  # noqa: F401

BAD = 999999999
GRID = 1e-3


def to_int(x, scale=1, tol=GRID):
    x = float(x) * scale
    if not onp.isfinite(x) or abs(x) > 5e8:
        return BAD
    r = round(x)
    return int(r) if abs(x - r) <= tol * max(1.0, abs(x) * 1e-3) else BAD


def to_ints(xs, scale=1, tol=GRID):
    return [to_int(x, scale, tol) for x in onp.asarray(xs, dtype=onp.float64).reshape(-1)]


def to_fix(x, scale):
    """Fixed point: nearest integer to x * scale."""
    x = float(x) * scale
    if not onp.isfinite(x) or abs(x) > 9e8:
        return BAD
    return int(round(x))


def to_fixes(xs, scale):
    return [to_fix(x, scale) for x in onp.asarray(xs, dtype=onp.float64).reshape(-1)]


class S0(VariableBase[jax.Array]):
    @classmethod
    @overrides(check_signature=False)
    def get_default_value(cls) -> jax.Array:
        return jnp.array(1.0)


class S5(S0):
    @classmethod
    @overrides(check_signature=False)
    def get_default_value(cls) -> jax.Array:
        return jnp.array(5.0)


class T1(VariableBase[Tuple[jax.Array, jax.Array]]):
    @classmethod
    @overrides(check_signature=False)
    def get_default_value(cls) -> Tuple[jax.Array, jax.Array]:
        return (jnp.array(7.0), jnp.zeros(1))


class P3Value(NamedTuple):
    gain: jax.Array
    offset: jax.Array


class P3(VariableBase[P3Value]):
    @classmethod
    @overrides(check_signature=False)
    def get_default_value(cls) -> P3Value:
        return P3Value(gain=jnp.array(4.0), offset=jnp.array([-1.0, 2.0]))


class D5(VariableBase[Dict[str, jax.Array]]):
    @classmethod
    @overrides(check_signature=False)
    def get_default_value(cls) -> Dict[str, jax.Array]:
        return {"b": jnp.array([8.0, 9.0]), "a": jnp.array([[1.0], [2.0], [3.0]])}


R2 = RealVectorVariable[2]


class O2(R2):
    """Supplies its own retraction Jacobian, which is not the derivative on purpose.
    Derived from another type that is used next to it."""

    @classmethod
    @overrides(check_signature=False)
    def manifold_retract_jacobian(cls, x):
        return (3.0 * jnp.eye(2),)


class M31Value(NamedTuple):
    p: jax.Array
    q: jax.Array
    n: jax.Array


class M31(VariableBase[M31Value]):
    """Three parameters, one degree of freedom."""

    @classmethod
    @overrides(check_signature=False)
    def get_default_value(cls) -> M31Value:
        return M31Value(jnp.array(1.0), jnp.array(2.0), jnp.array(3.0))

    @classmethod
    @overrides(check_signature=False)
    def get_local_parameter_dim(cls) -> int:
        return 1

    @classmethod
    @overrides(check_signature=False)
    def manifold_retract(cls, x: M31Value, local_delta: jax.Array) -> M31Value:
        return M31Value(
            x.p + x.q * local_delta[0], x.q - local_delta[0], x.n + 2.0 * local_delta[0]
        )


class M23(VariableBase[jax.Array]):
    """Two parameters, three (redundant) degrees of freedom."""

    @classmethod
    @overrides(check_signature=False)
    def get_default_value(cls) -> jax.Array:
        return jnp.array([6.0, -2.0])

    @classmethod
    @overrides(check_signature=False)
    def get_local_parameter_dim(cls) -> int:
        return 3

    @classmethod
    @overrides(check_signature=False)
    def manifold_retract(cls, x: jax.Array, local_delta: jax.Array) -> jax.Array:
        return jnp.array(
            [x[0] + local_delta[0] * x[1], x[1] + local_delta[1] - local_delta[2]]
        )


TYPES = {
    "R1": RealVectorVariable[1],
    "R2": R2,
    "R3": RealVectorVariable[3],
    "S0": S0,
    "S5": S5,
    "T1": T1,
    "P3": P3,
    "D5": D5,
    "O2": O2,
    "M31": M31,
    "M23": M23,
    "SO2": jaxfg.geometry.SO2Variable,
    "SE2": jaxfg.geometry.SE2Variable,
    "SO3": jaxfg.geometry.SO3Variable,
    "SE3": jaxfg.geometry.SE3Variable,
}
NAME_FROM_TYPE = {v: k for k, v in TYPES.items()}
GROUPS = {"SO2": jaxlie.SO2, "SE2": jaxlie.SE2, "SO3": jaxlie.SO3, "SE3": jaxlie.SE3}


def name_of(variable_or_type):
    t = variable_or_type if isinstance(variable_or_type, type) else type(variable_or_type)
    return NAME_FROM_TYPE.get(t, t.__name__)


# -- values ---------------------------------------------------------------------------


def dec(t, xs, mode="f32", unit=1):
    """Build a value. `mode` picks how numbers are represented: f32 (JAX), f64 or int
    (NumPy)."""
    if t in GROUPS:
        xs = onp.array(xs, dtype=onp.float64)
        if t in ("SO3", "SE3"):
            xs[:4] /= 2.0
        make = {
            "SO2": lambda p: jaxlie.SO2(unit_complex=p),
            "SE2": lambda p: jaxlie.SE2(unit_complex_xy=p),
            "SO3": lambda p: jaxlie.SO3(wxyz=p),
            "SE3": lambda p: jaxlie.SE3(wxyz_xyz=p),
        }[t]
        return make(jnp.array(xs, dtype=jnp.float32))
    if mode == "f32":
        a = jnp.array(xs, dtype=jnp.float32) / unit
    elif mode == "f64":
        a = onp.array(xs, dtype=onp.float64) / unit
    else:
        assert all(x % unit == 0 for x in xs)
        a = onp.array(xs, dtype=onp.int64) // unit
    if t in ("R1", "R2", "R3", "O2", "M23"):
        return a
    if t in ("S0", "S5"):
        return a[0]
    if t == "T1":
        return (a[0], a[1:])
    if t == "P3":
        return P3Value(gain=a[0], offset=a[1:])
    if t == "D5":
        return {"b": a[3:], "a": a[:3].reshape((3, 1))}
    if t == "M31":
        return M31Value(a[0], a[1], a[2])
    raise KeyError(t)


def params(t, v):
    """Parameters of an observed value in the order of the specification."""
    f = lambda *xs: onp.concatenate([onp.asarray(x, dtype=onp.float64).reshape(-1) for x in xs])
    if t == "SO2":
        return f(v.unit_complex)
    if t == "SE2":
        return f(v.unit_complex_xy)
    if t == "SO3":
        return f(v.wxyz)
    if t == "SE3":
        return f(v.wxyz_xyz)
    if t == "T1":
        return f(v[0], v[1])
    if t == "P3":
        return f(v.gain, v.offset)
    if t == "D5":
        return f(v["a"], v["b"])
    if t == "M31":
        return f(v.p, v.q, v.n)
    return f(v)


def shapes_ok(t, v):
    """Does an observed value have the structure of its type?"""
    default = TYPES[t].get_default_value()
    if jax.tree_util.tree_structure(default) != jax.tree_util.tree_structure(v):
        return False
    return all(
        onp.shape(a) == onp.shape(b)
        for a, b in zip(jax.tree_util.tree_leaves(default), jax.tree_util.tree_leaves(v))
    )


def enc_params(t, p):
    p = onp.array(p, dtype=onp.float64)
    if t in ("SO3", "SE3"):
        p[:4] *= 2.0
        for x in p[:4]:
            if abs(x) > 1e-2:
                if x < 0:
                    p[:4] *= -1.0
                break
    return [to_int(x) for x in p]


def enc(t, v, unit=1):
    if not shapes_ok(t, v):
        return [BAD]
    return enc_params(t, unit * params(t, v))


# -- deltas ---------------------------------------------------------------------------

HALF_PI = onp.pi / 2
THIRD = 2 * onp.pi / 3 / onp.sqrt(3.0)


def _dec_axis(d):
    nnz = sum(x != 0 for x in d)
    return onp.array(d, dtype=onp.float64) * (onp.pi if nnz == 1 else THIRD)


def _enc_axis(d):
    out = []
    for x in d:
        for mag in (0.0, onp.pi, THIRD):
            if abs(abs(x) - mag) < 1e-3:
                out.append(0 if mag == 0.0 else (1 if x > 0 else -1))
                break
        else:
            out.append(BAD)
    return out


def dec_delta(t, d):
    if t == "SO2":
        return onp.array(d) * HALF_PI
    if t == "SE2":
        s = 1.0 if d[2] == 0 else HALF_PI
        return onp.array([s * d[0], s * d[1], d[2] * HALF_PI])
    if t == "SO3":
        return _dec_axis(d)
    if t == "SE3":
        return onp.concatenate([onp.array(d[:3], dtype=onp.float64), _dec_axis(d[3:])])
    return onp.array(d, dtype=onp.float64)


def enc_delta(t, d):
    d = onp.array(d, dtype=onp.float64)
    if t == "SO2":
        return to_ints(d / HALF_PI)
    if t == "SE2":
        q = to_int(d[2] / HALF_PI)
        s = 1.0 if q == 0 else HALF_PI
        return to_ints(d[:2] / s) + [q]
    if t == "SO3":
        return _enc_axis(d)
    if t == "SE3":
        return to_ints(d[:3]) + _enc_axis(d[3:])
    return to_ints(d)
