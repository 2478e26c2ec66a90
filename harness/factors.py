"""Factor classes of the conformance harness: polynomial residuals with integer
coefficients, counterpart of the factor records in spec/Graph.tla."""

from typing import Any, NamedTuple, Tuple

import jax_dataclasses as jdc
import numpy as onp
from jax import numpy as jnp
from overrides import overrides

import jaxfg
from jaxfg.core import FactorBase

from .data import LDIM
from .vtypes import name_of


def traced_params(t, v):
    """Parameters of a value in the order of the specification, inside a residual."""
    f = lambda *xs: jnp.concatenate([jnp.asarray(x).reshape(-1) for x in xs])
    if t == "SO2":
        return f(v.unit_complex)
    if t == "SE2":
        return f(v.unit_complex_xy)
    if t == "T1":
        return f(v[0], v[1])
    if t == "P3":
        return f(v.gain, v.offset)
    if t == "D5":
        return f(v["a"], v["b"])
    if t == "M31":
        return f(v.p, v.q, v.n)
    return f(v)


@jdc.pytree_dataclass
class _Poly(FactorBase):
    c: Any
    q: Any
    bi: Any
    bc: Any
    pad: Any
    bias: Any
    js: Any
    gain: jdc.Static[int]

    def evaluate(self, values):
        x = jnp.concatenate(
            [traced_params(name_of(var), val) for var, val in zip(self.variables, values)]
        )
        r = self.c + self.q @ x
        if self.bc.shape[0] > 0:
            r = r.at[self.bi[:, 0]].add(self.bc * x[self.bi[:, 1]] * x[self.bi[:, 2]])
        return self.gain * (r + jnp.sum(self.pad) + self.bias)

    # Shared by all of them, but every class declares its own inputs
    @overrides(check_signature=False)
    def compute_residual_vector(self, variable_values: Tuple[object, ...]) -> jnp.ndarray:
        return self.evaluate(variable_values)


@jdc.pytree_dataclass
class Poly(_Poly):
    pass


@jdc.pytree_dataclass
class Neg(_Poly):
    @overrides(check_signature=False)
    def compute_residual_vector(self, variable_values: Tuple[object, ...]) -> jnp.ndarray:
        return -self.evaluate(variable_values)


class Ends(NamedTuple):
    # Names that are not in the order of the alphabet
    start: object
    end: object


@jdc.pytree_dataclass
class Named(_Poly):
    @overrides(check_signature=False)
    def compute_residual_vector(self, variable_values: Ends) -> jnp.ndarray:
        return self.evaluate((variable_values.start, variable_values.end))


@jdc.pytree_dataclass
class Pair(_Poly):
    @overrides(check_signature=False)
    def compute_residual_vector(self, variable_values: Tuple[object, object]) -> jnp.ndarray:
        first, second = variable_values
        return self.evaluate((first, second))


@jdc.pytree_dataclass
class Ana(_Poly):
    """Supplies its own Jacobians, which are not the derivative on purpose."""

    @overrides(check_signature=False)
    def compute_residual_jacobians(self, variable_values: Tuple[object, ...]) -> Tuple[jnp.ndarray, ...]:
        out, start = [], 0
        for v in self.variables:
            n = LDIM[name_of(v)]
            out.append(self.js[:, start : start + n])
            start += n
        return tuple(out)


CLASSES = dict(poly=Poly, neg=Neg, named=Named, pair=Pair, ana=Ana)


def make_noise(nm):
    kind = nm["inner"] if nm["kind"] == "huber" else nm["kind"]
    if kind == "diag":
        noise = jaxfg.noises.DiagonalGaussian(sqrt_precision_diagonal=jnp.array(nm["d"], dtype=jnp.float32))
    else:
        noise = jaxfg.noises.Gaussian(sqrt_precision_matrix=jnp.array(nm["w"], dtype=jnp.float32))
    if nm["kind"] == "huber":
        noise = jaxfg.noises.HuberWrapper(wrapped=noise, delta=nm["num"] / nm["den"])
    return noise


def make_factor(f, variables):
    """`variables` maps numbers to variable objects."""
    np = {"jnp": jnp, "onp": onp}[f.get("np", "jnp")]
    arr = lambda x, shape: np.array(x, dtype=onp.float32).reshape(shape)
    vs = tuple(variables[i] for i in f["vs"])
    r, b = len(f["c"]), f["b"]
    # Three ways of writing the same residual: halves that cancel, or integer parameters
    form = f.get("form", "float")
    half = 0.5 if form == "half" else 0.0
    bias = f["bias"] if form == "int" else f["bias"] - half
    return CLASSES[f["cls"]](
        variables=vs,
        noise_model=make_noise(f["noise"]),
        c=np.array(f["c"], dtype=onp.int32) if form == "int" else arr(f["c"], (r,)) + half,
        q=arr(f["q"], (r, -1)),
        bi=np.array([[x - 1 for x in t[:3]] for t in b], dtype=onp.int32).reshape((len(b), 3)),
        bc=arr([t[3] for t in b], (len(b),)),
        pad=arr(f["pad"], (len(f["pad"]),)),
        bias=bias if f.get("np") == "onp" else jnp.array(bias),
        js=arr(f["js"], (r, -1)) if f["js"] else np.zeros((0,), dtype=onp.float32),
        gain=f["gain"],
    )
