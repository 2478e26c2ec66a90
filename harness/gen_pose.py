"""Scenarios for pose variables and pose factors (C18)."""

import math

from . import data
from .data import LDIM, LIE


def models(prop, tier, seed):
    thorough = tier == "thorough"
    c = lambda t, variant="ok", emit=False, reach=1: dict(T=t, Reach=reach, Variant=variant, Emit=emit)
    inv = ["Residual", "PriorResidual", "FrameFree", "PriorFree", "PriorBetween", "GroupLaws"]
    ms = []
    for t in LIE:
        reach = 2 if thorough and t != "SE3" else 1
        ms.append(dict(module="MCPose", label=f"poses-{t}", constants=c(t, reach=reach),
                       invariants=inv + (["LogUnique"] if thorough or t != "SE3" else []), workers=4))  # fmt: skip
        ms.append(dict(module="MCPose", label=f"walks-{t}", constants=c(t, emit=True), invariants=["Residual"],
                       simulate=200 if thorough else 25, depth=4, seed=seed, workers=1))  # fmt: skip
    for v in ("swapped", "world"):
        ms.append(dict(module="MCPose", label=f"broken-{v}", constants=c("SE2", v), invariants=["Residual"], expect="Residual", workers=1))
    return ms


def tangent(rng, t, angle, reach=700):
    """Thousandths; the rotation has at most the given angle."""
    def ball(n, radius):
        x = [rng.gauss(0, 1) for _ in range(n)]
        norm = math.sqrt(sum(y * y for y in x)) or 1.0
        r = radius * rng.choice([1.0, rng.random(), rng.random()])
        return [round(r * y / norm) for y in x]

    rot = ball(1 if t in ("SO2", "SE2") else 3, angle)
    trans = {"SO2": 0, "SO3": 0, "SE2": 2, "SE3": 3}[t]
    return ball(trans, reach) + rot if trans else rot


def scenarios(prop, tier, rng, generated):
    thorough = tier == "thorough"
    out = [dict(id=f"facts-{t}", kind="facts", t=t) for t in LIE]
    tries = [dict(a=a, b=b, m=m) for a in LIE for b in LIE for m in LIE]
    out.append(dict(id="match", kind="match", t="SE2", tries=tries))
    for i, (label, p) in data.sample_programs(rng, [(l, p) for l, p in generated if l.startswith("walks-")], 120 if thorough else 12):
        out.append(dict(id=f"{label}-{i}", kind="pose", group=p["t"], jac=False, exact=True, **p))
    for t in LIE:
        for i in range(150 if thorough else 22):
            size = rng.choice([800, 800, 300, 2])
            out.append(dict(
                id=f"random-{t}-{i}", kind="pose", group=t, t=t, jac=True, exact=False,
                frame=tangent(rng, t, 3000), a=tangent(rng, t, size), b=tangent(rng, t, size), m=tangent(rng, t, size),
                delta=tangent(rng, t, rng.choice([10, 800, 2500])), consistent=rng.random() < 0.25,
            ))  # fmt: skip
    return out
