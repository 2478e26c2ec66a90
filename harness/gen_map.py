"""Scenarios for whole solves (C16, C03, C07): problems with a known integer minimizer."""

from . import data
from .data import DIM, LDIM, rand_value
from .gen_graph import rand_noise, raw_residual
from .gen_storage import shuffled

EUCLIDEAN = ["R1", "R2", "R3", "S0", "S5", "T1", "P3", "D5"]
NONLINEAR = ["gn", "lm", "dogleg", "fixed-unrolled", "fixed-looped", "default"]
LINEAR = ["cholmod", "cg", "inexact"]


def models(prop, tier, seed):
    if prop not in ("C16", "C03"):
        return []
    c = lambda types, mech, variant="ok", emit=False: dict(TypeSet=types, Mechanism=mech, Variant=variant, Reach=2, Emit=emit)
    inv = ["Reached", "OrderKept", "PathFree"]
    ms = []
    for mech in ("converted", "inplace"):
        for types in ("small", "mixed", "nested"):
            ms.append(dict(module="MCMap", label=f"map-{mech}-{types}", constants=c(types, mech, emit=prop == "C16"), invariants=inv, properties=["InitialKept"], workers=2))
    ms.append(dict(module="MCMap", label="broken-noback", constants=c("small", "converted", "noback"), invariants=["OrderKept"], expect="OrderKept", workers=1))
    ms.append(dict(module="MCMap", label="broken-noconvert", constants=c("mixed", "converted", "noconvert"), invariants=["Reached"], expect="Reached", workers=1))
    ms.append(dict(module="MCMap", label="broken-pairing", constants=c("mixed", "inplace", "positional"), invariants=["Reached"], expect="Reached", workers=1))
    return ms


# -- problems --------------------------------------------------------------------------


def blank(cls, vs, dim):
    return dict(cls=cls, vs=vs, c=[0] * dim, q=[], b=[], gain=1, pad=[], bias=0, js=[], np="onp")


def zero_at(f, types, truth):
    """Shift the constant part such that the residual at the truth is zero."""
    sign = -1 if f["cls"] == "neg" else 1
    r = raw_residual(f, types, truth)
    f["c"] = [c - sign * x // f["gain"] for c, x in zip(f["c"], r)]
    assert not any(raw_residual(f, types, truth))
    return f


def huber(rng, dim):
    """Never beyond the threshold."""
    nm = rand_noise(rng, dim, ["diag"])
    return dict(nm, kind="huber", inner="diag", num=10000, den=1)


def noise(rng, dim, kinds=("diag", "gauss", "huber")):
    kind = rng.choice(kinds)
    return huber(rng, dim) if kind == "huber" else rand_noise(rng, dim, [kind])


def regular(rng, dim):
    """Well-conditioned noise."""
    if rng.random() < 0.6:
        return dict(kind="diag", d=[rng.choice([1, 1, 2, 3]) for _ in range(dim)], w=[], inner="", num=1, den=1)
    w = [[rng.choice([1, 2]) if i == j else (rng.choice([0, 0, 1, -1]) if j < i else 0) for j in range(dim)] for i in range(dim)]
    return dict(kind="gauss", d=[], w=w, inner="", num=1, den=1)


def anchor(rng, v, types, truth, weight=None):
    dim = DIM[types[v - 1]]
    f = blank(rng.choice(["poly", "neg"]), [v], dim)
    f["q"] = [[rng.choice([1, -1, 2]) if i == j else 0 for j in range(dim)] for i in range(dim)]
    f["noise"] = dict(kind="diag", d=[weight or rng.choice([1, 2]) for _ in range(dim)], w=[], inner="", num=1, den=1)
    return zero_at(f, types, truth)


def coupling(rng, types, truth, bilinear):
    cls = rng.choice(["poly", "neg", "named", "pair"])
    arity = 2 if cls in ("named", "pair") else rng.choice([1, 2, 3])
    vs = [rng.randint(1, len(types)) for _ in range(arity)]
    n = sum(DIM[types[v - 1]] for v in vs)
    dim = rng.choice([1, 2, 3])
    f = blank(cls, vs, dim)
    f["q"] = [[rng.choice([0, 0, 1, -1]) for _ in range(n)] for _ in range(dim)]
    if bilinear:
        f["b"] = [[rng.randint(1, dim), rng.randint(1, n), rng.randint(1, n), rng.choice([1, -1])] for _ in range(rng.choice([1, 2]))]
    f["gain"] = rng.choice([1, 1, 2])
    f["noise"] = noise(rng, dim)
    return zero_at(f, types, truth)


def twins(rng, f):
    """Two factors that pull in opposite directions by equal amounts."""
    e = [rng.choice([0, 1, -1, 2]) for _ in f["c"]]
    return [dict(f, c=[c + x for c, x in zip(f["c"], e)]), dict(f, c=[c - x for c, x in zip(f["c"], e)])]


def poly_problem(rng, affine, size=None):
    pool = rng.sample(EUCLIDEAN + ([] if affine else ["SO2", "SE2"]), rng.randint(1, 3))
    types = [rng.choice(pool) for _ in range(size or rng.randint(2, 5))]
    truth = [rand_value(rng, t, m=3) for t in types]
    factors = []
    for v in range(1, len(types) + 1):
        f = anchor(rng, v, types, truth)
        factors += twins(rng, f) if affine and rng.random() < 0.6 else [f]
    for _ in range(rng.randint(1, 4)):
        f = coupling(rng, types, truth, bilinear=not affine)
        factors += twins(rng, f) if affine and rng.random() < 0.5 else [f]
    rng.shuffle(factors)
    spread = 3000 if affine else 200
    start = [[rng.randint(-spread, spread) for _ in range(LDIM[t])] for t in types]
    return dict(kind="affine" if affine else "bilinear", types=types, truth=truth, factors=factors, poses=[], start=start, tol=10)


def qmul(a, b):
    w = a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]
    x = a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2]
    y = a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1]
    z = a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]
    return [w // 2, x // 2, y // 2, z // 2]


def qcanon(a):
    for x in a[:4]:
        if x:
            return [-y for y in a[:4]] + list(a[4:]) if x < 0 else list(a)
    return list(a)


def qrot(q, v):
    """Rotation of an integer vector by a (scaled) unit quaternion."""
    p = qmul(qmul(q, [0] + [2 * x for x in v]), [q[0]] + [-x for x in q[1:4]])
    return [x // 2 for x in p[1:]]


def relative(t, a, b):
    """inv(a) * b; the specification recomputes this."""
    if t == "SO2":
        return [a[0] * b[0] + a[1] * b[1], a[0] * b[1] - a[1] * b[0]]
    if t == "SE2":
        d = [b[2] - a[2], b[3] - a[3]]
        return relative("SO2", a, b) + [a[0] * d[0] + a[1] * d[1], a[0] * d[1] - a[1] * d[0]]
    inv = [a[0]] + [-x for x in a[1:4]]
    if t == "SO3":
        return qcanon(qmul(inv, b))
    return qcanon(qmul(inv, b[:4])) + qrot(inv, [y - x for x, y in zip(a[4:], b[4:])])


def pose_problem(rng, t, size=None):
    num = size or rng.randint(2, 6)
    types = [t] * num
    truth = [rand_value(rng, t, m=2) for _ in types]
    ld = LDIM[t]
    # Several anchors, for the sake of the iterative solvers
    poses = [dict(kind="prior", vs=[v], noise=regular(rng, ld)) for v in sorted(rng.sample(range(1, num + 1), (num + 1) // 2))]
    edges = [(i, i + 1) for i in range(1, num)] + [tuple(rng.sample(range(1, num + 1), 2)) for _ in range(rng.randint(0, 3))]
    for a, b in edges:
        if rng.random() < 0.3:
            a, b = b, a
        poses.append(dict(kind="between", vs=[a, b], noise=regular(rng, ld)))
    for f in poses:
        f["m"] = truth[f["vs"][0] - 1] if f["kind"] == "prior" else relative(t, truth[f["vs"][0] - 1], truth[f["vs"][1] - 1])
    rng.shuffle(poses)
    return dict(kind="poses", types=types, truth=truth, factors=[], poses=poses,
                start=[[rng.randint(-150, 150) for _ in range(ld)] for _ in types], tol=10)  # fmt: skip


def from_program(rng, p):
    """A behaviour of the specification: factors mention variables in the given order."""
    types, truth = p["types"], p["truth"]
    factors = [anchor(rng, v, types, truth, weight=1) for v in p["gorder"]]
    f = blank("poly", list(p["gorder"]), 1)
    f["q"] = [[1 if rng.random() < 0.5 else 0 for v in p["gorder"] for _ in range(DIM[types[v - 1]])]]
    f["noise"] = noise(rng, 1, ["diag"])
    factors.append(zero_at(f, types, truth))
    lie = lambda t: t in data.LIE
    start = [
        [rng.randint(-250, 250) for _ in range(LDIM[t])] if lie(t) else [1000 * (a - b) for a, b in zip(s, x)]
        for t, s, x in zip(types, p["start"], truth)
    ]
    return dict(kind="program", types=types, truth=truth, factors=factors, poses=[], start=start, tol=10, order=p["order"])


def combos(rng, k):
    out = []
    offset = rng.randrange(18)
    for i in range(k):
        j = (offset + 7 * i) % 18
        out.append((NONLINEAR[j % 6], LINEAR[j // 6]))
    return out


def scenarios(prop, tier, rng, generated):
    thorough = tier == "thorough"
    out = []
    problems = []
    if prop == "C16":
        programs = [(l, p) for l, p in generated if l.startswith("map-")]
        feats = lambda p: [(tuple(p["types"]), p["order"] == p["gorder"], p["steps"]), (tuple(p["order"]))]
        for i, (label, p) in data.cover_programs(rng, programs, feats, 6 if thorough else 1, 60 if thorough else 8):
            problems.append((f"{label}-{i}", from_program(rng, p)))
        k = 24 if thorough else 6
        problems += [(f"affine-{i}", poly_problem(rng, True)) for i in range(2 * k)]
        problems += [(f"bilinear-{i}", poly_problem(rng, False)) for i in range(2 * k)]
        problems += [(f"poses-{i}", pose_problem(rng, data.LIE[i % 4])) for i in range(2 * k)]
        for i, (name, p) in enumerate(problems):
            used = sorted({v for f in p["factors"] + p["poses"] for v in f["vs"]})
            runs = [
                dict(solver=a, linear=b, order=p.get("order") or shuffled(rng, used), perm=None, onp=rng.random() < 0.7)
                for a, b in combos(rng, 3)
            ]
            out.append(dict(p, id=name, prop=prop, runs=runs, again=True, weight=4))
    else:
        k = 30 if thorough else 6
        problems = [(f"affine-{i}", poly_problem(rng, True)) for i in range(k)]
        problems += [(f"bilinear-{i}", poly_problem(rng, False)) for i in range(k)]
        problems += [(f"poses-{i}", pose_problem(rng, data.LIE[i % 4], size=4)) for i in range(k)]
        for i, (name, p) in enumerate(problems):
            used = sorted({v for f in p["factors"] + p["poses"] for v in f["vs"]})
            num = len(p["factors"] + p["poses"])
            a, b = [("gn", "cholmod"), ("fixed-looped", "cg"), ("lm", "cholmod"), ("dogleg", "cg"), ("default", "cholmod"), ("fixed-unrolled", "cholmod")][i % 6]
            runs = [
                dict(solver=a, linear=b, order=shuffled(rng, used) if prop == "C03" and j else used,
                     perm=shuffled(rng, range(num)) if prop == "C07" and j else None, onp=True)
                for j in range(3)
            ]  # fmt: skip
            out.append(dict(p, id=name, prop=prop, runs=runs, again=False, weight=4))
    return out


def coverage(prop, scenarios, records):
    """How far from the minimizer the runs ended, at most, in thousandths."""
    worst, runs = {}, {}
    for r in records:
        for x in r.get("runs", []):
            if "solver" not in x or "truth" not in r:
                continue
            name = f"{x['solver']}/{x['linear']}"
            runs[name] = runs.get(name, 0) + 1
            for v, sol in x["sol"]:
                for a, b in zip(sol, r["truth"][v - 1]):
                    worst[name] = max(worst.get(name, 0), min(abs(a - 1000 * b), abs(a + 1000 * b)))
    return {"solver_combinations": runs, "worst_error_thousandths": worst}
