"""Scenarios for factor graphs and noise models (C03, C05-C09, C20)."""

import math

from . import data
from .data import DIM, LDIM, POLYNOMIAL, rand_value
from .gen_storage import shuffled


def models(prop, tier, seed):
    thorough = tier == "thorough"
    ms = []
    const = lambda n, variant="ok", emit=False: dict(MaxFactors=n, Variant=variant, Emit=emit)
    inv = ["ResidualBag", "RowBag", "Partition", "OrderFree"]
    if prop in ("C05", "C06", "C07"):
        ms.append(dict(module="MCGraph", label="stacking", constants=const(3 if thorough else 2), invariants=inv, workers=4))
        ms.append(dict(module="MCGraph", label="stacking-walks", constants=const(5, emit=True),
                       invariants=inv + ["EmitProgram"], simulate=40 if thorough else 4, depth=6, seed=seed, workers=1))  # fmt: skip
    if prop == "C05":
        ms.append(dict(module="MCGraph", label="broken-noshape", constants=const(2, "noshape"), invariants=inv, expect="ResidualBag", workers=1))
    if prop == "C06":
        ms.append(dict(module="MCGraph", label="broken-offset", constants=const(2, "offset"), invariants=["RowBag"], expect="RowBag", workers=1))
    noise = lambda part, reach, variant="ok", emit=False: dict(Part=part, Reach=reach, Variant=variant, Emit=emit)
    if prop == "C08":
        inv = ["DistanceRight", "SameMap", "DetRight"]
        ms.append(dict(module="MCNoise", label="gauss", constants=noise("gauss", 3 if thorough else 2, emit=True), invariants=inv + ["EmitProgram"], workers=1))
        ms.append(dict(module="MCNoise", label="broken-upper", constants=noise("gauss", 1, "upper"), invariants=["DistanceRight"], expect="DistanceRight", workers=1))
    if prop == "C09":
        inv = ["SameFactor", "InliersAlone"]
        ms.append(dict(module="MCNoise", label="huber", constants=noise("huber", 10 if thorough else 6), invariants=inv + ["GradientOfLoss"], workers=4))
        ms.append(dict(module="MCNoise", label="huber-points", constants=noise("huber", 16, emit=True), invariants=inv + ["EmitProgram"], workers=1))
        ms.append(dict(module="MCNoise", label="broken-unscaled", constants=noise("huber", 6, "unscaled"), invariants=inv, expect="SameFactor", workers=1))
    if prop == "C20":
        c = lambda variant="ok", emit=False: dict(MaxLen=3 if thorough else 2, Variant=variant, Emit=emit)
        ms.append(dict(module="MCInputs", label="inputs", constants=c(emit=True), invariants=["Contract", "EmitProgram"], workers=1))
        for v in ("zip", "first"):
            ms.append(dict(module="MCInputs", label="broken-" + v, constants=c(v), invariants=["Contract"], expect="Contract", workers=1))
    return ms


# -- integer data ----------------------------------------------------------------------


def raw_residual(f, types, values):
    """Only used to pick data on the grid, never as an oracle."""
    x = [xi for v in f["vs"] for xi in values[v - 1]]
    r = [c + sum(a * b for a, b in zip(row, x)) for c, row in zip(f["c"], f["q"])]
    for row, i, j, coef in f["b"]:
        r[row - 1] += coef * x[i - 1] * x[j - 1]
    sign = -1 if f["cls"] == "neg" else 1
    return [sign * f["gain"] * (ri + sum(f["pad"]) + f["bias"]) for ri in r]


def whitened(nm, r):
    kind = nm["inner"] if nm["kind"] == "huber" else nm["kind"]
    if kind == "diag":
        return [d * x for d, x in zip(nm["d"], r)]
    return [sum(a * b for a, b in zip(row, r)) for row in nm["w"]]


def rand_noise(rng, dim, kinds):
    kind = rng.choice(kinds)
    nm = dict(kind=kind, d=[], w=[], inner="", num=1, den=1)
    nz = lambda: rng.choice([-3, -2, -1, 1, 2, 3])
    inner = kind
    if kind == "huber":
        inner = nm["inner"] = rng.choice(["diag", "gauss"])
    if inner == "diag":
        nm["d"] = [rng.choice([1, 1, 2, 3, -2]) for _ in range(dim)]
    else:
        # Lower triangular as documented, mostly
        nm["w"] = [[nz() if i == j else (rng.randint(-2, 2) if j < i or rng.random() < 0.1 else 0)
                    for j in range(dim)] for i in range(dim)]  # fmt: skip
    return nm


def det(m):
    if not m:
        return 1
    return sum((-1) ** j * m[0][j] * det([row[:j] + row[j + 1 :] for row in m[1:]]) for j in range(len(m)) if m[0][j])


def smooth(x):
    x = abs(x)
    if x == 0:
        return False
    for p in (2, 3, 5, 7):
        while x % p == 0:
            x //= p
    return x == 1


def rand_structure(rng, types, kinds, classes):
    """What has to agree for factors to be stacked together."""
    cls = rng.choice(classes)
    arity = 2 if cls in ("named", "pair") else rng.choice([1, 1, 2, 2, 3])
    return dict(
        cls=cls,
        vtypes=[rng.choice(types) for _ in range(arity)],
        dim=rng.choice([1, 1, 2, 3]),
        nb=rng.choice([0, 0, 1, 2, 3]),
        gain=rng.choice([1, 1, 2, -1, -2]),
        npad=rng.choice([0, 0, 1, 2]),
        kinds=[rng.choice(kinds)],
    )


def rand_factor(rng, st, types, values):
    by_type = lambda t: [i + 1 for i, x in enumerate(types) if x == t]
    vs = [rng.choice(by_type(t)) for t in st["vtypes"]]
    if rng.random() < 0.3:
        # The same variable more than once
        for p in range(1, len(vs)):
            if types[vs[p] - 1] == types[vs[0] - 1]:
                vs[p] = vs[0]
    n = sum(DIM[types[v - 1]] for v in vs)
    ld = sum(LDIM[types[v - 1]] for v in vs)
    dim = st["dim"]
    small = lambda: rng.choice([0, 0, 1, -1, 2, -2])
    f = dict(
        cls=st["cls"], vs=vs, c=[rng.randint(-5, 5) for _ in range(dim)],
        q=[[small() for _ in range(n)] for _ in range(dim)],
        b=[[rng.randint(1, dim), rng.randint(1, n), rng.randint(1, n), rng.choice([1, -1])] for _ in range(st["nb"])],
        gain=st["gain"], pad=[rng.randint(-2, 2) for _ in range(st["npad"])], bias=rng.randint(-3, 3),
        js=[[rng.randint(-4, 4) for _ in range(ld)] for _ in range(dim)] if st["cls"] == "ana" else [],
        np=rng.choice(["jnp", "onp"]), form=rng.choice(["float", "half", "half", "int"]),
    )  # fmt: skip
    f["noise"] = rand_noise(rng, dim, st["kinds"])
    if f["noise"]["kind"] == "huber" and not tune_huber(rng, f, types, values):
        return None
    u = whitened(f["noise"], raw_residual(f, types, values))
    if max(abs(x) for x in u) > 250:
        return None
    return f


def tune_huber(rng, f, types, values):
    """Pick a threshold for which the reweighting is a multiple of 1 / 12."""
    nm = f["noise"]
    for _ in range(30):
        u = whitened(nm, raw_residual(f, types, values))
        n2 = sum(x * x for x in u)
        n = math.isqrt(n2)
        mode = rng.random()
        if mode < 0.4 and n <= 300:
            # Inlier
            nm["num"], nm["den"] = rng.choice([(n + 1, 1), (2 * n + 1, 1), (2 * n + 3, 2), (n + 50, 1)])
            return nm["num"] ** 2 * nm["den"] ** 2 < 2**30
        if n * n == n2 and 0 < n <= 120:
            h = rng.choice([1, 2, 3, 4, 6, 8, 9, 10, 11])
            num, den = h * h * n, 144
            g = math.gcd(num, den)
            nm["num"], nm["den"] = num // g, den // g
            return True
        f["c"] = [rng.randint(-9, 9) for _ in f["c"]]
        if rng.random() < 0.3:
            f["noise"] = nm = rand_noise(rng, len(f["c"]), ["huber"])
    return False


CLASSES = ["poly", "poly", "neg", "named", "pair", "ana"]


def rand_graph(rng, num_factors, num_vars, kinds, classes=CLASSES, structures=None, distinct=None):
    pool = rng.sample(POLYNOMIAL, distinct or rng.randint(1, 4))
    types = [rng.choice(pool) for _ in range(num_vars)]
    values = [rand_value(rng, t, m=3) for t in types]
    sts = [rand_structure(rng, types, kinds, classes) for _ in range(structures or rng.randint(1, 5))]
    # Near twins of a structure: what is easiest to mix up
    for st in list(sts):
        if rng.random() < 0.5:
            twin = dict(st)
            what = rng.choice(["gain", "npad", "kinds", "cls", "dim", "nb"])
            if what == "gain":
                # In Python, -1 and -2 hash alike
                twin["gain"] = {1: 2, 2: 1, -1: -2, -2: -1}[st["gain"]]
            elif what == "npad":
                twin["npad"] = st["npad"] + 1
            elif what == "nb":
                twin["nb"] = st["nb"] + 1
            elif what == "kinds":
                twin["kinds"] = [rng.choice(kinds)]
            elif what == "dim":
                twin["dim"] = st["dim"] % 3 + 1
            else:
                same = [c for c in classes if (c in ("named", "pair")) == (st["cls"] in ("named", "pair"))]
                twin["cls"] = rng.choice(same)
            sts.append(twin)
    factors = []
    tries = 0
    while len(factors) < num_factors and tries < 40 * num_factors:
        tries += 1
        f = rand_factor(rng, rng.choice(sts), types, values)
        if f is not None:
            factors.append(f)
    if not factors:
        return rand_graph(rng, num_factors, num_vars, kinds, classes, structures, distinct)
    total = sum(x * x for f in factors for x in whitened(f["noise"], raw_residual(f, types, values)))
    if total > 6_000_000:
        return rand_graph(rng, num_factors, num_vars, kinds, classes, structures, distinct)
    if rng.random() < 0.3:
        # The very same factor object once more
        k = rng.randrange(len(factors))
        factors.insert(rng.randrange(k + 1, len(factors) + 1), dict(factors[k], same=k + 1))
    return dict(kind="graph", types=types, values=values, factors=factors)


def used_vars(g):
    return sorted({v for f in g["factors"] for v in f["vs"]})


def with_evals(rng, g, prop):
    ids = list(range(1, len(g["factors"]) + 1))
    used = used_vars(g)
    first = []
    for f in g["factors"]:
        first += [v for v in f["vs"] if v not in first]
    onp = lambda: rng.random() < 0.7
    if prop == "C07":
        evals = [dict(perm=ids, order=first, onp=True)]
        evals += [dict(perm=shuffled(rng, ids), order=first, onp=onp()) for _ in range(2)]
        evals.append(dict(perm=ids[::-1], order=first, onp=True))
        g["direct"] = False
        g["nll"] = rng.random() < 0.8
    elif prop == "C03":
        evals = [dict(perm=ids, order=first, onp=True)]
        evals += [dict(perm=ids, order=shuffled(rng, used), onp=True) for _ in range(2)]
        g["direct"] = False
        g["nll"] = False
    else:
        evals = [dict(perm=ids, order=shuffled(rng, used), onp=True, iter=rng.random() < 0.3)]
        if prop in ("C05", "C06") or rng.random() < 0.3:
            evals.append(dict(perm=ids, order=first, onp=False))
        g["nll"] = prop == "C08"
    return dict(g, prop=prop, evals=evals, weight=1 + len(g["factors"]) // 4)


# -- noise models ----------------------------------------------------------------------


def rand_white(rng, i):
    n = rng.choice([1, 2, 3, 4])
    k = rng.choice([1, 2, 3])
    how = ["cov", "prec", "diagcov", "diagprec"][i % 4]
    mul = lambda a, b: [[sum(x * y for x, y in zip(row, col)) for col in zip(*b)] for row in a]
    vec = lambda a, x: [sum(p * q for p, q in zip(row, x)) for row in a]
    u = [rng.randint(-5, 5) for _ in range(n)]
    uj = [[rng.randint(-3, 3) for _ in range(k)] for _ in range(n)]
    s = dict(id=f"white-{i}", kind="white", how=how, cov=[], w=[], covdiag=[], d=[], l=[], scale=100,
             np=rng.choice(["list", "jnp", "onp"]))  # fmt: skip
    if how in ("cov", "diagcov"):
        s["l"] = l = [
            [rng.choice([1, 2, 3, 4]) if a == b else (rng.randint(-2, 2) if b < a and how == "cov" else 0) for b in range(n)]
            for a in range(n)
        ]
        s["cov"] = mul(l, [list(c) for c in zip(*l)])
        s["covdiag"] = [l[a][a] ** 2 for a in range(n)]
        s["r"], s["j"] = vec(l, u), mul(l, uj)
    else:
        s["r"] = [rng.randint(-5, 5) for _ in range(n)]
        s["j"] = [[rng.randint(-3, 3) for _ in range(k)] for _ in range(n)]
        if how == "prec":
            s["w"] = [[rng.randint(-3, 3) for _ in range(n)] for _ in range(n)]
            u, uj = vec(s["w"], s["r"]), mul(s["w"], s["j"])
        else:
            s["d"] = [rng.choice([1, 2, 3, 5]) for _ in range(n)]
            u = [a * b for a, b in zip(s["d"], s["r"])]
            uj = [[a * b for b in row] for a, row in zip(s["d"], s["j"])]
    return dict(s, u=u, uj=uj)


def white_of(rng, i, p):
    """A case of the specification: covariance l lT, residual l u, Jacobian l v."""
    s = rand_white(rng, 4 * i)
    l, u, uj = p["l"], p["u"], [[x] for x in p["v"]]
    vec = lambda x: [sum(a * b for a, b in zip(row, x)) for row in l]
    cov = [[sum(a * b for a, b in zip(x, y)) for y in l] for x in l]
    return dict(s, id=f"gauss-{i}", l=l, cov=cov, covdiag=[l[0][0] ** 2, l[1][1] ** 2], u=u, uj=uj, r=vec(u), j=[[x] for x in vec(p["v"])])


def huber_graph(rng, ps):
    """Cases of the specification, one factor each, as whitened residuals."""
    factors = []
    for k, p in enumerate(ps):
        noise = dict(kind="huber", inner="diag", d=[1, 1], w=[], num=p["num"], den=p["den"])
        q = [[rng.randint(-3, 3) for _ in range(2)] for _ in range(2)]
        value = [rng.randint(-2, 2) for _ in range(2)]
        c = [u - sum(a * b for a, b in zip(row, value)) for u, row in zip(p["u"], q)]
        factors.append((value, dict(cls="poly", vs=[k + 1], c=c, q=q, b=[], gain=1, pad=[], bias=0, js=[], np="jnp", noise=noise)))
    return dict(kind="graph", types=["R2"] * len(ps), values=[v for v, _ in factors], factors=[f for _, f in factors])


def rand_nll(rng, i):
    factors = []
    for _ in range(rng.randint(1, 3)):
        base = rng.choice([2, 10])
        factors.append(
            dict(n=rng.choice([1, 6, 20, 40]), base=base, exp=rng.choice([-2, -1, 1, 2, 3]), full=rng.random() < 0.5)
        )
    return dict(id=f"nll-{i}", kind="nll", factors=factors)


def nll_ok(g):
    for f in g["factors"]:
        nm = f["noise"]
        if nm["kind"] == "diag":
            d = math.prod(nm["d"])
        elif nm["kind"] == "gauss":
            d = det(nm["w"])
        else:
            continue
        if not smooth(d):
            return False
    return True


# -- inputs ----------------------------------------------------------------------------

TOKEN_OF = dict(T1="tup", D5="dct", P3="P3", M31="M31", SO2="SO2", SE2="SE2", SO3="SO3", SE3="SE3")


def rand_inputs(rng, i):
    tok = lambda t: TOKEN_OF.get(t, "arr")
    n = rng.choice([1, 2, 2, 3, 4])
    types = [rng.choice(data.TYPE_NAMES) for _ in range(n)]
    if rng.random() < 0.3:
        types = [types[0]] * n
    kind = rng.choice(["plain", "named", "variadic", "plain", "named", "missing"])
    toks = [tok(t) for t in types]
    if rng.random() < 0.2:
        toks[rng.randrange(n)] = "any"
    if rng.random() < 0.35:
        how = rng.choice(["type", "swap", "more", "less"])
        if how == "type":
            toks[rng.randrange(n)] = rng.choice(sorted(set(TOKEN_OF.values()) | {"arr"}))
        elif how == "swap":
            rng.shuffle(toks)
        elif how == "more":
            toks.append(rng.choice([toks[-1], "any"]))
        elif len(toks) > 1:
            toks.pop()
    if kind == "variadic":
        toks = [rng.choice([toks[0], "any"])]
    if kind == "missing":
        toks = []
    return make_inputs(rng, f"inputs-{i}", dict(kind=kind, toks=toks), types)


def make_inputs(rng, sid, hint, types):
    return dict(
        id=sid, kind="inputs", hint=hint, types=types,
        values=[rand_value(rng, t) for t in types], order=shuffled(rng, range(1, len(types) + 1)),
    )  # fmt: skip


# -- all -------------------------------------------------------------------------------


def scenarios(prop, tier, rng, generated):
    thorough = tier == "thorough"
    mult = 6 if thorough else 1
    out = []
    gauss = ["diag", "gauss"]
    mixed = ["diag", "gauss", "huber"]

    def add(sid, g):
        out.append(dict(with_evals(rng, g, prop), id=sid))

    if prop in ("C05", "C06", "C07"):
        programs = [(l, p) for l, p in generated if l == "stacking-walks"]
        programs = [(l, p) for l, p in programs if len(p["factors"]) >= 2]
        for i, (label, p) in data.sample_programs(rng, programs, 60 if thorough else 14):
            add(f"{label}-{i}", dict(p, kind="graph"))
    counts = {"C03": 14, "C05": 28, "C06": 28, "C07": 16, "C08": 14, "C09": 36, "C20": 16}
    kinds = {"C03": mixed, "C05": mixed, "C06": gauss, "C07": mixed, "C08": gauss, "C09": ["huber", "huber", "diag"], "C20": gauss}
    i = 0
    while i < counts[prop] * mult:
        nf = rng.choice([1, 2, 3, 4, 6, 9])
        nv = rng.choice([1, 2, 3, 4, 6])
        ks = kinds[prop]
        classes = CLASSES
        if prop == "C20":
            classes = ["named", "pair", "poly"]
        if prop == "C08" and i % 6 == 5:
            ks = mixed
        g = rand_graph(rng, nf, nv, ks, classes)
        if prop in ("C07", "C08") and not nll_ok(g):
            continue
        add(f"graph-{i}", g)
        i += 1
    if prop in ("C03", "C05", "C06", "C07"):
        for i in range(2 * mult):
            add(f"big-{i}", rand_graph(rng, 30, 12, kinds[prop], structures=5))
    if prop == "C08":
        programs = [(l, p) for l, p in generated if l == "gauss"]
        for i, (_, p) in data.sample_programs(rng, programs, 200 if thorough else 30):
            out.append(dict(white_of(rng, i, p), prop=prop))
        out += [dict(rand_white(rng, i), prop=prop) for i in range(120 * mult)]
        out += [dict(rand_nll(rng, i), prop=prop) for i in range(6 * mult)]
    if prop == "C09":
        for where in ("at", "inside", "outside"):
            at = lambda p: (p["num"] ** 2 > sum(x * x for x in p["u"]) * p["den"] ** 2) - (p["num"] ** 2 < sum(x * x for x in p["u"]) * p["den"] ** 2)
            programs = [(l, p) for l, p in generated if l == "huber-points" and at(p) == dict(at=0, inside=1, outside=-1)[where]]
            for i in range(8 if thorough else 2):
                add(f"huber-{where}-{i}", huber_graph(rng, [p for _, (_, p) in data.sample_programs(rng, programs, 12)]))
    if prop == "C20":
        programs = [(f"{l}-{'accept' if p['accept'] else 'refuse'}-{p['hint']['kind']}", p) for l, p in generated if l == "inputs"]
        for i, (label, p) in data.sample_programs(rng, programs, 60 if thorough else 18):
            out.append(dict(make_inputs(rng, f"{label}-{i}", p["hint"], p["types"]), prop=prop))
        out += [dict(rand_inputs(rng, i), prop=prop) for i in range(70 * mult)]
    return out
