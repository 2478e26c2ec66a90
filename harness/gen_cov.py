"""Scenarios for covariances (C17, C03, C07)."""

from fractions import Fraction

from . import data
from .data import LDIM, rand_value
from .gen_graph import rand_noise
from .gen_map import blank
from .gen_storage import shuffled

SCALE = 10000
PLAIN = ["R1", "R2", "R3", "S0", "S5", "T1", "P3", "D5"]
CURVED = PLAIN + ["O2", "M31", "SO2", "SE2"]


def models(prop, tier, seed):
    if prop != "C17":
        return []
    thorough = tier == "thorough"
    c = lambda n, queries, reach=1, variant="ok", emit=False: dict(N=n, Reach=reach, MaxQueries=queries, Variant=variant, Emit=emit)
    inv = ["Inverse", "Answers", "CacheSound", "StackBound"]
    ms = [
        dict(module="MCCov", label="recovery", constants=c(3, 2, reach=2 if thorough else 1), invariants=inv, workers=4),
        dict(module="MCCov", label="recovery-ends", constants=c(3, 1), invariants=["Answers"], properties=["Ends", "Monotone"], workers=2),
        dict(module="MCCov", label="recovery-walks", constants=c(5, 4, 2, emit=True), invariants=["Answers"],
             simulate=200 if thorough else 40, depth=400, seed=seed, workers=1),
    ]  # fmt: skip
    for v in ("noperm", "forward", "unsorted", "eager"):
        ms.append(dict(module="MCCov", label=f"broken-{v}", constants=c(3, 2, variant=v), invariants=["Answers"], expect="Answers", workers=1))
    return ms


# -- picking data on which the covariance is tame --------------------------------------


def retract_jac(t, x):
    eye = lambda k, n: [[k if i == j else 0 for j in range(n)] for i in range(n)]
    if t == "O2":
        return eye(3, 2)
    if t == "M31":
        return [[x[1]], [-1], [2]]
    if t == "SO2":
        return [[-x[1]], [x[0]]]
    if t == "SE2":
        return [[0, 0, -x[1]], [0, 0, x[0]], [x[0], -x[1], 0], [x[1], x[0], 0]]
    return eye(1, LDIM[t])


def information(types, values, factors, used):
    start, n = {}, 0
    for v in used:
        start[v] = n
        n += LDIM[types[v - 1]]
    info = [[0] * n for _ in range(n)]
    for f in factors:
        x = [xi for v in f["vs"] for xi in values[v - 1]]
        q = [list(row) for row in f["q"]]
        for row, i, j, coef in f["b"]:
            q[row - 1][i - 1] += coef * x[j - 1]
            q[row - 1][j - 1] += coef * x[i - 1]
        raw = []
        for row in q:
            out, at = [0] * n, 0
            for v in f["vs"]:
                t = types[v - 1]
                jac = retract_jac(t, values[v - 1])
                for k in range(LDIM[t]):
                    out[start[v] + k] += f["gain"] * sum(row[at + i] * jac[i][k] for i in range(len(jac)))
                at += len(jac)
            raw.append(out)
        nm = f["noise"]
        w = nm["w"] or [[d if i == j else 0 for j in range(len(nm["d"]))] for i, d in enumerate(nm["d"])]
        for wr in w:
            r = [sum(a * raw[i][k] for i, a in enumerate(wr)) for k in range(n)]
            nz = [k for k in range(n) if r[k]]
            for a in nz:
                for b in nz:
                    info[a][b] += r[a] * r[b]
    return info


def inverse(m):
    n = len(m)
    a = [[Fraction(x) for x in row] + [Fraction(int(i == j)) for j in range(n)] for i, row in enumerate(m)]
    for i in range(n):
        p = next((r for r in range(i, n) if a[r][i] != 0), None)
        if p is None:
            return None
        a[i], a[p] = a[p], a[i]
        a[i] = [x / a[i][i] for x in a[i]]
        for r in range(n):
            if r != i and a[r][i] != 0:
                a[r] = [x - a[r][i] * y for x, y in zip(a[r], a[i])]
    return [row[n:] for row in a]


def tame(info):
    inv = inverse(info)
    if inv is None:
        return False
    norm = max(sum(abs(x) for x in row) for row in info)
    most = max(abs(x) for row in inv for x in row)
    return norm <= 2000 and most <= 50 and norm * most <= 20000


def edges(rng, n, shape):
    if shape == "chain":
        return [(i, i + 1) for i in range(1, n)]
    if shape == "star":
        return [(1, i) for i in range(2, n + 1)]
    if shape == "loop":
        return [(i, i % n + 1) for i in range(1, n + 1)] if n > 2 else [(1, n)]
    if shape == "grid":
        w = 2
        return [(i, i + 1) for i in range(1, n) if i % w] + [(i, i + w) for i in range(1, n - w + 1)]
    return [tuple(rng.sample(range(1, n + 1), 2)) for _ in range(n)]


def problem(rng):
    while True:
        shape = rng.choice(["chain", "star", "loop", "grid", "random"])
        n = rng.randint(2, 6)
        pool = rng.sample(CURVED if rng.random() < 0.6 else PLAIN, rng.randint(1, 3))
        types = [rng.choice(pool) for _ in range(n)]
        if sum(LDIM[t] for t in types) > 14:
            continue
        values = [rand_value(rng, t, m=3) for t in types]
        factors = []
        curved = rng.random() < 0.5
        order = shuffled(rng, range(1, n + 1))
        anchored = order if rng.random() < 0.5 else order[: (n + 1) // 2]
        for v in anchored:
            dim = len(values[v - 1])
            f = blank("poly", [v], dim)
            f["q"] = [[rng.choice([1, 2]) if i == j else (rng.choice([0, 0, 1]) if i < j else 0) for j in range(dim)] for i in range(dim)]
            f["noise"] = rand_noise(rng, dim, ["diag"])
            factors.append(f)
        for a, b in edges(rng, n, shape):
            vs = [order[a - 1], order[b - 1]]
            dims = [len(values[v - 1]) for v in vs]
            dim = max(dims)
            f = blank(rng.choice(["poly", "neg", "pair"]), vs, dim)
            f["q"] = [
                [-1 if j == i else 0 for j in range(dims[0])] + [1 if j == i else 0 for j in range(dims[1])] for i in range(dim)
            ]
            if curved:
                f["b"] = [[rng.randint(1, dim), rng.randint(1, sum(dims)), rng.randint(1, sum(dims)), rng.choice([1, -1])]]
            f["noise"] = rand_noise(rng, dim, ["diag", "gauss"])
            factors.append(f)
        rng.shuffle(factors)
        used = sorted({v for f in factors for v in f["vs"]})
        if tame(information(types, values, factors, used)):
            return dict(types=types, values=values, factors=factors, expect=[], vseq=shuffled(rng, used))


def from_program(rng, p):
    """One factor per column of the spec's factor, scalars packed into variables."""
    n = len(p["u"])
    sizes = []
    while sum(sizes) < n:
        sizes.append(rng.choice([k for k in (1, 2, 3) if k <= n - sum(sizes)]))
    types = [rng.choice({1: ["R1", "S0"], 2: ["R2", "T1"], 3: ["R3", "P3"]}[k]) for k in sizes]
    scalars = [(v + 1, k) for v, size in enumerate(sizes) for k in range(size)]
    values = [rand_value(rng, t, m=3) for t in types]
    at = {place: scalars[a] for a, place in enumerate(p["pos"])}
    factors = []
    for i in range(n):
        weight = {1: 1, 4: 2}[p["d"][i]]
        coef = {at[k + 1]: p["u"][k][i] for k in range(i, n) if p["u"][k][i]}
        vs = shuffled(rng, sorted({v for v, _ in coef}))
        f = blank("poly", vs, 1)
        f["q"] = [[coef.get((v, k), 0) for v in vs for k in range(sizes[v - 1])]]
        f["noise"] = dict(kind="diag", d=[weight], w=[], inner="", num=1, den=1)
        factors.append(f)
    return dict(types=types, values=values, factors=factors, vseq=list(range(1, len(types) + 1)), expect=p["queries"])


def ops(rng, types, used, program=None):
    n = sum(LDIM[types[v - 1]] for v in used)
    out = [["full"], ["dense"], ["recovered"]]
    for _ in range(3):
        out.append(["marginal", rng.sample(used, rng.randint(1, len(used)))])
    if rng.random() < 0.3:
        v = rng.choice(used)
        out.append(["marginal", [v, v]])
    out += [["entry", rng.randint(1, n), rng.randint(1, n)] for _ in range(4)]
    rng.shuffle(out)
    return out


def tree(rng, sid, n, dim, shape, count):
    parent = {"chain": lambda i: i - 1, "star": lambda i: 1, "comb": lambda i: i - 2 if i > 2 and i % 2 else i - 1,
              "random": lambda i: rng.randint(max(1, i - 20), i - 1)}[shape]  # fmt: skip
    parents = [0] + [parent(i) for i in range(2, n + 1)]
    label = shuffled(rng, range(n))
    queries = []
    for i in range(count):
        k = rng.choice([1, 2, 3])
        queries.append([rng.randint(1, n) for _ in range(k)] if rng.random() < 0.5 else [max(1, n - j * rng.randint(0, 2)) for j in range(k)])
    return dict(
        id=sid, kind="tree", parent=parents, weights=[rng.choice([1, 2]) for _ in range(n)], dim=dim, order=label,
        flip=[int(rng.random() < 0.3) for _ in range(n)], queries=queries, scale=100, weight=8,
    )  # fmt: skip


def scenarios(prop, tier, rng, generated):
    thorough = tier == "thorough"
    out = []
    if prop == "C17":
        programs = [(l, p) for l, p in generated if l == "recovery-walks"]
        kept = 0
        for i, (label, p) in data.sample_programs(rng, programs, 400):
            s = from_program(rng, p)
            if kept < (150 if thorough else 25) and tame(information(s["types"], s["values"], s["factors"], s["vseq"])):
                kept += 1
                out.append((f"{label}-{i}", s))
        out += [(f"graph-{i}", problem(rng)) for i in range(400 if thorough else 60)]
    else:
        out += [(f"graph-{i}", problem(rng)) for i in range(100 if thorough else 20)]
    result = []
    for name, s in out:
        used = sorted(s["vseq"])
        num = len(s["factors"])
        objs = []
        for j in range(2):
            order = shuffled(rng, used) if (prop == "C03" and j) or prop == "C17" else used
            perm = shuffled(rng, range(num)) if (prop == "C07" or prop == "C17") and j else list(range(num))
            objs.append(dict(order=order, perm=perm, ops=ops(rng, s["types"], used)))
        result.append(dict(s, id=f"cov-{name}", kind="cov", prop=prop, objs=objs, scale=SCALE))
    if prop == "C17":
        for i, (n, dim, shape) in enumerate(
            [(1500, 1, "chain"), (1200, 1, "comb"), (600, 2, "random"), (400, 3, "chain"), (300, 1, "star"), (900, 1, "random"), (40, 3, "random"), (25, 2, "star")]
        ):
            for k in range(3 if thorough else 1):
                result.append(dict(tree(rng, f"tree-{i}-{k}", n * (2 if thorough and k == 2 else 1), dim, shape, 10), prop=prop))
    return result
