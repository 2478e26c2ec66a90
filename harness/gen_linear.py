"""Scenarios for sparse matrices, linear solvers and histories (C10, C11, C12)."""

from fractions import Fraction

from . import data
from .exec_keys import key_of
from .gen_graph import det


def models(prop, tier, seed):
    thorough = tier == "thorough"
    c = lambda n, variant="ok", emit=False: dict(MaxEntries=n, Variant=variant, Emit=emit)
    inv = ["Product", "TransposedProduct", "TransposeTwice", "OrderFree", "Diagonal"]
    ms = []
    if prop == "C10":
        ms.append(dict(module="MCCoo", label="coo", constants=c(4 if thorough else 3), invariants=inv, workers=4))
        ms.append(dict(module="MCCoo", label="coo-walks", constants=c(8, emit=True), invariants=inv + ["EmitProgram"],
                       simulate=30 if thorough else 4, depth=9, seed=seed, workers=1))  # fmt: skip
        ms.append(dict(module="MCCoo", label="broken-set", constants=c(2, "set"), invariants=["Product"], expect="Product", workers=1))
    if prop == "C11":
        ms.append(dict(module="MCCoo", label="coo", constants=c(3), invariants=inv, workers=4))
        ms.append(dict(module="MCCoo", label="repeated-diagonal", constants=c(2), invariants=["DiagonalAlways"], expect="DiagonalAlways", workers=1))
    if prop == "C12":
        h = lambda mode, n, emit=False: dict(KeyMode=mode, MaxRequests=n, Emit=emit)
        for mode in ("pattern", "pattern-only"):
            ms.append(dict(module="History", label=f"history-{mode}", constants=h(mode, 4 if thorough else 3), invariants=["HistoryFree"], workers=4))
        ms.append(dict(module="History", label="history-walks", constants=h("pattern", 8, True), invariants=["HistoryFree", "EmitProgram"],
                       simulate=20 if thorough else 4, depth=9, seed=seed, workers=1))  # fmt: skip
        for mode in ("solver", "shape", "numbers"):
            ms.append(dict(module="History", label=f"broken-{mode}", constants=h(mode, 3), invariants=["HistoryFree"], expect="HistoryFree", workers=1))
    return ms


def rand_entries(rng, rows, cols, count, m=4, repeats=0.2):
    if repeats == 0.0:
        cells = rng.sample([(i + 1, j + 1) for i in range(rows) for j in range(cols)], min(count, rows * cols))
        return [[i, j, rng.choice([x for x in range(-m, m + 1) if x])] for i, j in cells]
    out = []
    for _ in range(count):
        if out and rng.random() < repeats:
            i, j, _ = rng.choice(out)
        else:
            i, j = rng.randint(1, rows), rng.randint(1, cols)
        out.append([i, j, rng.choice([x for x in range(-m, m + 1) if x])])
    return out


def coo_scenario(rng, sid, rows, cols, entries):
    dtype = rng.choice(["float32", "float32", "float32", "float64", "int32"])
    vdtype = rng.choice(["float32", "float32", "int32"])
    return dict(
        id=sid, kind="coo", rows=rows, cols=cols, entries=entries,
        unit=1 if dtype == "int32" else rng.choice([1, 2]), vunit=1 if vdtype == "int32" else rng.choice([1, 4]),
        lib=rng.choice(["jnp", "onp"]), vlib=rng.choice(["jnp", "onp"]), dtype=dtype, vdtype=vdtype,
        x=[rng.randint(-9, 9) for _ in range(cols)], y=[rng.randint(-9, 9) for _ in range(rows)],
    )  # fmt: skip


def dense(entries, rows, cols):
    m = [[0] * cols for _ in range(rows)]
    for i, j, v in entries:
        m[i - 1][j - 1] += v
    return m


def conditioned(m, cols, lam4, unit_damping):
    """Is the damped system comfortably regular? Gives a lower bound of its smallest
    eigenvalue, or nothing."""
    g = [[Fraction(sum(r[a] * r[b] for r in m)) for b in range(cols)] for a in range(cols)]
    used = [a for a in range(cols) if g[a][a] != 0]
    for a in used:
        g[a][a] += Fraction(lam4, 4) * (1 if unit_damping else g[a][a])
    g = [[g[a][b] for b in used] for a in used]
    n = len(used)
    if n == 0:
        return 0
    if max(abs(x) for row in g for x in row) > 250:
        return 0
    d, tr = det(g), sum(g[a][a] for a in range(n))
    smallest = d if n == 1 else d * (Fraction(n - 1) / tr) ** (n - 1)
    return smallest if smallest > Fraction(1, 4) and tr / smallest < 400 else 0


def linear_scenario(rng, i, solver):
    while True:
        cols = rng.choice([1, 2, 3, 4, 5])
        rows = cols + rng.choice([0, 1, 2, 4])
        entries = rand_entries(rng, rows, cols, rows * 2 + rng.randint(0, 3), m=3, repeats=rng.choice([0.0, 0.0, 0.0, 0.3]))
        if rng.random() < 0.5:
            have = {(i, j) for i, j, _ in entries}
            entries += [[j, j, rng.choice([4, 5])] for j in range(1, cols + 1) if (j, j) not in have]
        if rng.random() < 0.2 and cols > 1:
            z = rng.randint(1, cols)
            entries = [e for e in entries if e[1] != z]
        if not entries:
            continue
        m = dense(entries, rows, cols)
        lam4 = rng.choice([0, 0, 1, 2, 4, 8, 12])
        smallest = conditioned(m, cols, lam4, solver == "cholmod")
        if not smallest:
            continue
        b = [rng.randint(-6, 6) for _ in range(rows)]
        atb = [sum(m[r][c] * b[r] for r in range(rows)) for c in range(cols)]
        if smallest > 4 and any(atb):
            # Solutions large enough for the rounding of what is recorded not to matter
            k = max(1, 100 // max(abs(x) for x in atb))
            atb = [k * x for x in atb]
        return dict(
            id=f"{solver}-{i}", kind="linear", chain=False, solver=solver, rows=rows, cols=cols, entries=entries, atb=atb,
            lam4=lam4, iteration=rng.choice([0, 1, 4, 9, 49, 99]), eta100=rng.choice([90, 50, 10]) if solver == "inexact" else 1,
            exp2=rng.choice([0, 0, 0, -10, 45, 60]), sx=1000,
        )  # fmt: skip


def chain_scenario(rng, i, solver):
    """More columns, and steps that take many iterations to find."""
    cols = rng.choice([14, 18, 24])
    entries = [[j, j, rng.choice([1, 1, -1, 2])] for j in range(1, cols + 1)]
    for j in range(1, cols):
        w = rng.choice([2, 2, -2, 1])
        entries += [[cols + j, j, -w], [cols + j, j + 1, w]]
    rng.shuffle(entries)
    atb = [rng.randint(-9, 9) if rng.random() < 0.3 else 0 for _ in range(cols)]
    atb[rng.choice([0, -1])] = 9
    return dict(
        id=f"{solver}-chain-{i}", kind="linear", chain=True, solver=solver, rows=2 * cols - 1, cols=cols, entries=entries, atb=atb,
        lam4=rng.choice([0, 0, 0, 1, 4]), iteration=rng.choice([0, 4, 99]), eta100=rng.choice([50, 10, 1]) if solver == "inexact" else 1,
        exp2=rng.choice([0, 0, -10, 45]), sx=100000 if solver == "cg" else 1000,
    )  # fmt: skip


def rand_request(rng, s, p):
    what = rng.choice(["linear", "linear", "linear", "optimize", "optimize", "evaluate", "covariance"])
    req = dict(what=what, s=s, p=p, kind="", big=0, lam4=0, vs=[], at=0)
    if what == "linear":
        req["kind"] = rng.choice(["cholmod", "cholmod", "cholmod", "cg"])
        req["lam4"] = rng.choice([0, 4])
        if req["kind"] == "cholmod":
            req["big"] = int(rng.random() < 0.4)
    elif what == "optimize":
        req["kind"] = rng.choice(["gn", "lm", "dogleg", "gn-cg", "fixed"])
        req["at"] = rng.randint(0, 1)
    elif what == "covariance":
        req["vs"] = rng.choice([[1, 2], [4, 1], [3], [2, 4, 1]])
        req["big"] = int(rng.random() < 0.3)
    if what in ("evaluate", "covariance") and not req["big"]:
        # One graph, linearized at different points
        req["at"] = rng.randint(0, 1)
    return req


def scenarios(prop, tier, rng, generated):
    thorough = tier == "thorough"
    mult = 6 if thorough else 1
    out = []
    if prop == "C10":
        programs = [(l, p) for l, p in generated if l == "coo-walks"]
        for i, (label, p) in data.sample_programs(rng, programs, 150 if thorough else 40):
            out.append(coo_scenario(rng, f"{label}-{i}", p["rows"], p["cols"], p["entries"]))
        for i in range(120 * mult):
            rows, cols = rng.randint(1, 7), rng.randint(1, 7)
            out.append(coo_scenario(rng, f"coo-{i}", rows, cols, rand_entries(rng, rows, cols, rng.choice([0, 1, 3, 8, 15, 30]))))
    if prop == "C11":
        for solver, count in (("cholmod", 60), ("cg", 60), ("inexact", 60)):
            out += [linear_scenario(rng, i, solver) for i in range(count * mult)]
            out += [chain_scenario(rng, i, solver) for i in range(count // 6 * mult)]
    if prop == "C12":
        requests = {}
        programs = [(l, p) for l, p in generated if l == "history-walks"]
        for i, (label, p) in data.sample_programs(rng, programs, 60 if thorough else 20):
            reqs = [rand_request(rng, s, q) for s, q in p["requests"]]
            if len(out) % 3 == 1:
                # Stay with one kind of request, for more of a history
                kind = reqs[0]
                reqs = [dict(kind, s=s, p=q) for s, q in p["requests"]]
                if kind["what"] != "linear" and not kind["big"]:
                    reqs = [dict(r, at=k % 2) for k, r in enumerate(reqs)]
            elif len(out) % 3 == 2:
                # Large enough for other factorization methods
                kind = dict(what="linear", kind="cholmod", big=1, lam4=rng.choice([0, 4]), vs=[], at=0)
                if rng.random() < 0.4:
                    kind = dict(what="covariance", kind="", big=1, lam4=0, vs=[1], at=0)
                reqs = [dict(kind, s=s, p=q) for s, q in p["requests"]]
            for r in reqs:
                requests.setdefault(key_of(r), dict(r, s=1))
            out.append(dict(id=f"{label}-{i}", kind="history", requests=reqs, weight=4))
        for k, r in sorted(requests.items()):
            out.append(dict(id=f"fresh-{k}", kind="fresh", request=r, weight=3))
    return out
