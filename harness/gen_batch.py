"""Scenarios for batching, compilation and differentiation (C19)."""

from . import data, gen_map, gen_solver
from .data import DIM, LDIM, POLYNOMIAL, rand_delta, rand_value
from .gen_graph import rand_factor, rand_structure
from .gen_storage import shuffled

KINDS = ["gn", "lm", "dogleg", "fixed"]


def models(prop, tier, seed):
    thorough = tier == "thorough"
    c = lambda kind, variant="ok", width=2: dict(Kind=kind, Variant=variant, Width=width, Emit=False)
    ms = []
    for kind in ("gn", "lm", "dogleg"):
        ms.append(dict(module="MCBatch", label=f"batch-{kind}", constants=c(kind), invariants=["AsAlone", "NotAhead"], properties=["Frozen"], workers=2))
    if thorough:
        ms.append(dict(module="MCBatch", label="batch-wide", constants=c("dogleg", width=3), invariants=["AsAlone", "NotAhead"], properties=["Frozen"], workers=4))
    for v in ("running", "first", "leader"):
        ms.append(dict(module="MCBatch", label="broken-" + v, constants=c("gn", v), invariants=["AsAlone"], expect="AsAlone", workers=1))
    st = lambda n, variant="ok", emit=False: dict(Variant=variant, MaxCalls=n, Emit=emit)
    ms.append(dict(module="MCStage", label="stage", constants=st(3), invariants=["OwnResult"], workers=2))
    ms.append(dict(module="MCStage", label="stage-walks", constants=st(7, emit=True), invariants=["OwnResult", "EmitProgram"],
                   simulate=60 if thorough else 8, depth=9, seed=seed, workers=1))  # fmt: skip
    for v in ("baked", "nokey"):
        ms.append(dict(module="MCStage", label="broken-" + v, constants=st(3, v), invariants=["OwnResult"], expect="OwnResult", workers=1))
    for kind in KINDS:
        consts = dict(Kind=kind, Variant="ok", MaxIt=8, Emit=True, Richness="rich")
        ms.append(dict(module="MCSolver", label=f"{kind}-walks", constants=consts, invariants=gen_solver.INVARIANTS + ["EmitProgram"],
                       simulate=2500 if thorough else 300, depth=11, seed=seed, workers=1))  # fmt: skip
    return ms


def lane(p):
    # Beyond its end a script goes on; see the executor
    return dict(cfg=p["cfg"], land=p["land"], script=p["script"], start=p["start"])


def differing(rng, pool, size):
    """Programs with the same settings that need different numbers of iterations, if
    possible."""
    groups = {}
    for p in pool:
        groups.setdefault(str(sorted(p["cfg"].items())), []).append(p)
    lengths = lambda ps: len({len(p["script"]) for p in ps})
    best = []
    for _ in range(12):
        # Those of one walk are much alike
        group = groups[rng.choice(sorted(groups))]
        other = rng.sample(group, min(size, len(group)))
        if (len(other), lengths(other)) > (len(best), lengths(best)):
            best = other
    return best


def run_scenarios(rng, thorough, generated):
    out = []
    plain = lambda cfg: cfg["sc"] == [1, 1] and cfg["maxit"] > 0
    pools = {k: [p for l, p in generated if l == f"{k}-walks" and plain(p["cfg"])] for k in KINDS}
    for kind in KINDS:
        for i in range(60 if thorough else 12):
            size = [1, 2, 3, 4, 4, 6][i % 6]
            lanes = [lane(p) for p in differing(rng, pools[kind], size)]
            if i % 3 == 2:
                # One problem from several starts
                lanes = [dict(lanes[0], start=[1000 * rng.randint(0, 5), 1000 * rng.randint(0, 5)] if j else lanes[0]["start"]) for j in range(size)]
            out.append(dict(id=f"lanes-{kind}-{i}", kind="lanes", lanes=lanes, share=i % 3 == 2, unroll=i % 2 == 0, length=gen_solver.LENGTH, group=f"lanes-{kind}", weight=3))
    fixed = {m: [p for p in pools["fixed"] if p["cfg"]["maxit"] == m] for m in {p["cfg"]["maxit"] for p in pools["fixed"]}}
    walks = [(l, p) for l, p in generated if l == "stage-walks"]
    for i, (label, p) in data.sample_programs(rng, walks, 80 if thorough else 12):
        lanes, calls, index = [], [], {}
        for way, static, d in p["calls"]:
            if (static, d) not in index:
                if static in ("short", "long"):
                    prog = rng.choice(fixed[{"short": min(fixed), "long": max(fixed)}[static]])
                else:
                    prog = rng.choice(pools[static])
                index[static, d] = len(lanes) + 1
                lanes.append(lane(prog))
            calls.append([way, index[static, d]])
        out.append(dict(id=f"calls-{i}", kind="calls", lanes=lanes, calls=calls, unroll=i % 2 == 0, length=gen_solver.LENGTH, group=f"calls-{i % 3}", weight=3))
    return out


# -- evaluation -------------------------------------------------------------------------


def eval_scenario(rng, i):
    """A graph, and entries that differ from it in values and numeric parameters."""
    while True:
        pool = rng.sample(POLYNOMIAL, rng.randint(1, 3))
        types = [rng.choice(pool) for _ in range(rng.randint(2, 5))]
        values = [rand_value(rng, t, m=3) for t in types]
        kinds = rng.choice([["diag"], ["gauss"], ["diag", "gauss"], ["diag", "gauss", "huber"]])
        present = sorted(set(types))
        structures = [rand_structure(rng, present, kinds, ["poly", "neg", "named", "pair", "ana"]) for _ in range(rng.randint(1, 3))]
        factors = []
        for _ in range(rng.randint(1, 6)):
            f = rand_factor(rng, rng.choice(structures), types, values)
            if f:
                factors.append(f)
        if factors:
            break
    used = sorted({v for f in factors for v in f["vs"]})
    nudge = lambda xs: [x + rng.choice([-1, 0, 1]) for x in xs]
    entries = []
    for j in range(3):
        fs = []
        for f in factors:
            g = dict(f, np="jnp")
            if j:
                g = dict(g, c=nudge(f["c"]), q=[nudge(r) for r in f["q"]], pad=nudge(f["pad"]), bias=f["bias"] + rng.choice([-1, 0, 1]))
                nm = f["noise"]
                g["noise"] = dict(nm, d=[x * rng.choice([1, 2]) for x in nm["d"]], w=[[x * rng.choice([1, 2]) for x in r] for r in nm["w"]], num=nm["num"] + rng.choice([0, 1]))
            fs.append(g)
        entries.append(dict(factors=fs, values=[rand_value(rng, t, m=3) for t in types], delta=[rand_delta(rng, t) for t in types]))
    return dict(id=f"eval-{i}", kind="eval", types=types, used=used, order=shuffled(rng, used), entries=entries, weight=6)


# -- whole solves -----------------------------------------------------------------------


def solve_scenarios(rng, thorough):
    out = []
    k = 12 if thorough else 3
    problems = [(f"affine-{i}", gen_map.poly_problem(rng, True)) for i in range(k)]
    problems += [(f"bilinear-{i}", gen_map.poly_problem(rng, False)) for i in range(k)]
    problems += [(f"poses-{i}", gen_map.pose_problem(rng, data.LIE[i % 4], size=3)) for i in range(k + 1)]
    offset = rng.randrange(6)
    combos = [("gn", "cg"), ("lm", "cg"), ("dogleg", "cg"), ("fixed", "cg"), ("gn", "inexact"), ("fixed", "inexact")]
    host = [("gn", "cholmod"), ("fixed", "cholmod"), ("lm", "cholmod"), ("dogleg", "cholmod"), ("gn", "cholmod"), ("fixed", "cholmod")]
    for i, (name, p) in enumerate(problems):
        used = sorted({v for f in p["factors"] + p["poses"] for v in f["vs"]})
        far = [[rng.randint(-2000, 2000) if p["kind"] == "affine" else rng.randint(-150, 150) for _ in range(LDIM[t])] for t in p["types"]]
        # One starts at the solution and is done at once
        starts = [p["start"], [[0] * LDIM[t] for t in p["types"]], far]
        runs = [dict(zip(("solver", "linear"), combos[(i + offset) % 6])), dict(zip(("solver", "linear"), host[(i + offset) % 6]))]
        out.append(dict(id=f"solve-{name}", kind="solve", types=p["types"], truth=p["truth"], factors=p["factors"], poses=p["poses"],
                        order=shuffled(rng, used), starts=starts, runs=runs, weight=20))  # fmt: skip
    return out


# -- derivatives ------------------------------------------------------------------------


def deriv_problem(rng, affine):
    """One structure, several sets of numbers."""
    pool = rng.sample(gen_map.EUCLIDEAN, rng.randint(1, 2))
    types = [rng.choice(pool) for _ in range(rng.randint(2, 4))]
    while sum(DIM[t] for t in types) > 9:
        types.pop()
    shapes = []
    for _ in range(rng.randint(1, 3)):
        cls = rng.choice(["poly", "neg", "named", "pair"])
        arity = 2 if cls in ("named", "pair") else rng.choice([1, 2, 3])
        vs = [rng.randint(1, len(types)) for _ in range(arity)]
        shapes.append(dict(cls=cls, vs=vs, dim=rng.choice([1, 2, 3]), gain=rng.choice([1, 1, 2]), kind=rng.choice(["diag", "gauss", "gauss"]), nb=0 if affine else rng.choice([1, 2])))
    paired = [rng.random() < 0.6 for _ in range(len(types) + len(shapes))]
    classes = [rng.choice(["poly", "neg"]) for _ in types]
    datasets = []
    for _ in range(3):
        truth = [rand_value(rng, t, m=2) for t in types]
        factors = []

        def add(f, pair):
            factors.extend(gen_map.twins(rng, f) if affine and pair else [f])

        for v, t in enumerate(types, 1):
            f = gen_map.anchor(rng, v, types, truth)
            f["cls"] = classes[v - 1]
            add(gen_map.zero_at(f, types, truth), paired[v - 1])
        for i, sh in enumerate(shapes):
            n = sum(DIM[types[v - 1]] for v in sh["vs"])
            f = gen_map.blank(sh["cls"], sh["vs"], sh["dim"])
            f["q"] = [[rng.choice([0, 0, 1, -1]) for _ in range(n)] for _ in range(sh["dim"])]
            f["b"] = [[rng.randint(1, sh["dim"]), rng.randint(1, n), rng.randint(1, n), rng.choice([1, -1])] for _ in range(sh["nb"])]
            f["gain"] = sh["gain"]
            f["noise"] = gen_map.noise(rng, sh["dim"], [sh["kind"]])
            add(gen_map.zero_at(f, types, truth), paired[len(types) + i])
        spread = 2000 if affine else 100
        start = [[rng.randint(-spread, spread) for _ in range(DIM[t])] for t in types]
        datasets.append(dict(truth=truth, factors=factors, start=start))
    return types, datasets


def deriv_scenarios(rng, thorough):
    out = []
    for i in range(40 if thorough else 8):
        affine = i % 4 != 3
        types, datasets = deriv_problem(rng, affine)
        fs = datasets[0]["factors"]
        diag = [j for j, f in enumerate(fs) if f["noise"]["kind"] == "diag"]
        gauss = [j for j, f in enumerate(fs) if f["noise"]["kind"] == "gauss"]
        out.append(dict(id=f"deriv-{i}", kind="deriv", types=types, datasets=datasets, linear=["cg", "inexact"][i % 2],
                        iterations=6 if not affine else 10 if i % 4 == 2 else 3,
                        which_c=rng.randrange(len(fs)), which_d=rng.choice(diag), which_w=rng.choice(gauss) if gauss else -1,
                        weight=8 if affine and i % 4 != 2 else 25))  # fmt: skip
    return out


def scenarios(prop, tier, rng, generated):
    thorough = tier == "thorough"
    out = deriv_scenarios(rng, thorough) + solve_scenarios(rng, thorough)
    out += [eval_scenario(rng, i) for i in range(100 if thorough else 16)]
    return out + run_scenarios(rng, thorough, generated)


def coverage(prop, scenarios, records):
    ways = {}
    for r in records:
        for o in r.get("outs", []) + [o for c in r.get("cases", []) for o in c["outs"]]:
            name = f"{r['kind']}/{o['way']}"
            ways[name] = ways.get(name, 0) + 1
    uneven = sum(1 for s in scenarios if s["kind"] == "lanes" and len({len(x["script"]) for x in s["lanes"]}) > 1)
    return {"comparisons_by_way": ways, "batches_of_different_lengths": uneven}
