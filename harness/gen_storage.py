"""Scenarios for assignments and layouts (C01-C04)."""

from . import data
from .data import DIM, TYPE_NAMES, rand_delta, rand_value


def models(prop, tier, seed):
    thorough = tier == "thorough"
    base = dict(module="MCStorage", workers=3)
    inv = dict(invariants=["Denotes", "LayoutsOk"], properties=["Immutable"])
    const = lambda t, n, emit=False, variant="ok", orders="all": dict(
        TypeSet=t, MaxOps=n, Emit=emit, Variant=variant, OrderSet=orders
    )
    ms = []
    if thorough:
        ms.append(dict(base, label="exhaustive-small", constants=const("small", 3), **inv))
        ms.append(dict(base, label="exhaustive-tiny", constants=const("tiny", 5, orders="two"), **inv, heap="8g", workers=8))
        ms.append(dict(base, label="exhaustive-mixed", constants=const("mixed", 3, orders="two"), **inv))
    else:
        ms.append(dict(base, label="exhaustive-tiny", constants=const("tiny", 4, orders="two"), **inv))
    if prop in ("C03", "C04") or thorough:
        ms.append(dict(base, label="broken-positional", constants=const("tiny", 3, variant="positional"), **inv, expect="Denotes", workers=1))
    if prop == "C01" or thorough:
        ms.append(dict(base, label="broken-alias", constants=const("tiny", 3, variant="alias"), **inv, expect="Denotes", workers=1))
    # Behaviours to replay: random walks through the specification
    num, depth = (40, 10) if thorough else (5, 7)
    for i, t in enumerate(["mixed", "lie", "lie3", "nested", "many"]):
        orders = "all" if t in ("mixed", "lie", "lie3") else "two"
        ms.append(
            dict(module="MCStorage", label=f"walks-{t}", workers=1,
                 constants=const(t, depth, emit=True, orders=orders),
                 invariants=["Denotes", "LayoutsOk", "EmitProgram"], simulate=num, depth=depth + 1,
                 seed=seed * 100 + i)
        )  # fmt: skip
    return ms


def shuffled(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs


def rand_types(rng, n, pool=TYPE_NAMES, distinct=None):
    k = distinct or rng.randint(1, min(5, len(pool)))
    sub = rng.sample(pool, min(k, len(pool)))
    ts = [rng.choice(sub) for _ in range(n)]
    return ts


def random_program(rng, types, num_ops, focus):
    n = len(types)
    everyone = list(range(1, n + 1))
    ops = []
    heap = []  # (local, set of variables); only used to pick sensible operands
    mode = lambda: rng.choice(["f32", "f32", "f64", "int"])

    def orders():
        return shuffled(rng, everyone)

    def given(vs):
        return [[v, rand_value(rng, types[v - 1])] for v in vs]

    while len(ops) < num_ops:
        kinds = ["defaults", "partial", "dict", "set", "set", "relayout", "retract", "pass", "deltas"]
        if focus == "C01":
            kinds += ["set", "partial", "dict", "partial"]
        if focus == "C03":
            kinds += ["relayout"] * 6
        if focus == "C04":
            kinds += ["retract"] * 6 + ["deltas"] * 2
        kind = rng.choice(kinds)
        globals_ = [i for i, (l, _) in enumerate(heap) if not l]
        locals_ = [i for i, (l, _) in enumerate(heap) if l]
        if kind == "defaults":
            vs = orders()
            if rng.random() < 0.3:
                vs = vs[: rng.randint(1, n)]
            ops.append(dict(op="defaults", vs=vs, iter=rng.random() < 0.3))
            heap.append((False, set(vs)))
        elif kind == "partial":
            vs = orders()
            if rng.random() < 0.3:
                vs = vs[: rng.randint(1, n)]
            # Also values for variables that are not asked for
            ops.append(dict(op="partial", vs=vs, given=given(rng.sample(everyone, rng.randint(0, n))), mode=mode()))
            heap.append((False, set(vs)))
        elif kind == "dict":
            vs = orders()
            if rng.random() < 0.2:
                vs = vs[: rng.randint(1, n)]
            ops.append(dict(op="dict", given=given(vs), mode=mode()))
            heap.append((False, set(vs)))
        elif kind == "deltas":
            vs = orders()
            if rng.random() < 0.15:
                vs = vs[: rng.randint(1, n)]
            g = [[v, rand_delta(rng, types[v - 1]) if rng.random() < 0.8 else [0] * data.LDIM[types[v - 1]]] for v in vs]
            ops.append(dict(op="deltas", vs=vs, given=g, mode=rng.choice(["f32", "f64"])))
            heap.append((True, set(vs)))
        elif kind == "set" and globals_:
            o = rng.choice(globals_)
            v = rng.choice(sorted(heap[o][1]))
            ops.append(dict(op="set", o=o + 1, v=v, x=rand_value(rng, types[v - 1]), mode=mode()))
            heap.append(heap[o])
        elif kind == "pass" and heap:
            o = rng.randrange(len(heap))
            ops.append(dict(op="pass", o=o + 1, how=rng.choice(["jit", "host", "host", "tree"])))
            heap.append(heap[o])
        elif kind == "relayout" and heap:
            o = rng.randrange(len(heap))
            vs = shuffled(rng, heap[o][1])
            local = heap[o][0]
            r = rng.random()
            if r < 0.1:
                local = not local
            elif r < 0.25:
                # Another set of variables of the same dimension
                out = [v for v in everyone if v not in heap[o][1]]
                same = [(a, b) for a in vs for b in out if types[a - 1] == types[b - 1]]
                if same:
                    a, b = rng.choice(same)
                    vs[vs.index(a)] = b
                elif len(vs) > 1:
                    vs = vs[:-1]
            ops.append(dict(op="relayout", o=o + 1, vs=vs, local=local))
            if set(vs) == heap[o][1] and local == heap[o][0]:
                heap.append(heap[o])
        elif kind == "retract" and globals_ and locals_:
            o, d = rng.choice(globals_), rng.choice(locals_)
            pairs = [(a, b) for a in globals_ for b in locals_ if heap[a][1] == heap[b][1]]
            if pairs and rng.random() < 0.85:
                o, d = rng.choice(pairs)
            elif rng.random() < 0.2:
                o, d = rng.randrange(len(heap)), rng.randrange(len(heap))
            ops.append(dict(op="retract", o=o + 1, d=d + 1))
            if heap[o][1] == heap[d][1] and not heap[o][0] and heap[d][0]:
                heap.append(heap[o])
    return ops


def fraction_program(rng, types):
    """Objects made from integers take fractions later on. Numbers are halves here."""
    n = len(types)
    everyone = list(range(1, n + 1))
    even = lambda t: [2 * x for x in rand_value(rng, t)]
    ops = [
        dict(op="dict", given=[[v, even(types[v - 1])] for v in shuffled(rng, everyone)], mode="int"),
        dict(op="deltas", vs=shuffled(rng, everyone), given=[[v, rand_delta(rng, types[v - 1])] for v in everyone], mode="f32"),
        dict(op="retract", o=1, d=2),
    ]
    for o in (1, 3, 4):
        v = rng.choice(everyone)
        ops.append(dict(op="set", o=o, v=v, x=rand_value(rng, types[v - 1]), mode="f32"))
    ops.append(dict(op="relayout", o=5, vs=shuffled(rng, everyone), local=False))
    return ops


def bounded(types, ops):
    """Keep polynomial retractions from growing beyond 32 bit integers."""
    return sum(1 for o in ops if o["op"] == "retract") <= 4


def big_program(rng, types, focus):
    """Few operations, many variables."""
    n = len(types)
    everyone = list(range(1, n + 1))
    given = lambda: [[v, rand_value(rng, types[v - 1])] for v in shuffled(rng, everyone)]
    deltas = lambda: [[v, rand_delta(rng, types[v - 1])] for v in shuffled(rng, everyone)]
    ops = [
        dict(op="dict", given=given(), mode="f32"),
        dict(op="deltas", vs=shuffled(rng, everyone), given=deltas(), mode="f32"),
        dict(op="retract", o=1, d=2),
        dict(op="relayout", o=3, vs=shuffled(rng, everyone), local=False),
    ]
    v = rng.choice(everyone)
    ops.append(dict(op="set", o=4, v=v, x=rand_value(rng, types[v - 1]), mode="f32"))
    ops.append(dict(op="relayout", o=2, vs=shuffled(rng, everyone), local=True))
    ops.append(dict(op="retract", o=5, d=6))
    return ops


def layout_scenario(rng, i):
    n = rng.choice([1, 2, 3, 5, 8, 12, 20])
    types = rand_types(rng, n, distinct=rng.randint(1, 6))
    avs = shuffled(rng, range(1, n + 1))
    if rng.random() < 0.3:
        avs = avs[: rng.randint(1, n)]
    alocal = rng.random() < 0.5
    r = rng.random()
    bvs, blocal = list(avs), alocal
    if r < 0.25:
        pass
    elif r < 0.5:
        blocal = not alocal
    elif r < 0.75:
        bvs = shuffled(rng, avs)
    else:
        bvs = shuffled(rng, range(1, n + 1))[: rng.randint(1, n)]
        blocal = rng.random() < 0.5
    return dict(id=f"layout-{i}", kind="layout", types=types, avs=avs, bvs=bvs, alocal=alocal, blocal=blocal)


def scenarios(prop, tier, rng, generated):
    thorough = tier == "thorough"
    out = []
    if prop == "C02":
        for i in range(1500 if thorough else 300):
            out.append(layout_scenario(rng, i))
    generated = [(l, p) for l, p in generated if l.startswith("walks-")]
    for i, (label, p) in data.sample_programs(rng, generated, 60 if thorough else 12):
        out.append(dict(id=f"{label}-{i}", kind="heap", types=p["types"], ops=p["ops"]))
    i = 0
    count = {"C01": 40, "C02": 12, "C03": 40, "C04": 40}[prop] * (6 if thorough else 1)
    while i < count:
        n = rng.choice([1, 2, 3, 4, 5, 7])
        types = rand_types(rng, n)
        ops = random_program(rng, types, rng.randint(5, 9), prop)
        if not bounded(types, ops):
            continue
        out.append(dict(id=f"random-{i}", kind="heap", types=types, ops=ops))
        i += 1
    for i in range(30 if thorough else 5):
        types = rand_types(rng, rng.randint(1, 4), pool=data.EUCLIDEAN)
        out.append(dict(id=f"fraction-{i}", kind="heap", types=types, unit=2, ops=fraction_program(rng, types)))
    for i, n in enumerate([17, 40] * (4 if thorough else 1)):
        types = rand_types(rng, n, distinct=4 + i)
        out.append(dict(id=f"big-{i}", kind="heap", types=types, ops=big_program(rng, types, prop), weight=3))
    return out
