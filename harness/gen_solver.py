"""Scenarios for the nonlinear solvers (C13, C14, C15)."""

from . import data

LENGTH = 12
INVARIANTS = ["ResidualInSync", "CostNeverRises", "DampingBounds", "RadiusPositive", "StopsInTime", "StopsRightly", "NeverLate"]
KINDS = {"C13": ["lm", "dogleg"], "C14": ["lm", "dogleg"], "C15": ["gn", "lm", "dogleg", "fixed"]}


def models(prop, tier, seed):
    thorough = tier == "thorough"
    c = lambda kind, n, variant="ok", emit=False, rich="tiny": dict(Kind=kind, Variant=variant, MaxIt=n, Emit=emit, Richness=rich)
    ms = []
    for kind in KINDS[prop]:
        depth = {"gn": 3, "fixed": 3, "lm": 4, "dogleg": 4}[kind] + (1 if thorough and kind in ("lm", "dogleg") else 0)
        ms.append(dict(module="MCSolver", label=f"{kind}", constants=c(kind, depth), invariants=INVARIANTS, properties=["RejectedStays"], workers=3))
        ms.append(dict(module="MCSolver", label=f"{kind}-walks", constants=c(kind, 8, emit=True, rich="rich"), invariants=INVARIANTS + ["EmitProgram"],
                       simulate=(4000 if thorough else 600) // (3 if kind in ("gn", "fixed") else 1), depth=11, seed=seed, workers=1))  # fmt: skip
        if kind in ("lm", "dogleg") and prop != "C15":
            ms.append(dict(module="MCSolver", label=f"{kind}-hole-walks", constants=c(kind, 3, emit=True, rich="holes"), invariants=INVARIANTS + ["EmitProgram"],
                           properties=["RejectedStays"], workers=1))  # fmt: skip
        if kind == "dogleg" and prop == "C14":
            ms.append(dict(module="MCSolver", label="dogleg-keep-walks", constants=c(kind, 2, emit=True, rich="keep"), invariants=INVARIANTS + ["EmitProgram"], workers=1))
        if kind == "dogleg" and prop == "C15":
            ms.append(dict(module="MCSolver", label="dogleg-late-walks", constants=c(kind, 3, emit=True, rich="late"), invariants=INVARIANTS + ["EmitProgram"], workers=1))
        if kind == "dogleg" and prop != "C15":
            ms.append(dict(module="MCSolver", label="dogleg-tie-walks", constants=c(kind, 2, emit=True, rich="tie"), invariants=INVARIANTS + ["EmitProgram"], workers=1))
        if kind in ("lm", "dogleg"):
            if prop == "C13":
                ms.append(dict(module="MCSolver", label=f"broken-holes-{kind}", constants=c(kind, 3, "holes", rich="holes"), invariants=["CostNeverRises"], expect="CostNeverRises", workers=1))
                ms.append(dict(module="MCSolver", label=f"broken-stale-{kind}", constants=c(kind, 3, "stale"), invariants=["ResidualInSync"], expect="ResidualInSync", workers=1))
            if prop == "C15":
                ms.append(dict(module="MCSolver", label=f"broken-anystep-{kind}", constants=c(kind, 3, "anystep"), invariants=["StopsRightly"], expect="StopsRightly", workers=1))
    if prop == "C15":
        ms.append(dict(module="MCSolver", label="gn-scaled", constants=c("gn", 3, rich="scaled"), invariants=INVARIANTS, workers=1))
        ms.append(dict(module="MCSolver", label="broken-raw", constants=c("gn", 3, "raw", rich="scaled"), invariants=["StopsRightly"], expect="StopsRightly", workers=1))
    return ms


def late(tags):
    """A rejected step meets a tolerance, and an adopted one follows."""
    return any(a[0] == "r" and "c" in a and "d" in a and b[0] == "a" for a, b in zip(tags, tags[1:]))


def features(p):
    """Pairs of consecutive kinds of steps, and how the run ends under which criterion."""
    tags = p["tags"] or ["none"]
    c = p["cfg"]
    crit = ("c" if c["ctn"] else "") + ("g" if c["gt"] else "") + ("p" if c["ptn"] else "")
    yield (crit, len(tags) == c["maxit"], tags[-1])
    yield (c["qd"], len(tags))
    yield (crit, c["sc"][0], len(tags) == c["maxit"], "G" in tags[-1])
    yield ("maxit", c["maxit"])
    if c["kind"] == "lm":
        yield (c["lam0"], c["lmax"], tags[0])
    for a, b in zip(tags, tags[1:]):
        yield (a, b)


def scenarios(prop, tier, rng, generated):
    thorough = tier == "thorough"
    out = []
    programs = [(l, p) for l, p in generated if l.endswith("-walks") and "cfg" in p]
    programs = [(l, p) for l, p in programs if l != "dogleg-keep-walks" or "x" in p["tags"][-1]]
    programs = [(l, p) for l, p in programs if l != "dogleg-tie-walks" or "=" in p["tags"][0] or "~" in p["tags"][0]]
    programs = [(l, p) for l, p in programs if l != "dogleg-late-walks" or late(p["tags"])]
    for i, (label, p) in data.cover_programs(rng, programs, features, 30 if thorough else 6, 9000 if thorough else 2000):
        out.append(dict(p, id=f"{label}-{i}", kind="scripted", length=LENGTH, unroll=rng.random() < 0.5, group=label.split("-")[0] + str(i % 3), weight=1))
    if prop == "C13":
        for i in range(96 if thorough else 24):
            out.append(
                dict(id=f"real-{i}", kind="real", solver=["lm", "dogleg"][i % 2], linear=["cholmod", "cg", "inexact"][(i // 2) % 3],
                     which=(i // 6) % 4, c=[rng.uniform(0.5, 3.0), rng.uniform(-2.0, 2.0)], start=[rng.uniform(-4, 4), rng.uniform(-4, 4)],
                     maxit=14, weight=3)  # fmt: skip
            )
    return out


def coverage(prop, scenarios, records):
    runs = [r for r in records if r.get("kind") == "scripted"]
    return {
        "subproblems_recorded": sum(len(r["calls"]) for r in runs),
        "runs_by_solver": {k: sum(1 for r in runs if r["cfg"]["kind"] == k) for k in sorted({r["cfg"]["kind"] for r in runs})},
        "runs_stopping_early": sum(1 for r in runs if len(r["script"]) < r["cfg"]["maxit"]),
    }
