"""Entry point of all checks: `python -m harness.main C01` (run by check.sh).

A check runs, for one property,
  1. the design-level model checks of its specification modules (TLC),
  2. behaviours generated by the specification and seeded random ones, on the real code,
  3. the validation of everything recorded against the specification (TLC).
"""

import concurrent.futures
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import tlc
from .registry import PROPERTIES

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
SCENARIO_TIMEOUT = 400

WORKER_ENV = {
    "LANG": "C.UTF-8",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "JAX_PLATFORMS": "cpu",
    "MPLBACKEND": "Agg",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    # One process per core already
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
}


ASSUMPTIONS = [
    "TLC, the JVM, NumPy, SciPy, CHOLMOD and JAX compute what they document",
    "recorded numbers are rounded to the integer grid or fixed point scale of the specification",
]


def log(*args):
    print(*args, flush=True)


def execute(scratch, scenarios, num_workers):
    """Run scenarios in worker processes. Returns the records, and crashed scenarios."""
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
    env.update(WORKER_ENV)
    env["PYTHONPATH"] = os.environ.get("VERIF_REPO", "/repo") + ":" + ROOT
    home = os.path.join(scratch, "home")
    os.makedirs(home, exist_ok=True)
    env["HOME"] = home
    env["MPLCONFIGDIR"] = home
    env["TMPDIR"] = scratch

    # Scenarios that belong together (same compiled code) share a worker
    groups = {}
    for s in scenarios:
        groups.setdefault(s.get("group", s["id"]), []).append(s)
    chunks = [[] for _ in range(num_workers)]
    for g in sorted(groups.values(), key=lambda g: -sum(s.get("weight", 1) for s in g)):
        min(chunks, key=lambda c: sum(s.get("weight", 1) for s in c)).extend(g)
    chunks = [c for c in chunks if c]

    def run_chunk(index, chunk):
        records, crashes = [], []
        attempt = 0
        while chunk:
            attempt += 1
            path_in = os.path.join(scratch, f"worker-{index}-{attempt}.in")
            path_out = os.path.join(scratch, f"worker-{index}-{attempt}.out")
            path_err = os.path.join(scratch, f"worker-{index}-{attempt}.err")
            with open(path_in, "w") as f:
                for s in chunk:
                    f.write(json.dumps(s) + "\n")
            with open(path_err, "w") as err:
                p = subprocess.Popen(
                    [PYTHON, "-m", "harness.worker", path_in, path_out],
                    cwd=scratch,
                    env=env,
                    stdout=err,
                    stderr=subprocess.STDOUT,
                    start_new_session=True,
                )
                last_size, last_change, timed_out = -1, time.time(), False
                while p.poll() is None:
                    time.sleep(0.05)
                    size = os.path.getsize(path_out) if os.path.exists(path_out) else -1
                    if size != last_size:
                        last_size, last_change = size, time.time()
                    if time.time() - last_change > SCENARIO_TIMEOUT:
                        timed_out = True
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
            started = None
            if os.path.exists(path_out):
                with open(path_out) as f:
                    for line in f:
                        try:
                            r = json.loads(line)
                        except ValueError:
                            continue
                        if set(r) == {"start"}:
                            started = r["start"]
                        else:
                            records.append(r)
                            started = None
            if p.returncode == 0:
                break
            with open(path_err) as f:
                tail = f.read()[-3000:]
            # A Python exception escaping from a worker is a mistake of the harness; the
            # death of the process or a hang is something the code under check did.
            if started is None or (p.returncode > 0 and not timed_out):
                raise tlc.MachineryError(f"worker failed ({p.returncode}):\n{tail}")
            reason = "hang" if timed_out else f"killed by signal {-p.returncode}"
            crashes.append((started, reason + "\n" + tail))
            ids = [s["id"] for s in chunk]
            chunk = chunk[ids.index(started) + 1 :]
        return records, crashes

    records, crashes = [], []
    with concurrent.futures.ThreadPoolExecutor(len(chunks) or 1) as pool:
        for r, c in pool.map(run_chunk, range(len(chunks)), chunks):
            records += r
            crashes += c
    return records, crashes


def known_findings():
    """Open defects: `known: property=<id> clause=<clause> <what>` lines."""
    known = []
    with open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            if line.startswith("known:"):
                _, prop, clause, what = line.strip().split(" ", 3)
                known.append(
                    {"property": prop[len("property=") :], "clause": clause[len("clause=") :], "what": what}
                )
    return known


def check(prop, tier, seed):
    t_start = time.time()
    parts = PROPERTIES[prop]
    cores = os.cpu_count() or 4
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        return _check(prop, tier, seed, parts, cores, scratch, t_start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(prop, tier, seed, parts, cores, scratch, t_start):
    parts = [dict(p, module=importlib.import_module(f"harness.{p['scenarios']}")) for p in parts]

    # (1) + generation: design-level runs, a few at a time
    models = [m for p in parts for m in p["module"].models(prop, tier, seed)]
    if os.environ.get("VERIF_NO_DESIGN"):  # tools/mutants.py: only what generates behaviours
        models = [m for m in models if m["constants"].get("Emit")]
    states = transitions = 0
    model_info = []
    generated = []
    with concurrent.futures.ThreadPoolExecutor(4) as pool:

        def run_model(m):
            m = dict(m)
            expect = m.pop("expect", None)
            label = m.pop("label", m["module"])
            r = tlc.run(scratch, **m)
            return label, expect, m, r

        for label, expect, m, r in pool.map(run_model, models):
            if expect is None and r["violated"]:
                raise tlc.MachineryError(
                    f"specification {label} violates {r['violated']}\n" + r["out"][-4000:]
                )
            if expect is not None and expect not in r["violated"]:
                raise tlc.MachineryError(
                    f"broken variant {label} was not detected (wanted {expect})\n"
                    + r["out"][-4000:]
                )
            states += r["distinct"]
            transitions += r["states"]
            generated += [(label, p) for p in tlc.programs(r["out"])]
            model_info.append(
                {
                    "model": label,
                    "distinct_states": r["distinct"],
                    "states_generated": r["states"],
                    **({"expected_violation": expect} if expect else {}),
                }
            )
            log(f"[{prop}] model {label}: {r['distinct']} states", f"violates {expect} as expected" if expect else "ok")
    t_models = time.time() - t_start

    # (2) scenarios on the real code
    rng = random.Random(f"{prop}-{seed}")
    scenarios = []
    for p in parts:
        for s in p["module"].scenarios(prop, tier, rng, generated):
            sid = f"{p['scenarios'][len('gen_') :]}-{s['id']}"
            scenarios.append(dict(s, id=sid, executor=p["executor"]))
    ids = [s["id"] for s in scenarios]
    assert len(set(ids)) == len(ids), "scenario ids must be unique"
    by_id = {s["id"]: s for s in scenarios}
    records, crashes = execute(scratch, scenarios, cores)
    missing = set(ids) - {r["id"] for r in records} - {sid for sid, _ in crashes}
    if missing:
        raise tlc.MachineryError(f"scenarios without a record: {sorted(missing)[:5]}")
    t_exec = time.time() - t_start - t_models
    log(f"[{prop}] {len(scenarios)} scenarios executed in {t_exec:.1f}s, {len(crashes)} crashes")

    # (3) validation
    verdicts = {}
    events = 0
    by_module = {}
    for r in records:
        by_module.setdefault(r.pop("trace_module"), []).append(r)
    for trace_module, rs in sorted(by_module.items()):
        v, result = tlc.validate(scratch, trace_module, rs, workers=cores)
        verdicts.update(v)
        states += result["distinct"]
        transitions += result["states"]
    for n, _ in verdicts.values():
        events += n
    t_validate = time.time() - t_start - t_models - t_exec
    log(f"[{prop}] {len(verdicts)} traces ({events} events) validated in {t_validate:.1f}s")

    # Verdict
    malformed = [i for i, (_, c) in verdicts.items() if any(x.startswith("scenario.") for x in c)]
    if malformed:
        raise tlc.MachineryError(f"malformed scenarios: {malformed[:5]}")
    known = [k for k in known_findings() if k["property"] == prop]
    failing = []
    known_hits = {}
    foreign = {}
    for r in records:
        clauses = verdicts[r["id"]][1]
        mine = {c for c in clauses if c.startswith(prop + ".")}
        for c in clauses - mine:
            foreign[c] = foreign.get(c, 0) + 1
        for c in sorted(mine):
            hit = next((k for k in known if k["clause"] == c), None)
            if hit:
                known_hits.setdefault(c, []).append(r["id"])
        mine = {c for c in mine if c not in known_hits}
        if mine:
            failing.append((r["id"], sorted(mine), r))
    for sid, reason in crashes:
        failing.append((sid, [f"{prop}.completes"], {"crash": reason}))
    for k in known:
        if k["clause"] in known_hits:
            log(
                f"KNOWN-FINDING: property={prop} {k['what']} "
                f"({len(known_hits[k['clause']])} scenarios, eg {known_hits[k['clause']][0]})"
            )
    for c, n in sorted(foreign.items()):
        log(f"[{prop}] note: {n} scenarios fail {c}, which belongs to another property")

    # Evidence
    evidence_dir = os.path.join(ROOT, "evidence")
    replay_dir = os.path.join(evidence_dir, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    for name in os.listdir(replay_dir):
        if name.startswith(prop + "-"):
            os.unlink(os.path.join(replay_dir, name))
    samples = []
    for s in scenarios[:: max(1, len(scenarios) // 3)][:3]:
        text = json.dumps(s)
        samples.append(s if len(text) < 3000 else text[:3000])
    coverage = {
        "states": states,
        "transitions": transitions,
        "traces_validated_against_impl": len(verdicts),
        "events_validated": events,
        "programs_generated_by_spec": len(generated),
        "models": model_info,
        "scenario_kinds": {
            k: sum(1 for s in scenarios if s.get("kind") == k)
            for k in sorted({s.get("kind", "") for s in scenarios})
        },
        "samples": samples,
    }
    for p in parts:
        if hasattr(p["module"], "coverage"):
            coverage.update(p["module"].coverage(prop, scenarios, records))
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t_start, 2),
        "violations": len(failing),
    }
    with open(os.path.join(evidence_dir, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if not failing:
        log(f"[{prop}] held ({time.time() - t_start:.1f}s)")
        return 0
    for i, (sid, clauses, record) in enumerate(failing[:20]):
        path = os.path.join(replay_dir, f"{prop}-{i}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "clauses": clauses,
                    "scenario": by_id[sid],
                    "record": record,
                },
                f,
            )
        if i < 8:
            log(f"[{prop}] scenario {sid} fails {', '.join(clauses)}")
    log(f"[{prop}] {len(failing)} of {len(scenarios)} scenarios fail")
    log(f"VIOLATION property={prop} replay={os.path.join(replay_dir, prop + '-0.json')}")
    return 1


def replay(path):
    """Execute one recorded scenario again and print its verdict."""
    with open(path) as f:
        r = json.load(f)
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        records, crashes = execute(scratch, [r["scenario"]], 1)
        if crashes:
            log(crashes)
            return 1
        trace = records[0].pop("trace_module")
        v, _ = tlc.validate(scratch, trace, records)
        log(json.dumps(records[0])[:20000])
        log(v)
        return 1 if any(c.startswith(r["property"]) for c in v[r["scenario"]["id"]][1]) else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return check(prop, tier, seed)
    except tlc.MachineryError as e:
        log(f"[{prop}] ERROR of the check itself: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
