"""Running TLC: model checks of the design, generation of behaviours, trace validation."""

import json
import os
import re
import subprocess
import tempfile

SPEC_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = ":".join(
    os.path.join("/opt/veriftools/tla", jar)
    for jar in ("tla2tools.jar", "CommunityModules-deps.jar")
)


class MachineryError(Exception):
    """Something is wrong with the check itself, as opposed to the code under check."""


def _value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(_value(x) for x in sorted(v)) + "}"
    return str(v)


def write_cfg(path, constants=None, invariants=(), properties=(), constraint=None, spec="Spec"):
    with open(path, "w") as f:
        f.write(f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n")
        if constants:
            f.write("CONSTANTS\n")
            for k, v in constants.items():
                f.write(f"  {k} = {_value(v)}\n")
        for inv in invariants:
            f.write(f"INVARIANT {inv}\n")
        for prop in properties:
            f.write(f"PROPERTY {prop}\n")
        if constraint:
            f.write(f"CONSTRAINT {constraint}\n")


def run(
    scratch,
    module,
    constants=None,
    invariants=(),
    properties=(),
    constraint=None,
    workers=2,
    simulate=None,
    depth=None,
    seed=None,
    env=None,
    timeout=800,
    heap="3g",
):
    """Returns a dict with `out`, `states` (generated), `distinct`, `violated`."""
    d = tempfile.mkdtemp(prefix=f"tlc-{module}-", dir=scratch)
    cfg = os.path.join(d, module + ".cfg")
    write_cfg(cfg, constants, invariants, properties, constraint)
    cmd = [
        "java",
        "-XX:+UseParallelGC",
        f"-XX:ParallelGCThreads={max(2, workers)}",
        f"-Xmx{heap}",
        "-Xss64m",
        f"-Djava.io.tmpdir={d}",
        f"-DTLA-Library={SPEC_DIR}",
        "-cp",
        JARS,
        "tlc2.TLC",
        "-metadir",
        os.path.join(d, "states"),
        "-noGenerateSpecTE",
        "-workers",
        str(workers),
        "-config",
        cfg,
    ]
    if simulate:
        cmd += ["-simulate", f"num={simulate}"]
        cmd += ["-depth", str(depth or 100)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd.append(os.path.join(SPEC_DIR, module + ".tla"))
    try:
        p = subprocess.run(
            cmd,
            cwd=d,
            env={**os.environ, **(env or {})},
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=timeout,
            text=True,
        )
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out on {module}")
    out = p.stdout
    violated = re.findall(r"Invariant (\w+) is violated", out)
    violated += re.findall(r"Action property (\w+) is violated", out)
    violated += re.findall(r"Temporal property (\w+) (?:is|was) violated", out)
    if "Temporal properties were violated" in out and not violated:
        violated.append("temporal")
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    states = int(m[-1][0].replace(",", "")) if m else 0
    distinct = int(m[-1][1].replace(",", "")) if m else 0
    if simulate:
        m = re.findall(r"([\d,]+) states checked", out)
        if m:
            states = distinct = int(m[-1].replace(",", ""))
    ok = (
        "Model checking completed. No error has been found." in out
        or (simulate and "Error:" not in out)
    )
    if not ok and not violated:
        raise MachineryError(f"TLC failed on {module}:\n" + out[-6000:])
    return dict(out=out, states=states, distinct=distinct, violated=violated)


def programs(out, tag="PROGRAM"):
    """Behaviours printed by a specification, as parsed JSON."""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag + " "):
            res.append(json.loads(json.loads(line)[len(tag) + 1 :]))
    return res


_VERDICT = re.compile(r'<<\s*"VERDICT",\s*"([^"]*)",\s*(-?\d+),\s*\{([^}]*)\}\s*>>', re.S)


def verdicts(out):
    """Map from scenario id to (events consumed, set of failing clauses)."""
    res = {}
    for m in _VERDICT.finditer(out):
        res[m.group(1)] = (int(m.group(2)), set(re.findall(r'"([^"]+)"', m.group(3))))
    return res


def validate(scratch, module, traces, workers=4, constants=None, heap="6g"):
    """Validate recorded scenarios; every one of them has to get a verdict."""
    path = os.path.join(scratch, f"trace-{module}.ndjson")
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps(t) + "\n")
    r = run(scratch, module, constants=constants, workers=workers, env={"TRACE": path}, heap=heap)
    v = verdicts(r["out"])
    missing = [t["id"] for t in traces if t["id"] not in v]
    if missing:
        raise MachineryError(
            f"{module}: no verdict for {missing[:5]} ({len(missing)})\n" + r["out"][-3000:]
        )
    return v, r
