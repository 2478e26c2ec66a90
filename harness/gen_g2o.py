"""Pose graph files (C21)."""

import math

from . import data


def models(prop, tier, seed):
    thorough = tier == "thorough"
    c = lambda n, variant="ok", emit=False: dict(MaxLines=n, Variant=variant, Emit=emit)
    inv = ["RefusedIff", "Loaded", "ReadAgrees", "Triangles"]
    return [
        dict(module="MCG2O", label="reader", constants=c(6 if thorough else 5), invariants=inv, workers=4),
        dict(module="MCG2O", label="files", constants=c(8, emit=True), invariants=["RefusedIff"], simulate=600 if thorough else 150, depth=12, seed=seed, workers=1),
        dict(module="MCG2O", label="broken-lenient", constants=c(3, "lenient"), invariants=["RefusedIff"], expect="RefusedIff", workers=1),
        dict(module="MCG2O", label="broken-skips", constants=c(3, "skips"), invariants=["RefusedIff"], expect="RefusedIff", workers=1),
    ]  # fmt: skip


def information(rng, n):
    """Upper triangle (hundredths) of a symmetric positive definite matrix."""
    scale = rng.choice([1, 1, 3])
    kind = rng.choice(["full", "full", "diagonal", "isotropic"])
    if kind == "isotropic":
        v = rng.choice([100, 250, 4000])
        m = [[v if i == j else 0 for j in range(n)] for i in range(n)]
    elif kind == "diagonal":
        m = [[rng.randint(50, 4000) if i == j else 0 for j in range(n)] for i in range(n)]
    else:
        # L L' with a dominant diagonal
        low = [[rng.randint(6, 20) if i == j else (rng.randint(-5, 5) if j < i else 0) for j in range(n)] for i in range(n)]
        m = [[scale * sum(low[i][k] * low[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    return [m[i][j] for i in range(n) for j in range(i, n)]


# Poses as (rotation quaternion wxyz, translation) in floating point, to make files plausible


def qmul(a, b):
    w = a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]
    x = a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2]
    y = a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1]
    z = a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]
    return [w, x, y, z]


def rotate(q, v):
    conj = [q[0], -q[1], -q[2], -q[3]]
    return qmul(qmul(q, [0.0] + list(v)), conj)[1:]


def rel(a, b):
    conj = [a[0][0], -a[0][1], -a[0][2], -a[0][3]]
    return qmul(conj, b[0]), rotate(conj, [y - x for x, y in zip(a[1], b[1])])


def turn(axis, angle):
    norm = math.sqrt(sum(x * x for x in axis)) or 1.0
    return [math.cos(angle / 2)] + [math.sin(angle / 2) * x / norm for x in axis]


def pose(rng, t, size, angle):
    axis = [0, 0, 1] if t == "SE2" else [rng.gauss(0, 1) for _ in range(3)]
    trans = [rng.uniform(-size, size) for _ in range(2 if t == "SE2" else 3)] + ([0.0] if t == "SE2" else [])
    return turn(axis, rng.uniform(-angle, angle)), trans


def numbers(t, p):
    """Numbers of the pose in a line, rounded to what is written."""
    q, x = p
    if t == "SE2":
        theta = 2 * math.atan2(q[3], q[0])
        theta = (theta + math.pi) % (2 * math.pi) - math.pi
        return [round(v, 3) for v in (x[0], x[1], theta)]
    return [round(v, 3) for v in x] + [round(v, 8) for v in (q[1], q[2], q[3], q[0])]


def measured(rng, t, a, b):
    """From a to b, up to an error."""
    q, x = rel(a, b)
    eq, ex = pose(rng, t, 0.4, 0.4)
    return qmul(q, eq), [u + v for u, v in zip(x, rotate(q, ex))]


def decorate(rng, t, lines):
    n = 3 if t == "SE2" else 6
    poses, out = [], []
    for line in lines:
        line = dict(line)
        if line["kind"] == "vertex":
            poses.append(pose(rng, t, 3.0, 3.1))
            line["nums"], line["info"] = numbers(t, poses[-1]), []
        elif line["kind"] == "edge":
            i, j = line["at"]
            line["nums"], line["info"] = numbers(t, measured(rng, t, poses[i], poses[j])), information(rng, n)
        else:
            line["kind"] = rng.choice(["#", "VERTEX_SE2:NEW", "FIX", "EDGE_SE3", "VERTEX", "EDGE_SE2_XY", "VERTEX_TRACKXYZ", "vertex_se2"])
            line["nums"], line["info"] = [1.0, 2.0, 3.0], []
        out.append(line)
    return out


def random_file(rng, size):
    """Well-formed: edges follow the poses they connect."""
    lines = [dict(kind="vertex", at=[0])]
    count = 1
    grouped = rng.random() < 0.5
    later = []
    while len(lines) < size:
        if rng.random() < 0.4:
            lines.append(dict(kind="vertex", at=[count]))
            count += 1
        else:
            i, j = rng.randrange(count), rng.randrange(count)
            if i != j:
                (later if grouped else lines).append(dict(kind="edge", at=[i, j]))
                if grouped and len(later) > size:
                    break
    return lines + later[: size]


def spoiled(rng, lines):
    """A well-formed file with one line that is not."""
    lines = [dict(x) for x in lines]
    vertices = [k for k, x in enumerate(lines) if x["kind"] == "vertex"]
    how = rng.choice(["unknown", "skipped", "repeated", "swapped"])
    if how == "unknown" or (how == "swapped" and len(vertices) < 2):
        lines.insert(rng.randrange(len(lines) + 1), dict(kind="other", at=[0]))
    elif how == "swapped":
        i, j = rng.sample(vertices, 2)
        lines[i]["at"], lines[j]["at"] = lines[j]["at"], lines[i]["at"]
    else:
        # The last one, as later ones would be out of order too
        x = lines[vertices[-1]]
        x["at"] = [x["at"][0] + 1] if how == "skipped" or x["at"][0] == 0 else [rng.randrange(x["at"][0])]
    return lines


def scenarios(prop, tier, rng, generated):
    thorough = tier == "thorough"
    out = []
    bad = lambda p: any(x["kind"] == "other" for x in p["lines"]) or [x["at"][0] for x in p["lines"] if x["kind"] == "vertex"] != list(range(sum(x["kind"] == "vertex" for x in p["lines"])))  # fmt: skip
    kinds = lambda p: {("bad" if bad(p) else "good", min(3, sum(x["kind"] == "edge" for x in p["lines"])), x["kind"]) for x in p["lines"]}
    files = [x for x in generated if x[0] == "files"]
    for t in ("SE2", "SE3"):
        for i, (label, p) in data.cover_programs(rng, files, kinds, 12 if thorough else 4, 200 if thorough else 40):
            out.append(dict(id=f"{label}-{t}-{i}", t=t, kind="bad" if bad(p) else "good", lines=decorate(rng, t, p["lines"])))
        for i in range(120 if thorough else 24):
            size = rng.choice([2, 4, 8, 16, 30, 60])
            out.append(dict(id=f"random-{t}-{i}", t=t, kind="good", lines=decorate(rng, t, random_file(rng, size))))
        for i in range(60 if thorough else 16):
            lines = spoiled(rng, random_file(rng, rng.choice([2, 4, 8])))
            out.append(dict(id=f"spoiled-{t}-{i}", t=t, kind="bad", lines=decorate(rng, t, lines)))
    for s in out:
        s["style"] = dict(gap=rng.choice([1, 1, 2, 5]), indent=rng.choice(["", "", "  "]), end=rng.choice(["\n", "\n", " \n", "\r\n"]),
                          number=rng.choice(["plain", "plain", "exponent"]), last=rng.random() < 0.7, group=s["t"])  # fmt: skip
        s["group"] = s["t"] + str(len(s["lines"]) % 3)
    return out


def coverage(prop, scenarios, records):
    return dict(
        files=len(scenarios), refused=sum(s["kind"] == "bad" for s in scenarios),
        edge_lines=sum(x["kind"] == "edge" for s in scenarios for x in s["lines"]),
    )  # fmt: skip
