"""Names, dimensions and random data of the variable types (importable without JAX)."""

DIM = dict(R1=1, R2=2, R3=3, S0=1, S5=1, T1=2, P3=3, D5=5, O2=2, M31=3, M23=2, SO2=2, SE2=4, SO3=4, SE3=7)
LDIM = dict(DIM, M31=1, M23=3, SO2=1, SE2=3, SO3=3, SE3=6)
TYPE_NAMES = sorted(DIM)
LIE = ["SO2", "SE2", "SO3", "SE3"]
EUCLIDEAN = ["R1", "R2", "R3", "S0", "S5", "T1", "P3", "D5", "O2"]


def rand_axis(rng):
    r = rng.random()
    if r < 0.15:
        return [0, 0, 0]
    if r < 0.4:
        d = [0, 0, 0]
        d[rng.randrange(3)] = rng.choice([-1, 1])
        return d
    return [rng.choice([-1, 1]) for _ in range(3)]


def _hurwitz(rng):
    if rng.random() < 0.4:
        q = [0, 0, 0, 0]
        q[rng.randrange(4)] = 2
        return q
    return [1] + [rng.choice([-1, 1]) for _ in range(3)]


def rand_value(rng, t, m=9):
    if t == "SO2":
        return list(rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1)]))
    if t == "SE2":
        return rand_value(rng, "SO2") + [rng.randint(-m, m), rng.randint(-m, m)]
    if t == "SO3":
        return _hurwitz(rng)
    if t == "SE3":
        return _hurwitz(rng) + [rng.randint(-m, m) for _ in range(3)]
    return [rng.randint(-m, m) for _ in range(DIM[t])]


def rand_delta(rng, t, m=4):
    if t == "SO2":
        return [rng.randint(-2, 2)]
    if t == "SE2":
        return [rng.randint(-m, m), rng.randint(-m, m), rng.randint(-2, 2)]
    if t == "SO3":
        return rand_axis(rng)
    if t == "SE3":
        if rng.random() < 0.5:
            return [rng.randint(-m, m) for _ in range(3)] + [0, 0, 0]
        return [0, 0, 0] + rand_axis(rng)
    return [rng.randint(-m, m) for _ in range(LDIM[t])]


def sample_programs(rng, generated, per_label):
    """Pick some of the behaviours that the specification generated, of each kind."""
    by_label = {}
    for i, (label, p) in enumerate(generated):
        by_label.setdefault(label, []).append((i, (label, p)))
    out = []
    for label in sorted(by_label):
        out += rng.sample(by_label[label], min(per_label, len(by_label[label])))
    return out


def cover_programs(rng, programs, features, per_feature, limit):
    """Pick programs until each of their features has been seen often enough."""
    seen = {}
    out = []
    order = list(enumerate(programs))
    rng.shuffle(order)
    for i, (label, p) in order:
        fs = {(label, f) for f in features(p)}
        if any(seen.get(f, 0) < per_feature for f in fs):
            out.append((i, (label, p)))
            for f in fs:
                seen[f] = seen.get(f, 0) + 1
    rng.shuffle(out)
    return out[:limit]


POLYNOMIAL = [t for t in TYPE_NAMES if t not in ("SO3", "SE3")]
