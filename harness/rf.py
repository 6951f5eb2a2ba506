"""Rainflow cases shared by C01, C02 and C03."""

import numpy as np

import core

# exactly representable affine maps: ties between ranges are preserved
MAPS = [(1.0, 0.0), (0.25, -3.5), (-2.0, 1.0), (64.0, 0.125), (2.0**-20, 0.0),
        (-(2.0**-12), 0.25), (2.0**40, 0.0), (2.0**-45, 0.0), (1.0, 2.0**33),
        (2.0**-40, 16.0)]


def signals(chk):
    """All signals of the explored models with the specified count."""
    seen = set()
    res = []
    for cfg in ("RainflowMC", "RainflowMC_long"):
        r = chk.explore("RainflowMC", f"{cfg}_{core.TIER}")
        for st in core.read_dump(r.dump, ("sig", "out")):
            if st["out"]["rows"] and st["sig"] not in seen:
                seen.add(st["sig"])
                res.append((st["sig"], st["out"]["rows"], st["out"]["res"]))
    chk.extra["distinct_signals"] = len(res)
    return res


def random_signal(rng, n):
    """A random integer signal with plateaus, ties and monotone stretches."""
    kind = rng.randrange(6)
    if kind == 0:
        s = [rng.randint(-9, 9) for _ in range(n)]
    elif kind == 1:
        s, x = [], 0
        for _ in range(n):
            x += rng.randint(-5, 5)
            s.append(x)
    elif kind == 2:
        s, x = [], rng.randint(-200, 200)
        while len(s) < n:
            s += [x] * rng.choice([1, 1, 1, 2, 3])
            x += rng.choice([-1, 1]) * rng.choice([1, 1, 2, 10, 100])
    elif kind == 3:  # growing and decaying oscillation
        a = [rng.randint(1, 40) for _ in range(n)]
        a.sort(reverse=rng.random() < 0.5)
        s = [v if i % 2 else -v + rng.randint(0, 1) for i, v in enumerate(a)]
    elif kind == 4:
        s = [rng.randint(-3000, 3000) for _ in range(n)]
    else:  # almost equal ranges at large stresses
        a = rng.choice([2**12, 2**20, 2**21])
        s = [rng.choice([-a, a // 2, 0, a]) + rng.randint(-2, 2) for _ in range(min(n, 120))]
    s = s[:n]
    if rng.random() < 0.2:
        s = [s[0]] * rng.randint(1, 3) + s
    if rng.random() < 0.2:
        s = s + [s[-1]] * rng.randint(1, 3)
    return s


def countable(s):
    """At least two levels."""
    return len(set(s)) > 1


def as_int(x, what="value"):
    """A float that has to be an integer, else a value no record can match."""
    if x == x and abs(x) < 2**30 and float(x).is_integer():
        return int(x)
    return 2**30


# Signals of multiples of COARSE and a few units.  With more room between the two
# all comparisons of ranges come out the same, while nearly equal ranges differ
# in the last bits only.
COARSE, ROOM = 2**10, 2.0**42


def fine_signal(rng, n):
    return [rng.randint(-2, 2) * COARSE + rng.randint(-1, 1) for _ in range(n)]


def wide(sig):
    hi = np.round(np.array(sig) / COARSE)
    return hi * ROOM + (np.array(sig) - hi * COARSE)


def narrow(v):
    hi = round(v / ROOM)
    return as_int(hi * COARSE + (v - hi * ROOM))


def clock(n):
    """Times of n samples, ever farther apart."""
    return np.arange(n) ** 2 * 0.25 + 7


def record(sig, scale=1.0, offset=0.0, container="array", with_time=False):
    """Run the real rainflow on scale*sig+offset and record integers in the
    units of the specification."""
    from py_fatigue.cycle_count import rainflow as R

    x = wide(sig) if scale is None else np.array(sig, dtype=float) * scale + offset
    arg = x if container == "array" else x.tolist()
    if with_time:
        rfs, rv, ri, rt = R.rainflow(arg, time=clock(len(x)))
        at = {t: i for i, t in enumerate(clock(len(x)).tolist())}
        times = [at.get(t, 2**30) for t in rt.tolist()]
    else:
        rfs, rv, ri = R.rainflow(arg)
        times = [int(i) for i in ri]
    if scale is None:
        size = both = lambda v: narrow(2 * v)
        value = narrow
    else:
        size = lambda v: as_int(v * 2 / abs(scale))
        both = lambda v: as_int((v - offset) * 2 / scale)
        value = lambda v: as_int((v - offset) / scale)
    return {
        "sig": [int(v) for v in sig],
        "rows": [
            [size(r[0]), both(r[1]), as_int(r[2] * 2), as_int(r[3]), as_int(r[4])]
            for r in rfs
        ],
        "res": [[value(v), int(i)] for v, i in zip(rv, ri)],
        "times": times,
        "nres": [len(rv), len(ri), len(times)],
    }


# ------------------------------------------------------- very long signals


def laws(chk, n):
    """Short signals with the counts the laws for long signals start from."""
    r = chk.explore("RainflowLaws", f"RainflowLaws_{core.TIER}")
    cases = [
        (st["sig"], st["out"], st["third"], st["fourth"])
        for st in core.read_dump(r.dump) if st["out"]["rows"]
    ]
    cases = chk.rng.sample(cases, min(n, len(cases)))
    return [c + (2 ** chk.rng.choice([10, 14, 15, 16]), chk.rng.choice([33000, 70000]))
            for c in cases]


def stretch(sig, k):
    """k-1 samples on the line between every two samples (exact)."""
    x = np.array(sig, dtype=float)
    f = np.arange(k) / k
    return np.append((x[:-1, None] * (1 - f) + x[1:, None] * f).ravel(), x[-1])


def repetitions(sig, length):
    """How often a signal is repeated to exceed a length."""
    return length // len(sig) + 1


def bag(rows):
    """Rows without position, sorted."""
    a = np.asarray(rows, dtype=float)[:, :3]
    return a[np.lexsort(a.T[::-1])]


def repeated_bag(third, fourth, n):
    """Sorted rows of n repetitions in the units of the specification."""
    k3, n3 = np.unique(bag(third["rows"]), axis=0, return_counts=True)
    k4, n4 = np.unique(bag(fourth["rows"]), axis=0, return_counts=True)
    at3 = {tuple(k): c for k, c in zip(k3.tolist(), n3.tolist())}
    num = [at3.get(tuple(k), 0) + (n - 3) * (c - at3.get(tuple(k), 0))
           for k, c in zip(k4.tolist(), n4.tolist())]
    return np.repeat(k4, num, axis=0)


def repeated_residual(third, fourth, n):
    """Residual values of n repetitions."""
    v3 = [p[0] for p in third["res"]]
    v4 = [p[0] for p in fourth["res"]]
    d = len(v4) - len(v3)
    for p in range(len(v3) + 1):
        if v3[:p] + v4[p:p + d] + v3[p:] == v4:
            return v3[:p] + v4[p:p + d] * (n - 3) + v3[p:]
    raise core.MachineryError("the residual does not grow as the law says")
