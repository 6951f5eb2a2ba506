"""Curves and counts of spec/Damage.tla as real objects, and random traces.
Shared by C12 and C13."""

import copy
import datetime as dt
import math
import zlib

import numpy as np

import core

NOW = dt.datetime(2021, 1, 1, tzinfo=dt.timezone.utc)
SCALES = (1.0, 0.5, 17.3, 1e-2, 1.2345678e-5, 4.321e5)
# as Table in spec/DamageMC.tla: segments (m, K), endurance
TABLE = [None, ([(3, 1000)], 0), ([(3, 1000), (5, 9000)], 0), ([(3, 1000), (5, 9000)], 200),
         ([(1, 600)], 250), ([(2, 500), (3, 2000), (5, 8000)], 3000)]


def scale_of(case):
    return SCALES[zlib.crc32(repr((core.SEED, case)).encode()) % len(SCALES)]


def root_of(case):
    return (1, 1, 2, 3, 0.4)[zlib.crc32(repr((core.SEED, "root", case)).encode()) % 5]


def strength_of(case):
    return (1.0, 1e6, 1e18)[zlib.crc32(repr((core.SEED, "strength", case)).encode()) % 3]


def curve(segs, ne, u, unit="MPa", root=1, strength=1.0):
    """A curve allowing strength * K / S^m cycles at a stress of u * S^root."""
    from py_fatigue import SNCurve

    kw = {"endurance": strength * float(ne)} if ne else {}
    return SNCurve(slope=[m / root for m, _ in segs],
                   intercept=[math.log10(strength * k) + m / root * math.log10(u)
                              for m, k in segs],
                   unit_string=unit, **kw)


def count(es, u, unit="MPa", stamp=NOW, means=0.0, root=1):
    """A count of entries (S, 2 * count) at stresses u * S^root."""
    from py_fatigue import CycleCount

    return CycleCount(
        count_cycle=np.array([n / 2 for _, n in es]),
        stress_range=np.array([s**root * u for s, _ in es]),
        mean_stress=np.array([means for _ in es]), timestamp=stamp, unit=unit,
        range_bin_lower_bound=0.1 * u, range_bin_width=0.1 * u,
    )


def arrays(es, u, root=1):
    return np.array([s**root * u for s, _ in es]), np.array([n / 2 for _, n in es])


def joined(cases, rng, same, lists, n=1500):
    """Lists of many cases that agree in the fields of same, one behind the other."""
    groups = {}
    for c in cases:
        groups.setdefault(tuple(c[k] for k in same), []).append(c)
    out = []
    for g in [g for g in groups.values() for _ in range(4)]:
        g = rng.sample(g, min(n, len(g)))
        out.append(tuple("<<" + ", ".join(c[k].strip()[2:-2] for c in g) + ">>" if k in lists
                         else v for k, v in enumerate(g[0])))
    return out


def table(cc, k):
    """The table of a count, its rows labelled in one of several ways."""
    df = cc.to_df()
    n = len(df)
    if k % 4 == 1:
        df.index = list(range(n, 0, -1))
    elif k % 4 == 2:
        df.index = [(7 * i + 3) % (n + 4) // 2 for i in range(n)]  # some twice
    elif k % 4 == 3:
        df.index = [f"r{n - i}" for i in range(n)]
    return df


def near_int(x):
    return round(x) if x == x and abs(x - round(x)) < 1e-7 * max(1, abs(x)) else -1


def random_record(rng):
    from py_fatigue.damage import stress_life as sl

    segs, ne = rng.choice(TABLE[1:])
    m = rng.choice([1, 2, 3, 4])
    u = rng.choice(SCALES)
    top = 9 if segs[-1][0] == 5 else 20
    es = [[rng.randint(0, top), rng.choice([1, 2, 2, 6, 21])]
          for _ in range(rng.randint(1, 60))]
    big = max(s for s, _ in es)
    if big == 0:
        return None
    root = rng.choice([1, 1, 2, 3, 0.4])
    strong = rng.choice([1.0, 1.0, 1e15])
    sn = curve(segs, ne, u, root=root, strength=strong)
    stress, cyc = arrays(es, u, root)
    neq = rng.choice([1e7, 1e3, 2e6])
    cc = count(es, u, root=root)
    one = curve([(m, 1000)], 0, u, root=root)
    shift = table(cc, rng.randrange(4)).gassner.g(one)["shift_factor"]
    des = sl.get_des(cc, m / root, neq) / u
    base = segs[-1][1]
    return {
        "c": {"segs": segs, "ne": ne}, "es": es, "m": m,
        "dmg": [near_int(2 * base * strong * x) for x in sl.calc_pm(stress, cyc, sn).tolist()],
        "sum": near_int(2 * neq * des ** (m / root)),
        "shift": [near_int(x * sum(c for _, c in es) * big**m) for x in shift.tolist()],
    }


def validate(chk, n):
    recs = chk.record("counts", lambda: random_record(chk.rng), n)

    def corrupt():
        wrong = []
        for f in ("dmg", "shift"):
            c = copy.deepcopy(recs[1])
            c[f][0] += 1
            wrong.append(c)
        c = copy.deepcopy(recs[2])
        c["sum"] += 1
        wrong.append(c)
        return wrong

    chk.validate("random-counts", "DamageTrace", recs, corrupt)
