"""Curves and histories of spec/CrackGrowth.tla on the real code, and random
traces in the logarithmic domain.  Shared by C16 and C17."""

import contextlib
import copy
import math
import os
import random
import zlib

import numpy as np

import core
import c15
import damage
from adapt import Mismatch

INF, NIL = c15.INF, c15.NIL
DEC = 1000000  # units of the logarithm per decade
# as Curves in spec/CrackGrowth.tla: exponents, factors, threshold, critical over X
CURVES = [
    None,
    ((1,), (1 / 4,), 0, None),
    ((1,), (1 / 2,), 16 / 7, 300 / 7),
    ((1, 2), (1 / 8, 1 / 64), 0, 500 / 7),
    ((2, 1), (1 / 16, 1 / 4), 10 / 7, None),
    ((1, 2, 1), (1 / 8, 1 / 16, 1.0), 5 / 7, 1000 / 7),
    ((1,), (1.0,), 6 / 7, 9000 / 7),
    ((1,), (1.0,), 24 / 7, None),
]
SCALES = ((1.0, 1.0), (0.4, 35.0), (2.5, 120.0), (3e-5, 2e-3))  # unit of depth, of stress


@contextlib.contextmanager
def quiet():
    """Compiled code prints its progress."""
    fd, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        yield
    finally:
        os.dup2(fd, 1)
        os.close(fd)
        os.close(null)


def curve(k, length, stress, unit="MPa √mm"):
    """Rate L * g * X^e at intensity K, where X = K^2 / (pi * U^2 * L)."""
    from py_fatigue import ParisCurve

    e, g, t, c = CURVES[k]
    one = math.pi * stress**2 * length
    kw = {"threshold": math.sqrt(one * t)} if t else {}
    if c:
        kw["critical"] = math.sqrt(one * c)
    return ParisCurve(slope=[2.0 * x for x in e],
                      intercept=[length * y * one**-x for x, y in zip(e, g)],
                      unit_string=unit, **kw)


def surface(a):
    from py_fatigue.geometry import InfiniteSurface

    return InfiniteSurface(initial_depth=a)


def cylinder(a, **kw):
    from py_fatigue.geometry import HollowCylinder

    return HollowCylinder(initial_depth=a, crack_position="external", **kw)


def replay_case(txt):
    """One history of spec/CrackGrowthMC.tla through both routes."""
    from py_fatigue.damage.crack_growth import get_crack_growth

    k, fast, a0, es, out, done2, ends = (core.tla_value(x) for x in txt)
    bad = Mismatch()
    length, stress = SCALES[zlib.crc32(repr((core.SEED, txt)).encode()) % 4]
    pc = curve(k, length, stress)
    geo = surface(length * a0[0] / a0[1])
    cc = damage.count(es, stress)
    depth = [length * p / q for p, q in out["depth"]]
    sif = [math.sqrt(math.pi * length * p / q) * stress for p, q in out["sif"]]
    got = get_crack_growth(cc, pc, geo, express_mode=fast)
    what = f"curve {k}, entries {es}{' fast' if fast else ''}"
    bad.eq(f"failure, {what}", bool(got.failure), out["failed"])
    bad.seq(f"depths, {what}", got.crack_depth, depth)
    bad.seq(f"intensities, {what}", got.sif, sif)
    bad.seq(f"geometry factors, {what}", got.geometry_factor, [1.0] * len(sif))
    bad.close(f"final cycles, {what}", got.final_cycles, done2 / 2)
    bad.seq("counts afterwards", cc.count_cycle, [n / 2 for _, n in es])
    bad.seq("stresses afterwards", cc.stress_range, [s * stress for s, _ in es])
    rates(bad, got, pc, depth, sif, stress, length)
    if bad:
        return bad
    df = cc.to_df()
    res = df.cg.calc_growth(pc, geo, express_mode=fast)
    blank = [math.nan] * (len(es) - len(ends))
    bad.seq(f"table depths, {what}", res["crack_depth"], [depth[j - 1] for j in ends] + blank)
    bad.seq(f"table intensities, {what}", res["sif"], [sif[j - 1] for j in ends] + blank)
    bad.seq(f"table factors, {what}", res["geometry_factor"], [1.0] * len(ends) + blank)
    total = np.cumsum([n / 2 for _, n in es])
    bad.seq(f"table cycles, {what}", res["cumul_cycle"],
            [total[j] for j in range(len(ends))] + blank)
    bad.close(f"table final cycles, {what}", df.cg.final_cycles, done2 / 2)
    bad.seq("table stresses", res["stress_range"], [s * stress for s, _ in es])
    return bad


def rates(bad, got, pc, depth, sif, stress, length):
    """The rate of growth at the start of every block and under other stresses."""
    for j in range(len(depth) - 1):
        rate, k, y = got.calc_growth_rate(got.stress_range[j], depth[j])
        bad.seq(f"rate, intensity and factor in block {j + 1}", [rate, k, y],
                [(depth[j + 1] - depth[j]) / got.count_cycle[j], sif[j], 1.0],
                rtol=1e-7, atol=1e-10 * length)
    for x in (0.0, 0.01, 0.6, 3.0, 40.0, 1e4):
        k = math.sqrt(math.pi * length) * stress * x
        want = float(np.ravel(pc.get_growth_rate(k))[0])
        bad.seq(f"rate, intensity and factor at stress {x}",
                got.calc_growth_rate(x * stress, length), [want, k, 1.0], atol=0)


def limit(side, k):
    return None if side == 9 else k * (1 + side * 1e-7)


def tie_case(txt):
    """Limits of the curve at the very intensity that is met."""
    from py_fatigue import ParisCurve

    s, n, lower, upper, out = (core.tla_value(x) for x in txt)
    bad = Mismatch()
    size = {"outer_diameter": 200.0, "thickness": 9.0, "height": 1000.0,
            "width_to_depth_ratio": 2.0}
    for length, stress in SCALES:
        shapes = [lambda a: surface(a)]
        if length == 1.0:
            shapes.append(lambda a: cylinder(a, **size))
        for make in shapes:
            a0 = 2.0 * length
            g = length / 64 / (math.pi * stress**2 * length)
            kw = {"slope": [2.0], "intercept": [g], "unit_string": "MPa √mm"}
            load = ([s * stress, 0.0], [n / 2, 1.0])
            k = grow(*load, ParisCurve(**kw), make(a0)).sif[0]
            limits = {"threshold": limit(lower, k), "critical": limit(upper, k)}
            kw.update({x: v for x, v in limits.items() if v is not None})
            got = grow(*load, ParisCurve(**kw), make(a0))
            what = f"intensity {k!r}, {limits}"
            bad.eq(f"failure, {what}", bool(got.failure), out["failed"])
            bad.eq(f"blocks, {what}", len(got.crack_depth), len(out["depth"]))
            if not out["failed"] and not bad:
                bad.eq(f"first depth, {what}", float(got.crack_depth[0]), a0)
                bad.eq(f"growth, {what}", bool(got.crack_depth[1] > a0),
                       out["depth"][1] != out["depth"][0])
    return bad


def ties(chk):
    r = chk.explore("CrackTiesMC", "CrackTiesMC")
    names = ("s", "n", "lower", "upper", "out")
    cases = [tuple(st[n] for n in names) for st in core.read_dump(r.dump, names, raw=names)
             if "depth |-> <<>>" not in st["out"] or "failed |-> TRUE" in st["out"]]
    chk.replay("ties", tie_case, cases)


def run_case(txt):
    """Entries of very many cycles, on a curve on which a block multiplies the depth."""
    from py_fatigue import ParisCurve

    es, fast, runs, total2 = (core.tla_value(x) for x in txt)
    bad = Mismatch()
    a0, gain = 2.0, 1e-8
    pc = ParisCurve(slope=[2.0], intercept=[gain / math.pi], unit_string="MPa √mm")
    got = grow([s for s, _ in es], [n / 2 for _, n in es], pc, surface(a0), fast)
    cyc, stress = np.asarray(got.count_cycle), np.asarray(got.stress_range)
    cuts = [0] + [int(i) + 1 for i in np.nonzero(
        (np.diff(cyc) != 0) | (np.diff(stress) != 0))[0]] + [len(cyc)]
    found = [[stress[i], 2 * cyc[i], j - i] for i, j in zip(cuts, cuts[1:])]
    want = []
    for s, n, k in runs:
        if want and want[-1][:2] == [s, n]:
            want[-1][2] += k
        else:
            want.append([s, n, k])
    bad.eq(f"blocks of {es}, fast {fast}", found, want)
    bad.eq("failure", bool(got.failure), False)
    bad.close("cycles", float(got.final_cycles), total2 / 2)
    depth, at = a0, 0
    for s, n, k in runs:
        rate = math.log1p(gain * s * s * n / 2)
        for j in (0, k // 2, k - 1):
            if at + j >= len(got.crack_depth):
                break
            bad.close(f"depth at block {at + j}", float(got.crack_depth[at + j]),
                      depth * math.exp(j * rate), rtol=1e-8)
        depth *= math.exp(k * rate)
        at += k
    bad.eq("blocks", [len(got.crack_depth), len(got.sif), len(got.geometry_factor)], [at] * 3)
    if bad:
        return bad
    res = damage.count(es, 1.0).to_df().cg.calc_growth(pc, surface(a0), express_mode=fast)
    whole = [n for s, n in es]
    bad.seq("table cycles", res["cumul_cycle"], np.cumsum(whole) / 2)
    last = np.searchsorted(np.cumsum(got.count_cycle), np.cumsum(whole) / 2 - 1e-6)
    bad.seq("table depths", res["crack_depth"], [got.crack_depth[i] for i in last])
    return bad


def runs(chk):
    r = chk.explore("CrackRunsMC", f"CrackRunsMC_{core.TIER}")
    names = ("es", "fast", "runs", "total2")
    cases = [tuple(st[n] for n in names) for st in core.read_dump(r.dump, names, raw=names)
             if st["es"] != "<<>>"]
    chk.replay("runs", run_case, cases, chunk=4)


def long_case(case):
    """Thousands of entries, some below the threshold."""
    from py_fatigue import ParisCurve

    seed, fast, clustered = case
    rng = random.Random(seed)
    bad = Mismatch()
    a0, gain = 2.0, 1e-6
    pc = ParisCurve(slope=[2.0], intercept=[gain / math.pi], threshold=5.0, unit_string="MPa √mm")
    es = [(rng.choice([1, 1, 8, 10]), rng.choice([0.5, 1.0, 1.5, 2.0, 2.5] if clustered
                                                 else [0.5, 1.0])) for _ in range(5000)]
    got = grow([s for s, _ in es], [n for _, n in es], pc, surface(a0), fast)
    blocks, ends = [], []
    for s, n in es:
        whole = int(n)
        if whole and clustered:
            blocks += [(s, whole)] if fast else [(s, 1)] * whole
            if n > whole:
                blocks.append((s, n - whole))
        else:
            blocks.append((s, n))
        ends.append(len(blocks) - 1)
    depth = [a0]
    for s, n in blocks:
        depth.append(depth[-1] * (1 + gain * s * s * n * (s > 1)))
    what = f"{len(es)} entries, fast {fast}, clustered {clustered}"
    bad.eq(f"failure, {what}", bool(got.failure), False)
    bad.eq(f"blocks, {what}", len(got.crack_depth), len(blocks))
    if bad:
        return bad
    bad.close(f"cycles, {what}", float(got.final_cycles), sum(n for _, n in es))
    for name, x, y in (("depth", got.crack_depth, depth[:-1]),
                       ("intensity", got.sif, [s * math.sqrt(math.pi * a)
                                               for (s, _), a in zip(blocks, depth)])):
        k = int(np.argmax(np.abs(np.asarray(x) / np.array(y) - 1)))
        bad.close(f"{name} of block {k}, {what}", float(x[k]), y[k], rtol=1e-8)
    df = damage.count([(s, 2 * n) for s, n in es], 1.0).to_df()
    res = df.cg.calc_growth(pc, surface(a0), express_mode=fast)
    x, y = res["crack_depth"].to_numpy(), np.array([depth[k] for k in ends])
    k = int(np.argmax(np.abs(x / y - 1)))
    bad.close(f"depth in row {k}, {what}", float(x[k]), y[k], rtol=1e-8)
    bad.close(f"cycles of the table, {what}", float(res["cumul_cycle"].iloc[-1]),
              sum(n for _, n in es))
    return bad


def explore(chk, kind):
    r = chk.explore("CrackGrowthMC", f"CrackGrowthMC_{kind}_{core.TIER}")
    names = ("k", "fast", "a0", "es", "out", "done2", "ends")
    cases = [tuple(st[n] for n in names) for st in core.read_dump(r.dump, names, raw=names)
             if st["es"] != "<<>>"]
    chk.replay(kind, replay_case, cases)


# ------------------------------------------------------------ random traces


def log(x):
    return NIL if x == 0 else round(DEC * math.log10(x))


def random_curve(rng):
    """In millionths of a decade; knees between 10 and 1000."""
    n = rng.randint(1, 4)
    m = [rng.randint(2, 8)]
    while len(m) < n:
        m.append(rng.choice([x for x in range(2, 9) if x != m[-1]]))
    k = sorted(rng.sample(range(1100, 2600), n - 1))
    # the rate at intensity 100 is about 1e-5 .. 1e-3
    a = [None] * n
    j = sum(x < 2000 for x in k)
    a[j] = -rng.randint(3000, 5000) - 2000 * m[j]
    for i in range(j, n - 1):
        a[i + 1] = a[i] - k[i] * (m[i + 1] - m[i])
    for i in range(j, 0, -1):
        a[i - 1] = a[i] - k[i - 1] * (m[i - 1] - m[i])
    t = rng.choice([None, rng.randint(600, 1099)])
    c = rng.choice([None, rng.randint(2601, 3100), rng.randint(2601, 2900)])
    return {"m": m, "a": [1000 * x for x in a], "t": NIL if t is None else 1000 * t,
            "c": INF if c is None else 1000 * c}


def real_curve(c):
    from py_fatigue import ParisCurve

    p = lambda x: 10.0 ** (x / DEC)
    kw = {}
    if c["t"] != NIL:
        kw["threshold"] = p(c["t"])
    if c["c"] != INF:
        kw["critical"] = p(c["c"])
    return ParisCurve(slope=[float(x) for x in c["m"]], intercept=[p(x) for x in c["a"]],
                      unit_string="MPa √mm", **kw)


def grow(stress, cyc, pc, geo, fast=False):
    from py_fatigue import CycleCount
    from py_fatigue.damage.crack_growth import get_crack_growth

    cc = CycleCount(count_cycle=np.array(cyc, float), stress_range=np.array(stress, float),
                    mean_stress=np.zeros(len(cyc)), timestamp=damage.NOW, unit="MPa")
    return get_crack_growth(cc, pc, geo, express_mode=fast)


def table(es, levels, pc, geo, fast):
    """The same through the table accessor."""
    from py_fatigue import CycleCount

    df = CycleCount(count_cycle=np.array([n / 2 for _, n in es]),
                    stress_range=np.array([levels[s] for s, _ in es]),
                    mean_stress=np.zeros(len(es)), timestamp=damage.NOW, unit="MPa").to_df()
    df = df.cg.calc_growth(pc, geo, express_mode=fast)
    cols = (df[c].tolist() for c in ("crack_depth", "sif", "geometry_factor", "cumul_cycle"))
    return {"cycles": round(2 * df.cg.final_cycles),
            "rows": [[INF if x != x else log(x) for x in r[:3]] +
                     [-1 if r[3] != r[3] else round(2 * r[3])] for r in zip(*cols)]}


def record(rng, fast):
    c = random_curve(rng)
    pc = real_curve(c)
    hollow = rng.random() < 0.6
    a0 = rng.choice([0.5, 1.0, 2.0])
    wall = a0 * rng.choice([1.2, 2.0, 5.0, 10.0])
    size = {"outer_diameter": 200.0, "thickness": wall, "height": 1000.0,
            "width_to_depth_ratio": rng.choice([1.0, 2.0, 3.0])}
    make = (lambda a: cylinder(a, **size)) if hollow else surface
    levels = [0.0] + rng.sample([3.0, 10.0, 30.0, 50.0, 80.0, 120.0, 200.0, 400.0], 5)
    if fast:
        es = [(rng.randrange(6), rng.choice([1, 2, 9, 20, 31, 100, 247, 600]))
              for _ in range(rng.randint(1, 5))]
        if rng.random() < 0.3:  # half cycles with a few clustered ones
            es = [(rng.randrange(6), 1) for _ in range(rng.randint(4, 50))] + es[:1]
            rng.shuffle(es)
        elif rng.random() < 0.3:  # hardly clustered
            es = [(s, rng.randint(1, 4)) for s, _ in es]
    else:
        es = [(rng.randrange(6), rng.choice([1, 2, 2, 2, 5])) for _ in range(rng.randint(1, 40))]
    got = grow([levels[s] for s, _ in es], [n / 2 for _, n in es], pc, make(a0), fast)
    n = len(got.crack_depth)
    cyc, stress = got.count_cycle, got.stress_range
    a = list(got.crack_depth)
    # the depth the last block leaves behind is met by a block without stress
    if not fast or all(x <= 1 for x in cyc):
        after = grow(list(stress[:n]) + [0.0], list(cyc[:n]) + [1.0], pc, make(a0))
        if len(after.crack_depth) == n + 1:
            a.append(after.crack_depth[n])
            last = after.geometry_factor[n]
        else:
            last = 0.0
    if len(a) == n:
        a.append(a[-1] + float(np.ravel(pc.get_growth_rate(got.sif[-1]))[0]) * cyc[n - 1]
                 if n else a0)
        if hollow and a[-1] >= wall:
            last = 0.0
        else:
            last = grow([0.0], [1.0], pc, make(a[-1])).geometry_factor[0]
    steps = []
    for i in range(n):
        inc = a[i + 1] - a[i]
        steps.append({"a": log(a[i]), "sif": log(got.sif[i]), "y": log(got.geometry_factor[i]),
                      "grown": log(inc), "visible": bool(inc > 1e-9 * a[i])})
    return {
        "c": c, "surface": not hollow, "wall": log(wall), "a0": log(a0), "fast": fast,
        "entries": es, "failed": bool(got.failure),
        "announced": [[levels.index(s), round(2 * x)] for s, x in zip(stress, cyc)],
        "blocks": [[log(s), log(x)] for s, x in zip(stress, cyc)],
        "lengths": [len(got.crack_depth), len(got.sif), len(got.geometry_factor)],
        "steps": steps, "last": {"a": log(a[n]), "y": log(last)},
        "cycles": round(2 * got.final_cycles),
        "table": table(es, levels, pc, make(a0), fast),
    }


def validate(chk, n, fast):
    with quiet():
        recs = chk.record("cracks", lambda: record(chk.rng, fast), n)
    failed = sum(r["failed"] for r in recs)
    if not n / 20 < failed < n * 19 / 20:
        chk.doubt(f"{failed} of {n} random cracks fail")
    chk.validate("random-cracks", "CrackTrace", recs, lambda: corrupted(recs))


def corrupted(recs):
    wrong = []

    def corrupt(ok, change):
        c = copy.deepcopy(next(r for r in recs if ok(r)))
        change(c)
        wrong.append(c)

    grown = lambda r: next((j for j, s in enumerate(r["steps"]) if s["visible"]), None)
    corrupt(lambda r: not r["failed"], lambda c: c.update(failed=True))
    corrupt(lambda r: r["failed"] and r["last"]["y"] != NIL, lambda c: c.update(failed=False))
    corrupt(lambda r: r["steps"], lambda c: c["steps"][-1].update(sif=c["steps"][-1]["sif"] + 60))
    corrupt(lambda r: grown(r) is not None,
            lambda c: c["steps"][grown(c)].update(grown=c["steps"][grown(c)]["grown"] + 200))
    corrupt(lambda r: True, lambda c: c.update(cycles=c["cycles"] + 1))
    corrupt(lambda r: True, lambda c: c["table"].update(cycles=c["cycles"] + 1))
    corrupt(lambda r: r["table"]["rows"][0][0] != INF,
            lambda c: c["table"]["rows"][0].__setitem__(3, c["table"]["rows"][0][3] + 1))
    corrupt(lambda r: r["table"]["rows"][0][0] != INF,
            lambda c: c["table"]["rows"][0].__setitem__(0, c["table"]["rows"][0][0] + 200))
    corrupt(lambda r: r["steps"], lambda c: c.update(a0=c["a0"] + 1))
    corrupt(lambda r: len(r["announced"]) > 1,
            lambda c: c["announced"][0].__setitem__(1, c["announced"][0][1] + 1))
    return wrong
