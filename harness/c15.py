"""C15: crack growth curves."""

import copy
import math

import numpy as np

import core
from adapt import Mismatch

INF, NIL = 100000000, -100000000
UNITS = (5, 8, 20)  # units of the logarithm per decade
# unit of the intensity, and root by which slopes are divided
FORMS = {5: (1.0, 1), 8: (3.7e-5, 2), 20: (2.6e3, 1), 100: (1.0, 1)}


def power(x, unit):
    return math.inf if x == INF else 0.0 if x == NIL else 10.0 ** (x / unit)


def sif_at(x, unit):
    u, root = FORMS[unit]
    return power(x, unit) if x in (INF, NIL) else u * power(root * x, unit)


def curve(c, unit, scalar=False):
    from py_fatigue import ParisCurve

    u, root = FORMS[unit]
    m = [x / root for x in c["m"]]
    a = [power(x, unit) * u**-y for x, y in zip(c["a"], m)]
    if scalar and len(m) == 1:
        m, a = m[0], a[0]
    kw = {}
    if c["t"] != NIL:
        kw["threshold"] = sif_at(c["t"], unit)
    if c["c"] != INF:
        kw["critical"] = sif_at(c["c"], unit)
    if unit in (5, 100):  # as arrays that the caller uses for something else later
        m, a = np.array(m), np.array(a)
        pc = ParisCurve(slope=m, intercept=a, **kw)
        m[:], a[:] = 2.5, 1e-9
        return pc
    return ParisCurve(slope=m, intercept=a, **kw)


def replay_case(txt):
    c, rates, sifs, usable, knees, ends = (core.tla_value(x) for x in txt)
    bad = Mismatch()
    for unit in UNITS:
        pc = curve(c, unit, scalar=unit == 8)
        x = [sif_at(k, unit) for k, _ in rates] + [0.0, math.inf]
        want = [power(r, unit) for _, r in rates] + [0.0, math.inf]
        y = [power(r, unit) for r, _ in sifs] + [0.0, math.inf]
        wanted = [sif_at(p if q == 1 else p / q, unit) for _, (p, q) in sifs]
        wanted += [sif_at(c["t"], unit), sif_at(c["c"], unit)]
        if not usable:
            refuse = (AssertionError, ValueError)
            for v in (power(0, unit), [power(1, unit), power(4, unit)]):
                bad.raises(f"rate of {c}", refuse, lambda: pc.get_growth_rate(v))
                bad.raises(f"intensity of {c}", refuse, lambda: pc.get_sif(v))
            continue
        bad.eq("linear", bool(pc.linear), len(c["m"]) == 1)
        routes = {
            "array": pc.get_growth_rate(np.array(x)), "list": pc.get_growth_rate(x),
            "tuple": pc.get_growth_rate(tuple(x)),
            "scalars": [pc.get_growth_rate(v) for v in x],
            "reversed": pc.get_growth_rate(np.array(x)[::-1])[::-1],
        }
        for name, got in routes.items():
            bad.seq(f"rate of {c} at {x} ({name})", got, want, rtol=1e-8, atol=0)
        routes = {
            "array": pc.get_sif(np.array(y)), "list": pc.get_sif(y),
            "scalars": [pc.get_sif(v) for v in y],
            "reversed": pc.get_sif(np.array(y)[::-1])[::-1],
        }
        for name, got in routes.items():
            bad.seq(f"intensity of {c} at {y} ({name})", got, wanted, rtol=1e-8, atol=0)
        kk = [sif_at(k[0][0] / k[0][1], unit) for k in knees]
        kr = [power(k[1][0] / k[1][1], unit) for k in knees]
        bad.seq(f"knee intensities of {c}", pc.get_knee_sif(), kk, rtol=1e-8, atol=0)
        bad.seq(f"knee rates of {c}", pc.get_knee_growth_rate(), kr, rtol=1e-8, atol=0)
        bad.close(f"threshold rate of {c}", float(np.ravel(pc.threshold_growth_rate)[0]),
                  power(ends[0], unit), rtol=1e-8, atol=0)
        bad.close(f"critical rate of {c}", float(np.ravel(pc.critical_growth_rate)[0]),
                  power(ends[1], unit), rtol=1e-8, atol=0)
        # just inside and just outside of the limits
        for name, k, end, outside in (("threshold", c["t"], ends[0], -1),
                                      ("critical intensity", c["c"], ends[1], 1)):
            if k in (INF, NIL):
                continue
            for d in (1e-12, 1e-10, 1e-7):
                got = np.ravel(pc.get_growth_rate(
                    [sif_at(k, unit) * (1 + outside * d), sif_at(k, unit) * (1 - outside * d)]))
                bad.close(f"rate of {c} {d} outside of the {name}", float(got[0]),
                          math.inf if outside > 0 else 0.0)
                bad.close(f"rate of {c} {d} inside of the {name}", float(got[1]),
                          power(end, unit), rtol=1e-5, atol=0)
        # the one is the inverse of the other around the knees
        low = power(ends[0], unit) * (1 + 1e-6) if c["t"] != NIL else 0.0
        high = power(ends[1], unit) * (1 - 1e-6) if c["c"] != INF else math.inf
        r = [x for k in kr for d in (1e-2, 1e-4, 1e-6, 1e-8) for x in (k * (1 - d), k * (1 + d))
             if low < x < high]
        if r:
            bad.seq(f"rate of {c} at the intensity of rates around the knees",
                    pc.get_growth_rate(pc.get_sif(r)), r, rtol=1e-9, atol=0)
        if unit == 20 and len(x) % 3 == 0:
            bad.seq(f"rate of {c} at many places", pc.get_growth_rate(np.repeat(x, 200)),
                    np.repeat(want, 200), rtol=1e-8, atol=0)
            bad.seq(f"intensity of {c} at many rates", pc.get_sif(np.repeat(y, 200)),
                    np.repeat(wanted, 200), rtol=1e-8, atol=0)
        if knees:
            pc.get_knee_sif(kk)
            pc.get_knee_growth_rate(kk)
            bad.raises("wrong knees", AssertionError,
                       lambda: pc.get_knee_sif([k * 3 for k in kk]))
            bad.raises("too many knees", ValueError, lambda: pc.get_knee_sif(kk + kk))
            bad.raises("too many knees", ValueError, lambda: pc.get_knee_growth_rate(kk + kk))
            near = [k * 1.001 for k in kk]
            for get in (pc.get_knee_sif, pc.get_knee_growth_rate):
                get(near)
                bad.raises("inexact knees", AssertionError, lambda: get(near, 6))
                close = [k * (1 + 1e-6) for k in kk]
                get(close, 4)
                bad.raises("inexact knees", AssertionError, lambda: get(close, 9))
                for j in range(len(kk)):  # one of them is wrong
                    one = [k * (3 if i == j else 1) for i, k in enumerate(kk)]
                    bad.raises("a wrong knee", AssertionError, lambda: get(one))
                if len(kk) == 1:  # a number instead of a list
                    get(kk[0])
                    bad.raises("a wrong knee", AssertionError, lambda: get(3 * kk[0]))
        else:
            for get in (pc.get_knee_sif, pc.get_knee_growth_rate):
                bad.raises("a knee without knees", ValueError, lambda: get([1.0]))
        if bad:
            break
    return bad


def refusal_case(_):
    from py_fatigue import ParisCurve

    bad = Mismatch()
    for pc in (ParisCurve(3.0, 1e-12), ParisCurve([3.0, 2.0], [1e-12, 1e-9]),
               ParisCurve([3.0, 2.0], [1e-12, 1e-9], threshold=10, critical=2000)):
        for fun in (pc.get_growth_rate, pc.get_sif):
            for v in (-1.0, [3.0, -0.5, 2.0], np.array([-1e-9])):
                bad.raises(f"{fun.__name__}({v})", (AssertionError, ValueError), lambda: fun(v))
        for name, v in (("slope", [4.0]), ("intercept", [1e-11]), ("threshold", 1.0),
                        ("critical", 9.0), ("unit", "kPa"), ("linear", True)):
            before = getattr(pc, name)
            bad.raises(f"setting {name}", AttributeError, lambda: setattr(pc, name, v))
            bad.eq(f"{name} after setting it", np.array_equal(getattr(pc, name), before), True)
    for m, a in (([3, 5], [1e-12]), ([3], [1e-12, 1e-9]), (3, [1e-12, 1e-9])):
        bad.raises(f"slopes {m} with intercepts {a}", ValueError, lambda: ParisCurve(m, a))
    return bad


# ------------------------------------------------------------ random traces


def random_curve(rng):
    n = rng.randint(1, 5)
    m = [rng.randint(1, 9)]
    while len(m) < n:
        m.append(rng.choice([x for x in range(1, 10) if x != m[-1]]))
    k = sorted(rng.sample(range(40, 260), n - 1))
    a = [-rng.randint(900, 1500)]
    for j, s in enumerate(k):
        a.append(a[-1] - s * (m[j + 1] - m[j]))
    return {"m": m, "a": a, "t": rng.choice([NIL, rng.randint(-40, 39)]),
            "c": rng.choice([INF, rng.randint(261, 330)])}


def random_record(rng):
    c = random_curve(rng)
    pc = curve(c, 100)
    k = [rng.randint(-50, 340) for _ in range(40)]
    r = [rng.randint(c["a"][0] - 500, 500) for _ in range(40)]
    log = lambda x, f: INF if x == math.inf else NIL if x == 0 else round(f * math.log10(x))
    near = lambda x: log(x, 100) if x in (0, math.inf) or abs(
        100 * math.log10(x) - log(x, 100)) < 1e-6 else INF + 1
    return {
        "c": c,
        "rates": [[x, near(y)] for x, y in
                  zip(k, pc.get_growth_rate([power(x, 100) for x in k]).tolist())],
        "sifs": [[x, log(y, 100000)] for x, y in
                 zip(r, pc.get_sif([power(x, 100) for x in r]).tolist())],
        "knees": [[log(x, 100000), log(y, 100000)] for x, y in
                  zip(pc.get_knee_sif().tolist(), pc.get_knee_growth_rate().tolist())],
    }


def check(chk):
    r = chk.explore("ParisCurveMC", f"ParisCurveMC_{core.TIER}")
    names = ("c", "rates", "sifs", "usable", "knees", "ends")
    cases = [tuple(st[n] for n in names) for st in core.read_dump(r.dump, names, raw=names)
             if "m |-> <<>>" not in st["c"]]
    chk.replay("curves", replay_case, cases, chunk=40)
    chk.replay("refusals", refusal_case, [0], chunk=1)
    recs = chk.record("curves", lambda: random_record(chk.rng), 300 if core.quick else 3000)

    def corrupt():
        wrong = []
        for part, f in (("rates", 1), ("sifs", 3000)):
            c = copy.deepcopy(recs[0])
            j = next(j for j, p in enumerate(c[part]) if p[1] not in (INF, NIL))
            c[part][j][1] += f
            wrong.append(c)
        c = copy.deepcopy(next(x for x in recs if x["knees"]))
        c["knees"][-1][1] += 3000
        wrong.append(c)
        return wrong

    chk.validate("random-curves", "ParisCurveTrace", recs, corrupt)
