"""C11: stress-life curves."""

import copy
import math
import warnings

import numpy as np

import core
from adapt import Mismatch

NEVER = 1000000
UNITS = (5, 8, 10)  # units of the logarithm per decade
# unit of the stress, and root by which slopes are divided
FORMS = {5: (1.0, 1), 8: (3.7e-5, 2), 10: (2.6e3, 1), 100: (1.0, 1)}


def power(x, unit):
    return 10.0 ** (x / unit)


def stress_at(x, unit):
    u, root = FORMS[unit]
    return u * power(root * x, unit)


def curve(c, unit, scalar=False):
    from py_fatigue import SNCurve

    u, root = FORMS[unit]
    m = [x / root for x in c["m"]]
    a = [x / unit + y * math.log10(u) for x, y in zip(c["a"], m)]
    if scalar and len(m) == 1:
        m, a = m[0], a[0]
    kw = {} if c["e"] == NEVER else {"endurance": power(c["e"], unit)}
    if unit in (5, 100):  # as arrays that the caller uses for something else later
        m, a = np.array(m), np.array(a)
        sn = SNCurve(slope=m, intercept=a, **kw)
        m[:], a[:] = 2.5, 17.0
        return sn
    return SNCurve(slope=m, intercept=a, **kw)


def replay_case(txt):
    c, cyc, strs, refused, knees = (core.tla_value(x) for x in txt)
    bad = Mismatch()
    for unit in UNITS:
        if refused:
            bad.raises(f"curve {c}", ValueError, lambda: curve(c, unit))
            continue
        sn = curve(c, unit, scalar=unit == 8)
        bad.eq("linear", bool(sn.linear), len(c["m"]) == 1)
        pairs = [(stress_at(s, unit), math.inf if n == NEVER else power(n, unit), u)
                 for s, n, u in cyc]
        x = [p[0] for p in pairs] + [0.0]
        want = [p[1] for p in pairs] + [math.inf]
        loose = [p[2] for p in pairs] + [False]
        routes = {
            "array": sn.get_cycles(np.array(x)), "list": sn.get_cycles(x),
            "tuple": sn.get_cycles(tuple(x)), "scalars": [sn.get_cycles(v) for v in x],
            "reversed": sn.get_cycles(np.array(x)[::-1])[::-1],
        }
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            routes["old name"] = sn.n(np.array(x))
        for name, got in routes.items():
            got = np.asarray(got, dtype=float).tolist()
            bad.eq(f"{name}: number of results", len(got), len(want))
            for v, g, w, u in zip(x, got, want, loose):
                if u and g == math.inf:
                    continue
                bad.close(f"cycles of {c} at {v} ({name})", g, w, rtol=1e-8)
        y = [power(n, unit) for n, _ in strs]
        want = [stress_at(p / q, unit) for _, (p, q) in strs]
        routes = {"array": sn.get_stress(np.array(y)), "list": sn.get_stress(y),
                  "scalars": [sn.get_stress(v) for v in y]}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            routes["old name"] = sn.sigma(y)
        for name, got in routes.items():
            bad.seq(f"stress of {c} at {y} ({name})", got, want, rtol=1e-8)
        if unit == 10 and (c["a"][0] + sum(c["m"])) % 3 == 0:
            for name, got, w in (
                ("cycles", sn.get_cycles(np.repeat(x, 150)), sn.get_cycles(np.array(x))),
                ("stress", sn.get_stress(np.repeat(y, 150)), want),
            ):
                bad.seq(f"{name} of {c} at many places", got, np.repeat(w, 150), rtol=1e-8)
        ks = [stress_at(k[0][0] / k[0][1], unit) for k in knees]
        kn = [power(k[1][0] / k[1][1], unit) for k in knees]
        bad.seq(f"knee stress of {c}", sn.get_knee_stress(), ks, rtol=1e-8)
        bad.seq(f"knee cycles of {c}", sn.get_knee_cycles(), kn, rtol=1e-8)
        if c["e"] != NEVER:
            end = stress_at((c["a"][-1] - c["e"]) / c["m"][-1], unit)
            bad.close(f"endurance stress of {c}", sn.endurance_stress, end, rtol=1e-8)
            # just above and just below
            bad.close(f"cycles of {c} above its endurance stress",
                      float(np.ravel(sn.get_cycles(end * (1 + 1e-7)))[0]),
                      power(c["e"], unit), rtol=1e-5)
            bad.close(f"cycles of {c} below its endurance stress",
                      float(np.ravel(sn.get_cycles(end * (1 - 1e-7)))[0]), math.inf)
            bad.seq(f"stress of {c} around its endurance",
                    sn.get_stress([power(c["e"], unit) * f for f in (1 - 1e-7, 1 + 1e-7, 30)]),
                    [end] * 3, rtol=1e-6)
        else:
            bad.close(f"endurance stress of {c}", sn.endurance_stress, 0.0)
        if knees:
            sn.get_knee_cycles(kn)
            sn.get_knee_stress(kn)
            bad.raises("wrong knee cycles", AssertionError,
                       lambda: sn.get_knee_cycles([k * 3 for k in kn]))
            bad.raises("too many knees", ValueError, lambda: sn.get_knee_cycles(kn + kn))
            bad.raises("too many knees", ValueError, lambda: sn.get_knee_stress(kn + kn))
            near = [k * 1.001 for k in kn]
            for get in (sn.get_knee_cycles, sn.get_knee_stress):
                get(near)
                bad.raises("inexact knees", AssertionError, lambda: get(near, 6))
                close = [k * (1 + 1e-6) for k in kn]
                get(close, 4)
                bad.raises("inexact knees", AssertionError, lambda: get(close, 9))
                for j in range(len(kn)):  # one of them is wrong
                    one = [k / (30 if i == j else 1) for i, k in enumerate(kn)]
                    bad.raises("a wrong knee", AssertionError, lambda: get(one))
                if len(kn) == 1:  # a number instead of a list
                    get(kn[0])
                    bad.raises("a wrong knee", AssertionError, lambda: get(kn[0] / 30))
        else:
            for get in (sn.get_knee_cycles, sn.get_knee_stress):
                bad.raises("a knee without knees", ValueError, lambda: get([1e6]))
        if bad:
            break
    return bad


def refusal_case(_):
    from py_fatigue import SNCurve

    bad = Mismatch()
    for sn in (SNCurve(3, 12.0), SNCurve([3, 5], [12.0, 16.0]),
               SNCurve([3, 5], [12.0, 16.0], endurance=1e9)):
        for fun in (sn.get_cycles, sn.get_stress):
            for v in (-1.0, [3.0, -0.5, 2.0], np.array([-1e-9])):
                bad.raises(f"{fun.__name__}({v})", (AssertionError, ValueError), lambda: fun(v))
        for name, v in (("slope", [4.0]), ("intercept", [11.0]), ("endurance", 1e6),
                        ("unit", "kPa"), ("linear", True), ("endurance_stress", 2.0)):
            before = getattr(sn, name)
            bad.raises(f"setting {name}", AttributeError, lambda: setattr(sn, name, v))
            bad.eq(f"{name} after setting it", np.array_equal(getattr(sn, name), before), True)
    for m, a in (([3, 5], [12.0]), ([3], [12.0, 16.0]), (3, [12.0, 16.0]), ([3, 5], 12.0)):
        bad.raises(f"slopes {m} with intercepts {a}", ValueError, lambda: SNCurve(m, a))
    return bad


# ------------------------------------------------------------ random traces


def random_curve(rng):
    while True:
        m = sorted(rng.sample(range(1, 12), rng.randint(1, 4)))
        k = sorted((rng.randint(60, 260) for _ in m[1:]), reverse=True)
        if len(set(k)) < len(k):
            continue
        a = [rng.randint(900, 1500)]
        for j, s in enumerate(k):
            a.append(a[-1] + s * (m[j + 1] - m[j]))
        top = a[-2] - m[-2] * k[-1] if k else 400
        e = rng.choice([NEVER, top + rng.randint(1, 400)])
        return {"m": m, "a": a, "e": e}


def random_record(rng):
    c = random_curve(rng)
    sn = curve(c, 100)
    s = [rng.randint(-50, 330) for _ in range(40)]
    k = [rng.randint(-100, 1600) for _ in range(40)]
    log = lambda x, f: NEVER if x == math.inf else (
        round(f * math.log10(x)) if x > 0 else -NEVER)
    cyc = sn.get_cycles(np.array([power(x, 100) for x in s])).tolist()
    stress = sn.get_stress([power(x, 100) for x in k]).tolist()
    near = lambda x: NEVER if x == math.inf else (
        log(x, 100) if abs(100 * math.log10(x) - log(x, 100)) < 1e-6 else -NEVER)
    return {
        "c": c, "cyc": [[x, near(y)] for x, y in zip(s, cyc)],
        "str": [[x, log(y, 100000)] for x, y in zip(k, stress)],
        "knees": [[log(x, 100000), log(y, 100000)] for x, y in
                  zip(sn.get_knee_stress().tolist(), sn.get_knee_cycles().tolist())],
    }


def check(chk):
    r = chk.explore("SNCurveMC", f"SNCurveMC_{core.TIER}")
    names = ("c", "cyc", "str", "refused", "knees")
    cases = [tuple(st[n] for n in names) for st in core.read_dump(r.dump, names, raw=names)
             if "m |-> <<>>" not in st["c"]]
    chk.replay("curves", replay_case, cases, chunk=40)
    chk.replay("refusals", refusal_case, [0], chunk=1)
    recs = chk.record("curves", lambda: random_record(chk.rng), 300 if core.quick else 3000)

    def corrupt():
        wrong = []
        for part, f in (("cyc", 1), ("str", 2000)):
            c = copy.deepcopy(recs[0])
            j = next(j for j, p in enumerate(c[part]) if p[1] != NEVER)
            c[part][j][1] += f
            wrong.append(c)
        c = copy.deepcopy(next(x for x in recs if x["knees"]))
        c["knees"][-1][1] += 2000
        wrong.append(c)
        return wrong

    chk.validate("random-curves", "SNCurveTrace", recs, corrupt)
