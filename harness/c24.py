"""C24: objects are equal exactly when they hold the same."""

import copy
import datetime as dt
import random

import numpy as np

import core
import counts
import crack
import ctrace
from adapt import Mismatch


def up(x):
    return float(np.nextafter(x, np.inf))


def stamp(*args):
    return dt.datetime(*args, tzinfo=dt.timezone.utc)


# Values 0..3 of every field; 0 is what both objects hold at first.
COUNT = [
    ("count_cycle", ([1.0, 0.5, 3.0], [1.0, 0.5, 4.0], [0.5, 1.0, 3.0], [1.0, 0.5, 2.5])),
    ("stress_range", ([4.0, 8.0, 2.0], [4.0, 8.0, up(2.0)], [8.0, 4.0, 2.0], [4.0, 8.0, 3.0])),
    ("mean_stress", ([1.0, -2.0, 0.0], [1.0, 2.0, 0.0], [-2.0, 1.0, 0.0],
                     [up(1.0), -2.0, 0.0])),
    ("timestamp", (stamp(2020, 1, 1), stamp(2020, 1, 2), stamp(2020, 1, 1, 0, 0, 1),
                   stamp(2021, 1, 1))),
    ("unit", ("MPa", "mpa", "kPa", "")),
    ("range_bin_lower_bound", (0.2, up(0.2), 0.0, 0.4)),
    ("range_bin_width", (0.05, up(0.05), 0.1, 5.0)),
    ("mean_bin_lower_bound", (-5.0, -10.0, 0.0, up(-5.0))),
    ("mean_bin_width", (10.0, up(10.0), 5.0, 20.0)),
    ("nr_small_cycles", (0, 1, 2, 10)),
    ("residuals_sequence", ([1.0, 5.0, -3.0], [1.0, 5.0], [1.0, 5.0, up(-3.0)], [])),
    ("flags", ((False, "No"), (True, "No"), (False, "own"), (True, "own"))),
    ("stress_concentration_factor", (1.0, up(1.0), 2.0, 0.5)),
    ("name", ("a", "b", "A", None)),
]
SN = [
    ("slope", ([3.0, 5.0], [3.0, up(5.0)], [2.5, 5.0], [3.0, 5.25])),
    ("intercept", ([12.0, 16.0], [12.0, up(16.0)], [12.25, 16.0], [11.75, 16.0])),
    ("endurance", (1e9, up(1e9), 2e9, np.inf)),
    ("environment", ("Air", "air", "Sea", None)),
    ("curve", ("B", "C", "b", None)),
    ("norm", ("X", "Y", "x", None)),
    ("unit_string", ("MPa", "mpa", "kPa", "ksi")),
    ("color", ("#000", "#001", "red", "k")),
]
PARIS = [
    ("slope", ([3.0, 2.0], [3.0, up(2.0)], [3.125, 2.0], [3.0, 1.875])),
    ("intercept", ([1e-12, 1e-9], [1e-12, up(1e-9)], [1.5e-12, 1e-9], [1e-12, 1.25e-9])),
    ("threshold", (5.0, up(5.0), 6.0, 0)),
    ("critical", (1e4, up(1e4), 2e4, np.inf)),
    ("environment", ("Air", "air", "Sea", None)),
    ("curve", ("B", "C", "b", None)),
    ("norm", ("X", "Y", "x", None)),
    ("unit_string", ("MPa √mm", "MPa √m", "kPa √mm", "ksi √in")),
    ("color", ("#000", "#001", "red", "k")),
]
CYLINDER = [
    ("initial_depth", (1.0, up(1.0), 2.0, 0.5)),
    ("outer_diameter", (300.0, up(300.0), 400.0, 200.0)),
    ("thickness", (20.0, up(20.0), 30.0, 10.0)),
    ("height", (1000.0, up(1000.0), 500.0, 2000.0)),
    ("where", (("external", 2.0), ("internal", 2.0), ("external", 3.0), ("internal", 3.0))),
]
FIELDS = {"count": COUNT, "sn": SN, "paris": PARIS, "cylinder": CYLINDER}


def make(kind, vals, ahead=0):
    from py_fatigue import CycleCount, ParisCurve, SNCurve
    from py_fatigue.geometry import HollowCylinder

    kw = {}
    for (name, choice), v in zip(FIELDS[kind], vals):
        x = choice[v]
        if isinstance(x, list):
            x = np.concatenate([1.0 + np.arange(ahead) % 5, x])
        kw[name] = x
    if kind == "count":
        kw["lffd_solved"], kw["mean_stress_corrected"] = kw.pop("flags")
        lower = kw.pop("mean_bin_lower_bound")
        cc = CycleCount(**kw)
        cc.mean_bin_lower_bound = lower
        return cc
    if kind == "cylinder":
        kw["crack_position"], kw["width_to_depth_ratio"] = kw.pop("where")
        return HollowCylinder(**kw)
    return {"sn": SNCurve, "paris": ParisCurve}[kind](**kw)


def judge(bad, what, x, y, equal):
    for name, got, want in (("==", x == y, equal), ("== (swapped)", y == x, equal),
                            ("!=", x != y, not equal), ("!= (swapped)", y != x, not equal)):
        if got is not want and not (isinstance(got, (bool, np.bool_)) and bool(got) == want):
            bad.append(f"{what} {name}: got {got!r}, specification says {want}")


def replay_case(case):
    kind, a, b, equal = case
    bad = Mismatch()
    x, y = make(kind, a), make(kind, b)
    judge(bad, f"{kind} {a} and {b}", x, y, equal)
    judge(bad, f"{kind} {a} and itself", x, x, True)
    if kind == "count":
        judge(bad, f"long counts {a} and {b}", make(kind, a, 400), make(kind, b, 400), equal)
    if sum(a) == sum(b) == 0:
        for other in (None, 1, "a", [x], np.array([1.0, 2.0]), object(),
                      *(make(k, [0] * len(f)) for k, f in FIELDS.items() if k != kind)):
            if isinstance(other, np.ndarray) and kind == "cylinder":
                continue
            got = x == other
            bad.eq(f"{kind} == {type(other).__name__}", bool(np.all(got)), False)
        judge(bad, f"{kind} and its copy", x, copy.deepcopy(x), True)
    return bad


# ------------------------------------------------------------ random traces


def pool_record(rng):
    """The counts of a history and of the same history once more."""
    seed = rng.getrandbits(60)
    kinds = ["add", "mul", "solve", "correct"]
    with crack.quiet():
        _, _, _, pool, times = ctrace.random_history(random.Random(seed), kinds, 3, 4)
        _, _, _, again, _ = ctrace.random_history(random.Random(seed), kinds, 3, 4)
    pool = pool[:6] + again[:6]
    objs = []
    for cc in pool:
        rec = counts.record(cc, times)
        rec["name"], rec["corr"] = str(cc.name), str(cc.mean_stress_corrected)
        rec["float"] = [repr(float(v)) for v in np.ravel(
            [cc.stress_range, cc.mean_stress, cc.count_cycle])]
        objs.append(rec)
    return {"objs": objs, "eq": [[bool(x == y) for y in pool] for x in pool]}


def check(chk):
    r = chk.explore("EqualityMC", f"EqualityMC_{core.TIER}")
    cases, seen = [], set()
    for st in core.read_dump(r.dump):
        case = (st["kind"], tuple(st["a"]), tuple(st["b"]), st["equal"])
        if case not in seen:
            seen.add(case)
            cases.append(case)
    chk.replay("pairs", replay_case, cases)
    recs = chk.record("pools", lambda: pool_record(chk.rng), 60 if core.quick else 600)

    def corrupt():
        wrong = []
        for k in range(4):
            c = copy.deepcopy(recs[k])
            i, j = chk.rng.randrange(len(c["objs"])), chk.rng.randrange(len(c["objs"]))
            c["eq"][i][j] = not c["eq"][i][j]
            wrong.append(c)
        return wrong

    chk.validate("pools", "EqualityTrace", recs, corrupt)
