"""C29: malformed requests are refused and leave no trace, others are answered."""

import copy
import datetime as dt
import math
import os
import random
import warnings
from contextlib import redirect_stdout

import numpy as np
import pandas as pd

import core
import crack
import damage
from adapt import Mismatch

REFUSALS = (TypeError, ValueError, AttributeError, KeyError, AssertionError, NotImplementedError)
NOW = dt.datetime(2021, 1, 1, tzinfo=dt.timezone.utc)
SIGNAL = (0.0, 3.0, -2.0, 4.0, -1.0, 2.0)
DONE = {"miner": "cycles_to_failure", "gassner": "shift_factor", "growth": "crack_depth"}
COLUMNS = ("count_cycle", "mean_stress", "stress_range")
SLOPES, LIVES = (3.0, 5.0, 7.0), (12.0, 16.0, 19.0)
RATES, GROWTHS = (3.0, 5.0, 2.0), (1e-12, 1e-14, 1e-8)


class World:
    """The objects requests are put to."""

    def __init__(self):
        from py_fatigue import CycleCount, ParisCurve, SNCurve
        from py_fatigue.geometry import Cylinder, HollowCylinder

        self.data = list(SIGNAL)
        self.array = np.array(SIGNAL)
        self.time = [7.0 + k for k in range(len(SIGNAL))]
        self.count, self.later, self.other = (
            CycleCount.from_timeseries(
                np.array(SIGNAL) * f, timestamp=NOW + dt.timedelta(hours=k), unit=u,
                range_bin_lower_bound=1.0, range_bin_width=1.0, mean_bin_lower_bound=-20.0,
                mean_bin_width=1.0, name="x")
            for k, f, u in ((0, 1, "MPa"), (1, 2, "MPa"), (2, 3, "kPa")))
        self.life = [SNCurve(SLOPES[:k], LIVES[:k]) for k in (1, 2, 3)]
        self.growth = [ParisCurve(RATES[:k], GROWTHS[:k]) for k in (1, 2, 3)]
        self.strange = SNCurve(3.0, 12.0, unit_string="psi")
        self.slow = ParisCurve(3.0, 1e-12, threshold=0, critical=1e9)
        self.alien = ParisCurve(3.0, 1e-12, threshold=0, critical=1e9, unit_string="ksi √in")
        self.bodies = {
            "plate": crack.surface(1.0),
            "outer": HollowCylinder(initial_depth=1.0, outer_diameter=100.0, thickness=10.0,
                                    height=100.0, crack_position="external"),
            "inner": HollowCylinder(initial_depth=1.0, outer_diameter=100.0, thickness=10.0,
                                    height=100.0, crack_position="internal"),
            "full": Cylinder(initial_depth=1.0, diameter=100.0, height=100.0),
        }
        self.table = pd.DataFrame(
            {"CC_x": [self.count, self.later], "v": [1.0, 3.0]},
            index=pd.DatetimeIndex([NOW, NOW + dt.timedelta(hours=1)]))

    def seen(self):
        """Everything the objects hold."""
        parts = [self.data, self.array, self.time, self.count, self.later, self.other, self.life,
                 self.growth, self.strange, self.slow, self.alien, list(self.bodies.values())]
        parts += [self.table[c].tolist() for c in self.table] + [list(map(str, self.table.index))]
        return plain(parts)


def plain(x):
    """A value in terms of numbers and texts."""
    from py_fatigue import CycleCount, ParisCurve, SNCurve

    if isinstance(x, CycleCount):
        return ["count", x.name, x.unit, str(x.mean_stress_corrected), bool(x.lffd_solved),
                str(x.timestamp)] + [plain(np.asarray(getattr(x, a), dtype=float)) for a in (
                    "count_cycle", "stress_range", "mean_stress", "residuals_sequence",
                    "range_bin_width", "mean_bin_width", "nr_small_cycles",
                    "stress_concentration_factor")]
    if isinstance(x, (SNCurve, ParisCurve)):
        return ["curve", x.unit] + [plain(np.asarray(getattr(x, a), dtype=float)) for a in (
            ("slope", "intercept", "endurance") if isinstance(x, SNCurve) else
            ("slope", "intercept", "threshold", "critical"))]
    if isinstance(x, pd.DataFrame):
        return [[str(c), plain(x[c].tolist())] for c in x.columns] + [list(map(str, x.index))]
    if isinstance(x, pd.Series):
        return plain(x.tolist())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number)):
        return "nan" if math.isnan(x) else float(x)
    if x is None or isinstance(x, str):
        return x
    return [type(x).__name__, [[k, plain(v)] for k, v in sorted(vars(x).items())
                               if not k.startswith("_")]]


# --------------------------------------------------------- the requests made


def signal(w, route, holder, time, missing):
    from py_fatigue import CycleCount
    from py_fatigue.cycle_count import rainflow as R

    if missing != "no":
        lst = list(w.data)
        lst[{"first": 0, "inner": 2, "last": -1}[missing]] = math.nan
        arr = np.array(lst)
    else:
        lst, arr = w.data, w.array
    data = {"list": lst, "array": arr, "tuple": tuple(lst), "text": "0123", "none": None,
            "number": 3.0}[holder]
    t = {"no": None, "list": w.time, "array": np.array(w.time), "text": "tttttt",
         "short": w.time[:-1], "long": np.array(w.time + [99.0]), "empty": []}[time]
    kw = {} if time == "no" else {"time": t}
    if route == "rainflow":
        return [np.asarray(x) for x in R.rainflow(data, **kw)]
    return CycleCount.from_timeseries(data, mean_bin_width=1, timestamp=NOW, **kw)


def word(w, topic, name, lower):
    from matplotlib import pyplot as plt
    from py_fatigue.cycle_count import rainflow as R
    from py_fatigue.damage import stress_life as sl

    if not lower:
        name = name.upper()
    if topic == "mode":
        return w.count.solve_lffd(solve_mode=name)
    if topic == "correction":
        return w.count.mean_stress_correction(correction_type=name, detail_factor=0.8, gamma=0.4)
    if topic == "rule":
        return sl.get_nonlinear_damage(name, w.count, w.life[1], base_exponent=0.5,
                                       ultimate_stress=800.0)
    if topic == "crossing":
        return R.findcross(w.array, 0.5, kind=name)
    try:
        kw = {"plot_type": name} if topic == "picture" else {"mode": name}
        fig = w.count.plot_histogram(**kw)
        fig = fig[0] if isinstance(fig, tuple) else fig
        return [np.sort(np.ravel(np.ma.filled(c.get_offsets(), np.nan)))
                for ax in fig.axes[:1] for c in ax.collections]
    finally:
        plt.close("all")


def table(w, analysis, columns, done, same):
    df = w.count.to_df()
    df = df.drop(columns=[c for c in COLUMNS if c not in columns])
    df._metadata = {"unit": w.count.unit, "name": "x"}
    if done:
        df[DONE[analysis]] = 1.0
    if analysis == "growth":
        return df.cg.calc_growth(w.slow if same else w.alien, w.bodies["plate"])
    if analysis == "miner":
        return df.miner.damage(w.life[1] if same else w.strange)
    return df.gassner.g(w.life[0])


def pair(w, route, n, m):
    from matplotlib import pyplot as plt
    from py_fatigue.cycle_count import histogram
    from py_fatigue.damage import stress_life as sl
    from py_fatigue.mean_stress import corrections
    from py_fatigue.utils import FatigueStress

    a, b = np.arange(1.0, n + 1), np.ones(m)
    kw = {"base_exponent": 0.5, "ultimate_stress": 800.0}
    if route == "damage":
        return sl.calc_pm(a, b, w.life[1])
    if route == "stress":
        return sl.calc_des(a, b, 3.0)
    if route == "moment":
        return sl.calc_dem(2.0, 1.0, a, b, 3.0)
    if route in ("pavlou", "leve", "manson"):
        return sl.calc_nonlinear_damage(route, a, b, w.life[1], **kw)
    if route == "histogram":
        h, e = histogram.make_histogram(a, b, bins=(np.arange(8.0), np.arange(4.0)))
        return [h] + list(e)
    if route == "picture":
        try:
            fig = w.life[0].plot(a * 1e5, b)
            return [np.asarray(x.get_xydata()) for x in fig[1].lines[-1:]]
        finally:
            plt.close("all")
    x = FatigueStress(_counts=b, _values=a, bin_width=1.0)
    return [x.full, x.half, x.bin_edges]


def factor(w, what, left):
    x = {"integer": 2, "number": 0.75, "text": "2", "none": None, "list": [2.0],
         "count": w.later, "complex": 2j, "dictionary": {}}[what]
    return x * w.count if left else w.count * x


def summand(w, what, left):
    x = {"count": w.later, "none": None, "zero": 0, "nan": math.nan, "one": 1, "text": "0",
         "list": [0.0], "dictionary": {}}[what]
    if what == "count":
        return w.count + w.later
    return x + w.count if left else w.count + x


def curve(_, kind, n, m):
    from py_fatigue import ParisCurve, SNCurve

    if kind == "life":
        return SNCurve(list(SLOPES[:n]), list(LIVES[:m]))
    return ParisCurve(list(RATES[:n]), list(GROWTHS[:m]))


def knees(w, kind, n, given):
    c = (w.life if kind in ("cycles", "stress") else w.growth)[n - 1]
    have = c.get_knee_cycles() if kind in ("cycles", "stress") else c.get_knee_sif()
    have = np.ravel(have).tolist()
    ks = (have + [1e7, 1e8, 1e9])[:given]
    fun = {"cycles": "get_knee_cycles", "stress": "get_knee_stress",
           "rate": "get_knee_growth_rate", "intensity": "get_knee_sif"}[kind]
    return getattr(c, fun)(ks)


def body(w, route, which, same):
    from py_fatigue.damage.crack_growth import get_crack_growth

    pc, geo = w.slow if same else w.alien, w.bodies[which]
    if route == "table":
        return w.count.to_df().cg.calc_growth(pc, geo)
    cg = get_crack_growth(w.count, pc, geo)
    return [np.asarray(cg.crack_depth), np.asarray(cg.sif), bool(cg.failure)]


def windows(w, holder, index, order):
    from py_fatigue.cycle_count.utils import aggregate_cc

    df = w.table.copy()
    if index == "numbers":
        df.index = range(len(df))
    elif index == "text":
        df.index = [str(t) for t in df.index]
    if order == "descending":
        df = df.iloc[::-1]
    elif order == "repeated":
        df.index = df.index[[0, 0]]
    x = {"table": df, "list": [df], "series": df["CC_x"]}[holder]
    return aggregate_cc(x, "all")


def curves(w, how, _):
    from py_fatigue.cycle_count.utils import calc_aggregated_damage

    sn = w.life[1]
    return calc_aggregated_damage(w.table, {
        "curve": sn, "list": [sn, w.life[0]], "dictionary": {"a": sn, "b": w.life[0]},
        "list with text": [sn, "curve"], "list with nothing": [None, sn]}[how])


def unit(w, route, one, two):
    from py_fatigue import CycleCount, SNCurve
    from py_fatigue.cycle_count.utils import calc_aggregated_damage
    from py_fatigue.damage import stress_life as sl

    make = lambda k, u: CycleCount.from_timeseries(
        w.array, timestamp=NOW + dt.timedelta(hours=k), unit=u, mean_bin_width=1, name="x")
    sn = SNCurve(3.0, 12.0, unit_string=two)
    c = make(0, one)
    if route == "damage":
        return sl.get_pm(c, sn)
    if route == "table":
        return c.to_df().miner.damage(sn)
    if route == "windows":
        df = w.table[["CC_x"]].copy()
        df["CC_x"] = [c, c]
        return calc_aggregated_damage(df, sn)
    if route == "nonlinear":
        return sl.get_nonlinear_damage("leve", c, sn, base_exponent=0.5)
    return c + make(1, two)


def tube(w, route, outer, inner):
    from py_fatigue.damage import stress_life as sl

    if route == "arrays":
        return sl.calc_dem(outer, inner, np.array([3.0, 1.0]), np.array([2.0, 5.0]), 3.0)
    if route == "count":
        return sl.get_dem(outer, inner, w.count, 3.0)
    return w.count.to_df().miner.dem(outer, inner, 3.0)


def figure(w, what, _):
    from matplotlib import pyplot as plt
    from py_fatigue.cycle_count import histogram
    from py_fatigue.utils import make_axes

    fig, ax = plt.subplots()
    try:
        args = {"none": (None, None), "figure": (fig, None), "axes": (fig, ax),
                "text": ("figure", None), "number": (3, None)}[what]
        got = [make_axes(*args), histogram.make_axes(*args)]
        for f, a in got:
            if what != "none" and f is not fig or what == "axes" and a is not ax:
                return "another figure"
        return [bool(f.axes) and a in f.axes for f, a in got]
    finally:
        plt.close("all")


ASK = {f.__name__: f for f in (signal, word, table, pair, factor, summand, curve, knees, body,
                               windows, curves, unit, tube, figure)}


def outcome(w, family, r):
    """(answered, answer or exception)"""
    with warnings.catch_warnings(), open(os.devnull, "w", encoding="utf-8") as null:
        warnings.simplefilter("ignore")
        with redirect_stdout(null):
            try:
                return True, plain(ASK[family](w, *r))
            except REFUSALS as exc:
                return False, f"{type(exc).__name__}: {exc}"


_fresh = {}


def fresh(family, r):
    """What objects never asked before answer."""
    key = repr((family, r))
    if key not in _fresh:
        _fresh[key] = outcome(World(), family, r)
    return _fresh[key]


def close(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(close, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or math.isclose(a, b, rel_tol=1e-12, abs_tol=1e-300)
    return a == b


_first = []


def world():
    """A fresh world and what it holds."""
    w = World()
    if not _first:
        _first.append(w.seen())
    return w, _first[0]


def replay_case(case):
    family, hist, out = case
    bad = Mismatch()
    w, before = world()
    for k, (r, refused) in enumerate(zip(hist, out)):
        what = f"{family} {list(hist[: k + 1])}"
        answered, got = outcome(w, family, r)
        if refused and answered:
            bad.append(f"{what}: answered {str(got)[:200]}, specification says refused")
        elif not refused and not answered:
            bad.append(f"{what}: refused ({got}), specification says answered")
        elif answered and not close(got, fresh(family, r)[1]):
            bad.append(f"{what}: {str(got)[:200]}, fresh objects {str(fresh(family, r))[:200]}")
    if not close(w.seen(), before):
        bad.append(f"{family} {list(hist)}: the objects asked have changed")
    return bad


# ------------------------------------------------------------ random traces


def random_request(rng, alphabet):
    family = rng.choice(sorted(alphabet))
    if family == "pair" and rng.random() < 0.8:
        n = rng.randint(1, 60)
        return family, (rng.choice(["damage", "stress", "moment", "pavlou", "leve", "manson",
                                    "ranges", "means", "histogram"]), n,
                        n if rng.random() < 0.5 else max(1, n + rng.randint(-3, 3)))
    if family == "tube" and rng.random() < 0.8:
        return family, (rng.choice(["arrays", "count", "table"]), rng.randint(1, 50),
                        rng.randint(0, 50))
    return family, rng.choice(alphabet[family])


def random_record(rng, alphabet):
    w, before = world()
    steps = []
    for _ in range(rng.randint(5, 25)):
        family, r = random_request(rng, alphabet)
        answered, got = outcome(w, family, r)
        came = "refused"
        if answered:
            came = "same" if close(got, fresh(family, r)[1]) else "another answer"
        steps.append({"f": family, "r": r, "came": came})
    return {"steps": steps, "after": "same" if close(w.seen(), before) else "changed"}


def corrupted(recs):
    wrong = []
    for a, b in (("refused", "same"), ("same", "refused"), ("same", "another answer")):
        c = copy.deepcopy(next(x for x in recs if any(s["came"] == a for s in x["steps"])))
        next(s for s in c["steps"] if s["came"] == a)["came"] = b
        wrong.append(c)
    wrong.append(dict(recs[0], after="changed"))
    return wrong


def frozen(x):
    if isinstance(x, tuple):
        return tuple(frozen(v) for v in x)
    return tuple(sorted(x)) if isinstance(x, (set, dict)) else x


def check(chk):
    cases, alphabet = [], {}
    for tier in ("quick",) if core.quick else ("quick", "thorough"):
        r = chk.explore("RequestsMC", f"RequestsMC_{tier}")
        names = ("family", "hist", "out")
        for st in core.read_dump(r.dump, names, raw=names):
            f, h, o = (frozen(core.tla_value(st[n])) for n in names)
            if len(h) == 1:
                alphabet.setdefault(f, []).append(h[0])
            if h:
                cases.append((f, h, o))
    alphabet = {f: sorted(set(v), key=repr) for f, v in alphabet.items()}
    # of the many signals and tables asked about after each other a part is enough
    rng = random.Random(core.SEED)
    many = [c for c in cases if c[0] in ("signal", "word", "pair") and len(c[1]) > 1]
    few = [c for c in cases if c[0] not in ("signal", "word", "pair") or len(c[1]) == 1]
    cases = few + (rng.sample(many, min(len(many), 3000)) if core.quick else many)
    chk.replay("requests", replay_case, cases, chunk=50)
    recs = chk.record("requests", lambda: random_record(chk.rng, alphabet),
                      60 if core.quick else 600)
    chk.validate("random-requests", "RequestsTrace", recs, lambda: corrupted(recs))
