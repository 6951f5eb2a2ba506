"""C25: calls depend on what they are given, not on the past or on the form of
numbers, and leave what they are given alone."""

import copy
import datetime as dt
import warnings

import numpy as np
import pandas as pd

import core
import crack
from adapt import Mismatch

T0 = dt.datetime(2021, 1, 1, tzinfo=dt.timezone.utc)
SIGNAL = [0, 5, -3, 4, -4, 2, 1, 7, -6, 0, 0, 3, -2, 30000, -30000, 20000, 1]
TURNS = [0, 5, -3, 4, -4, 2, 1, 70, -60, 30, 30000, -29999, 20000]
POSITIVE = [7, 60000, 3, 40000, 40000, 5, 50000, 0, 9]
RANGES, CYCLES, MEANS = [30, 55, 12, 70, 20, 55], [1, 2, 1, 3, 1, 9], [10, -20, 0, 45, -60, 3]


# ----------------------------------------------------------------- the forms


def readonly(xs):
    a = np.array(xs, float)
    a.setflags(write=False)
    return a


def strided(xs):
    a = np.full(3 * len(xs), 7.0)
    a[::3] = xs
    return a[::3]


ARRAYS = [
    ("float array", lambda xs: np.array(xs, float)),
    ("read-only array", readonly),
    ("strided array", strided),
    ("reversed array", lambda xs: np.array(xs[::-1], float)[::-1]),
    ("int64 array", lambda xs: np.array(xs, np.int64)),
    ("int32 array", lambda xs: np.array(xs, np.int32)),
    ("float32 array", lambda xs: np.array(xs, np.float32)),
]
LIST = [("list", list), ("list of floats", lambda xs: [float(x) for x in xs])]
SMALL = [("int16 array", lambda xs: np.array(xs, np.int16))]
UNSIGNED = [("uint16 array", lambda xs: np.array(xs, np.uint16)),
            ("uint64 array", lambda xs: np.array(xs, np.uint64))]
TUPLE = [("tuple", tuple)]
SERIES = [("series", lambda xs: pd.Series(xs, dtype=float)),
          ("series with other labels",
           lambda xs: pd.Series(xs, dtype=float, index=range(5, 5 + len(xs)))),
          ("integer series", lambda xs: pd.Series(xs, index=[f"k{i}" for i in range(len(xs))]))]
ANY = ARRAYS + LIST + SMALL + TUPLE + SERIES
MANY = 16


# ------------------------------------------------------------ shared objects


class World:
    """What calls share, made in the same way every time."""

    def __init__(self):
        from py_fatigue import CycleCount, ParisCurve, SNCurve
        from py_fatigue.geometry import HollowCylinder, InfiniteSurface

        make = lambda sig, k: CycleCount.from_timeseries(
            np.array(sig, float), timestamp=T0 + dt.timedelta(hours=k), name="s",
            range_bin_lower_bound=0.5, range_bin_width=1.0, mean_bin_width=5.0)
        self.signal = np.array([0.0, 50.0, -30.0, 40.0, -40.0, 20.0, 10.0, 70.0, -60.0, 5.0])
        self.times = np.arange(len(self.signal)) * 0.5
        self.a = make(self.signal, 0)
        self.b = make(self.signal[::-1] * 0.5 + 3, 1)
        self.c = make([1.0, 90.0, -20.0, 30.0, 5.0, 60.0], 2)
        self.half = make([0.0, 8.0, -9.0], 3)
        self.dict = self.c.as_dict()
        self.sn = SNCurve([3.0, 5.0], [11.0, 14.0], endurance=1e9, unit_string="MPa",
                          curve="D", norm="N", environment="air", color="#123456")
        self.sn1 = SNCurve(3.0, 11.0, unit_string="MPa")
        self.pc = ParisCurve([3.0, 2.0], [1e-9, 1e-8], threshold=2.0, critical=5e4,
                             unit_string="MPa √mm", color="#654321")
        self.wall = HollowCylinder(initial_depth=2.0, outer_diameter=400.0, thickness=30.0,
                                   height=10.0, crack_position="external")
        self.flat = InfiniteSurface(initial_depth=2.0)
        self.list = [self.a, None, self.b, self.c]
        self.table = pd.DataFrame(
            {"CC_x": [self.a, self.b, self.c], "v": [1.0, 2.0, 6.0]},
            index=pd.DatetimeIndex([T0.replace(tzinfo=None) + dt.timedelta(hours=k)
                                    for k in range(3)]))

    def seen(self):
        """Everything that can be seen of the shared objects."""
        return plain([
            self.signal, self.times, self.a, self.b, self.c, self.half, self.dict, self.sn,
            self.sn1, self.pc, [str(self.wall), self.wall.thickness, self.wall.initial_depth],
            str(self.flat), [None if x is None else id(x) for x in self.list],
            [list(self.table.columns), self.table.index.tolist(), self.table["v"].tolist()],
            [id(x) for x in self.table["CC_x"]]])


def plain(x):
    """Nested lists of numbers and texts."""
    from py_fatigue import CycleCount, ParisCurve, SNCurve

    if isinstance(x, CycleCount):
        return plain([x.stress_range, x.mean_stress, x.count_cycle, x.residuals_sequence,
                      x.min_max_sequence, x.range_bin_lower_bound, x.range_bin_width,
                      x.mean_bin_lower_bound, x.mean_bin_width, x.nr_small_cycles, x.unit,
                      str(x.name), bool(x.lffd_solved), str(x.mean_stress_corrected),
                      x.stress_concentration_factor, x.timestamp, np.ravel(x.time_sequence)])
    if isinstance(x, SNCurve):
        return plain([x.slope, x.intercept, x.endurance, x.unit, x.color, str(x.name),
                      x.get_cycles(np.array([1.0, 30.0, 700.0]))])
    if isinstance(x, ParisCurve):
        return plain([x.slope, x.intercept, x.threshold, x.critical, x.unit, x.color, str(x.name),
                      x.get_growth_rate(np.array([1.0, 30.0, 700.0]))])
    if isinstance(x, pd.DataFrame):
        return [[str(c) for c in x.columns], [plain(x[c].tolist()) for c in x.columns],
                [str(i) for i in x.index]]
    if isinstance(x, (pd.Series, np.ndarray)):
        return plain(x.tolist())
    if isinstance(x, dict):
        return [[str(k), plain(v)] for k, v in sorted(x.items(), key=lambda p: str(p[0]))]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return float(x)
    return str(x)


def same(x, y, tol):
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(same(a, b, tol) for a, b in zip(x, y))
    if isinstance(x, float) and isinstance(y, float):
        return x == y or (x != x and y != y) or abs(x - y) <= tol * max(abs(x), abs(y)) + 1e-12
    return x == y


# ------------------------------------------------------------ the operations


def growth(w, geo, fast=False):
    from py_fatigue.damage.crack_growth import get_crack_growth

    g = get_crack_growth(w.c, w.pc, geo, express_mode=fast)
    return [g.crack_depth, g.sif, g.geometry_factor, g.final_cycles, bool(g.failure)]


def drawn(plot):
    import matplotlib.pyplot as plt

    fig, ax = plt.subplots()
    try:
        plot(fig, ax)
        return [[ln.get_xydata() for ln in ax.lines],
                [np.asarray(c.get_offsets()) for c in ax.collections]]
    finally:
        plt.close(fig)


def aggregated(w):
    from py_fatigue.cycle_count.utils import aggregate_cc, calc_aggregated_damage

    agg, res = aggregate_cc(w.table, "2h", save_residuals=True)
    return [agg, plain(calc_aggregated_damage(agg, {"d": w.sn})), plain(res)]


def read(w):
    """Import of a dictionary, which may be used up."""
    from py_fatigue import CycleCount

    return CycleCount.from_rainflow(copy.deepcopy(w.dict), timestamp=T0, name="r")


def own():
    from py_fatigue import CycleCount, ParisCurve, SNCurve
    from py_fatigue.cycle_count import calc_rainflow, pbar_sum
    from py_fatigue.cycle_count.histogram import binned_rainflow
    from py_fatigue.damage import stress_life as sl
    from py_fatigue.testing import get_random_data, get_sampled_time

    return [
        ("rainflow with times", lambda w: calc_rainflow(w.signal, w.times)),
        ("count of a signal", lambda w: CycleCount.from_timeseries(
            w.signal, time=w.times, timestamp=T0, name="n")),
        ("binned rainflow", lambda w: binned_rainflow(w.signal, w.times)),
        ("import", read),
        ("addition", lambda w: w.a + w.b),
        ("addition to nothing", lambda w: [w.a + None, 0 + w.b, sum([w.a])]),
        ("bulk sum", lambda w: pbar_sum(w.list)),
        ("sum", lambda w: sum([w.a, w.b, w.c])),
        ("scaling", lambda w: [w.a * 2.5, 0.5 * w.b]),
        ("solving", lambda w: (w.a + w.b).solve_lffd()),
        ("solving a single count", lambda w: w.c.solve_lffd()),
        ("correction DNV", lambda w: w.a.mean_stress_correction(detail_factor=0.6)),
        ("correction Walker", lambda w: w.b.mean_stress_correction(
            correction_type="walker", gamma=0.7)),
        ("export", lambda w: [w.a.as_dict(), w.half.as_dict(),
                              w.c.as_dict(damage_tolerance_for_binning=1e-3)]),
        ("table", lambda w: w.a.to_df()),
        ("views", lambda w: [w.c.stress_amplitude, w.c.min_stress, w.c.max_stress,
                             w.c.full_cycles, w.c.half_cycles, w.c.residuals, w.c.bin_edges,
                             w.c.bin_centers, w.c.statistical_moments]),
        ("summary", lambda w: [str(w.a), w.a._repr_html_(), str(w.sn), str(w.pc)]),
        ("comparisons", lambda w: [w.a == w.b, w.a == w.a, w.sn == w.sn1, w.pc == w.pc]),
        ("Miner damage", lambda w: [sl.get_pm(w.a, w.sn), w.a.to_df().miner.damage(w.sn)]),
        ("equivalent stress", lambda w: [sl.get_des(w.a, 3.0), w.a.to_df().miner.des(3.0),
                                         sl.get_dem(40.0, 36.0, w.a, 3.0)]),
        ("Gassner shift", lambda w: w.a.to_df().gassner.g(w.sn1)),
        ("nonlinear damage", lambda w: [sl.get_nonlinear_damage(r, w.c, w.sn)
                                        for r in ("leve", "manson", "pavlou", "si jian")]),
        ("growth on a surface", lambda w: growth(w, w.flat)),
        ("growth on a cylinder", lambda w: growth(w, w.wall)),
        ("fast growth", lambda w: growth(w, w.flat, True)),
        ("growth of a table", lambda w: w.c.to_df().cg.calc_growth(w.pc, w.wall)),
        ("aggregation", aggregated),
        ("histogram plots", lambda w: drawn(lambda f, x: (
            w.a.plot_histogram(fig=f, ax=x, plot_type="mean-range", mode="mountain"),
            w.a.plot_histogram(fig=f, ax=x, plot_type="counts-range")))),
        ("residual plot", lambda w: drawn(lambda f, x: w.b.plot_residuals_sequence(fig=f, ax=x))),
        ("curve plots", lambda w: drawn(lambda f, x: (w.sn.plot(fig=f, ax=x),
                                                      w.pc.plot(fig=f, ax=x)))),
        ("new curves", lambda w: [SNCurve([3.0, 5.0], [11.0, 14.0], color="#111111"),
                                  ParisCurve(3.0, 1e-9, color="#222222")]),
        ("random data", lambda w: get_random_data(get_sampled_time(10, 10), seed=5)),
    ]


def numeric(w):
    """Operations on numbers, with the forms they take."""
    from py_fatigue import CycleCount, ParisCurve, SNCurve
    from py_fatigue.cycle_count import calc_rainflow
    from py_fatigue.cycle_count import rainflow as rf
    from py_fatigue.cycle_count.histogram import binned_rainflow
    from py_fatigue.cycle_count import histogram as ht
    import py_fatigue.utils as pfu
    from py_fatigue.damage import stress_life as sl
    from py_fatigue.mean_stress import corrections as msc

    signals = ARRAYS + LIST + SMALL
    whole = ARRAYS + LIST + UNSIGNED
    stamped = lambda x: CycleCount.from_timeseries(x, timestamp=T0)
    scaled = lambda x: stamped(x) * 1.1
    solved = lambda x: (stamped(x) + stamped(x) * 3).solve_lffd()
    res = [
        ("turning points", signals, lambda x: rf.findtp(x), (SIGNAL,)),
        ("extrema", whole, lambda x: rf.findextrema(x), (POSITIVE,)),
        ("crossings", signals, lambda x: [rf.findcross(x, 1.5), rf.findcross(x, 3, "u")], (SIGNAL,)),
        ("crossings of positive ones", whole, lambda x: rf.findcross(x, 39000.5), (POSITIVE,)),
        ("rainflow", signals, lambda x: calc_rainflow(x), (SIGNAL,)),
        ("rainflow of positive ones", whole, lambda x: calc_rainflow(x), (POSITIVE,)),
        ("rainflow over times", ARRAYS + LIST, lambda x, t: calc_rainflow(x, t),
         (SIGNAL, list(range(3, 3 + len(SIGNAL))))),
        ("binned rainflow", signals, lambda x: binned_rainflow(
            x, range_bin_width=900.0, range_bin_lower_bound=0.5, mean_bin_width=1000.0), (SIGNAL,)),
        ("count", signals, stamped, (SIGNAL,)),
        ("scaled count", whole, scaled, (POSITIVE,)),
        ("solved count", signals, solved, (SIGNAL,)),
        ("rainflow of turning points", ARRAYS + LIST, lambda x: rf.findrfc_astm(x), (TURNS,)),
        ("rainflow of turning points over times", ARRAYS, lambda x, t: rf.findrfc_astm(x, t),
         (TURNS, list(range(3, 3 + len(TURNS))))),
        ("SWT", ARRAYS + SMALL + SERIES, lambda m, a: msc.swt_mean_stress_correction(m, a),
         (MEANS, RANGES)),
        ("histogram", ARRAYS + LIST, lambda x, y: ht.make_histogram(x, y, bins=(3, 4)),
         (MEANS, RANGES)),
        ("split", [("number", lambda xs: xs[0])], lambda a, b: list(pfu.split(a, b)), ([20], [7])),
        ("DNV", ARRAYS + SMALL + SERIES, lambda m, a: msc.dnvgl_mean_stress_correction(m, a, 0.8),
         (MEANS, RANGES)),
        ("Walker", ARRAYS + SMALL + SERIES, lambda m, a: msc.walker_mean_stress_correction(m, a, 0.3),
         (MEANS, RANGES)),
        ("cycles to failure", ANY, w.sn.get_cycles, (RANGES,)),
        ("stress at failure", ANY, w.sn.get_stress, (CYCLES,)),
        ("growth rates", ANY, w.pc.get_growth_rate, (RANGES,)),
        ("intensities", ANY, w.pc.get_sif, (CYCLES,)),
        ("Miner", ANY, lambda s, n: sl.calc_pm(s, n, w.sn), (RANGES, CYCLES)),
        ("DES", ANY, lambda s, n: sl.calc_des(s, n, 4.0), (RANGES, CYCLES)),
        ("DEM", ANY, lambda s, n: sl.calc_dem(40.0, 36.0, s, n, 4.0), (RANGES, CYCLES)),
        ("new SN curve", ARRAYS + LIST + SMALL + TUPLE, lambda m, a: SNCurve(m, a, color="k"),
         ([3, 5], [11, 14])),
        ("new Paris curve", ARRAYS + LIST + SMALL + TUPLE, lambda m, a: ParisCurve(m, a, color="k"),
         ([3, 2], [1, 9])),
    ]
    for rule in ("leve", "manson", "pavlou", "si jian"):
        res.append((rule, ANY, lambda s, n, rule=rule: sl.calc_nonlinear_damage(rule, s, n, w.sn),
                    (RANGES, CYCLES)))
    return res


# ------------------------------------------------------------------ running


OWN, NUMERIC = 32, 31  # as in spec/CallsMC_*.cfg


class Run:
    """A world and the calls made on it."""

    def __init__(self):
        self.world = World()
        self.ops, self.nums = own(), numeric(self.world)
        if (len(self.ops), len(self.nums)) != (OWN, NUMERIC):
            raise core.MachineryError(f"{len(self.ops)} and {len(self.nums)} operations")
        self.first = self.world.seen()

    def name(self, op, form):
        if op <= OWN:
            return self.ops[op - 1][0]
        name, forms = self.nums[op - OWN - 1][:2]
        return f"{name} of a {forms[form % len(forms)][0]}"

    def call(self, op, form):
        """Returns value, tolerance, and what has changed in the world."""
        changed = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if op <= OWN:
                tol, value = 1e-12, plain(self.ops[op - 1][1](self.world))
            else:
                _, forms, fun, data = self.nums[op - OWN - 1]
                kind, make = forms[form % len(forms)]
                # NumPy computes with narrow numbers in single precision.
                tol = 2e-4 if kind in ("float32 array", "int16 array") else 1e-9
                args = [make(x) for x in data]
                before = copy.deepcopy(args)
                value = plain(fun(*args))
                for x, y in zip(args, before):
                    if type(x) is not type(y) or plain(x) != plain(y) or (
                            hasattr(x, "dtype") and x.dtype != y.dtype):
                        changed.append(f"argument {y} became {x}")
        now = self.world.seen()
        if now != self.first:
            changed.append("shared objects: " + next(
                f"{x} became {y}" for x, y in zip(self.first, now) if x != y)[:300])
        return value, tol, changed


VALUES = {}


def settle(chk):
    """The value of every operation by itself, once in every form."""
    for op in range(1, OWN + NUMERIC + 1):
        run = Run()
        for form in range(1 if op <= OWN else len(run.nums[op - OWN - 1][1])):
            bad = Mismatch()
            try:
                with crack.quiet():
                    value, tol, changed = run.call(op, form)
            except Exception as exc:  # pylint: disable=broad-except
                bad.append(f"{type(exc).__name__}: {exc}")
            else:
                if not same(value, VALUES.setdefault(op, value), tol):
                    bad.append(f"{str(value)[:300]}, otherwise {str(VALUES[op])[:300]}")
                bad.extend(changed)
            if bad:
                chk.fail("settle", run.name(op, form), bad)
                return False
    return True


def replay_case(calls):
    bad = Mismatch()
    run = Run()
    for k, (op, form) in enumerate(calls):
        try:
            value, tol, changed = run.call(op, form)
        except Exception as exc:  # pylint: disable=broad-except
            bad.append(f"{run.name(op, form)} as call {k + 1}: {type(exc).__name__}: {exc}")
            break
        if not same(value, VALUES[op], tol):
            bad.append(f"{run.name(op, form)} after {[run.name(*c) for c in calls[:k]]}: "
                       f"{str(value)[:300]}, alone {str(VALUES[op])[:300]}")
        for c in changed:
            bad.append(f"{run.name(op, form)}: {c}")
        if bad:
            break
    return bad


def random_record(rng, n):
    run, calls = Run(), []
    for _ in range(n):
        op, form = rng.randint(1, OWN + NUMERIC), rng.randrange(MANY)
        value, tol, changed = run.call(op, form)
        calls.append({"op": op, "form": form, "world": len(changed),
                      "value": op if same(value, VALUES[op], tol) else -len(calls) - 1})
    return {"calls": calls}


def check(chk):
    if not settle(chk):
        return
    r = chk.explore("CallsMC", f"CallsMC_{core.TIER}")
    cases = [tuple((c["op"], c["form"]) for c in st["calls"]) for st in core.read_dump(r.dump)]
    chk.replay("calls", replay_case, cases, chunk=50)
    with crack.quiet():
        recs = chk.record("histories", lambda: random_record(chk.rng, 60),
                          12 if core.quick else 150)

    def corrupt():
        wrong = []
        for change in (lambda c: c.update(value=-1), lambda c: c.update(world=1),
                       lambda c: c.update(value=c["value"] % OWN + 1)):
            c = copy.deepcopy(recs[len(wrong)])
            change(c["calls"][7])
            wrong.append(c)
        return wrong

    chk.validate("histories", "CallsTrace", recs, corrupt)
