"""Cycle counts of the specification (spec/CycleCounts.tla) as real objects:
building, operating on and comparing them.  Shared by C03-C06, C10 and C18."""

import datetime as dt
import warnings
import zlib
from fractions import Fraction

import numpy as np

import core
from adapt import Mismatch

# when the first count begins and how far apart counts are
CALENDARS = (
    (dt.datetime(2021, 3, 1, tzinfo=dt.timezone.utc), dt.timedelta(minutes=10)),
    (dt.datetime(2020, 12, 31, 23, 50), dt.timedelta(minutes=10)),
    (dt.datetime(2022, 2, 27, 1, tzinfo=dt.timezone(dt.timedelta(hours=2))),
     dt.timedelta(days=1)),
    (dt.datetime(1969, 12, 31, 23, 59, 59, tzinfo=dt.timezone.utc),
     dt.timedelta(milliseconds=250)),
    (dt.datetime(2019, 6, 1), dt.timedelta(days=45, microseconds=1)),
)
T0, STEP = CALENDARS[0]
ALL = ("rows", "res", "mm", "bins", "small", "times", "unit", "scf", "name", "solved", "corr")
META = ("small", "times", "unit", "scf", "name")


def calendar(key):
    """Choose the dates the counts of a case are given."""
    global T0, STEP  # pylint: disable=global-statement
    T0, STEP = CALENDARS[zlib.crc32(repr(key).encode()) % len(CALENDARS)]


def stamp(k):
    return T0 + k * STEP


def from_signal(sig, a):
    """Count a signal, with the bookkeeping of the abstract count a."""
    from py_fatigue import CycleCount

    return CycleCount.from_timeseries(
        np.array(sig, dtype=float), timestamp=stamp(a["ts"]),
        range_bin_lower_bound=float(a["rlb"]), range_bin_width=float(a["rbw"]),
        mean_bin_lower_bound=float(a["mlb"]), mean_bin_width=float(a["mbw"]),
        name=a["name"], unit=a["unit"],
    )


def dictionary(a, legacy=False):
    """The rainflow dictionary of an abstract count."""
    cells = [r for r in a["rows"] if r[2] > 2]
    large = [r for r in a["rows"] if r[2] == 2]
    half = [r for r in a["rows"] if r[2] == 1]
    d = {
        "range_bin_lower_bound": float(a["rlb"]), "range_bin_width": float(a["rbw"]),
        "nr_small_cycles": a["small"],
    }
    if a["res"]:
        d["res_sig"] = [float(v) for v in a["res"]]
    if legacy:
        hist = []
        for r in cells:
            k = index(r[0] / 10, a["rlb"], a["rbw"])
            hist += [0] * (k + 1 - len(hist))
            hist[k] += r[2] // 2
        d.update(hist=hist, lg_c=[r[0] / 10 for r in large], res=[r[0] / 10 for r in half])
        return d
    d.update(mean_bin_lower_bound=float(a["mlb"]), mean_bin_width=float(a["mbw"]))
    hist = []
    for r in cells:
        m, k = index(r[1] / 20, a["mlb"], a["mbw"]), index(r[0] / 10, a["rlb"], a["rbw"])
        hist += [[] for _ in range(m + 1 - len(hist))]
        hist[m] += [0] * (k + 1 - len(hist[m]))
        hist[m][k] += r[2] // 2
    d.update(hist=hist, lg_c=[[r[1] / 20, r[0] / 10] for r in large],
             res=[[r[1] / 20, r[0] / 10] for r in half])
    return d


def index(value, lower, width):
    k = Fraction(value) - Fraction(lower) - Fraction(width) / 2
    k = k / Fraction(width)
    if k.denominator != 1:
        raise core.MachineryError(f"{value} is not the centre of a bin {lower}+k*{width}")
    return int(k)


def from_dict(a, legacy=False):
    """Import an abstract count from a rainflow dictionary."""
    from py_fatigue import CycleCount

    return CycleCount.from_rainflow(
        dictionary(a, legacy), timestamp=stamp(a["ts"]), name=a["name"], unit=a["unit"],
        lffd_solved=a["solved"], mean_stress_corrected=a["corr"],
    )


def cycles(cc, u=1.0):
    """Entries as (10*range, 20*mean, 2*count) floats."""
    return [
        (10 * r / abs(u), 20 * m / u, 2 * c)
        for r, m, c in zip(
            np.asarray(cc.stress_range, dtype=float).tolist(),
            np.asarray(cc.mean_stress, dtype=float).tolist(),
            np.asarray(cc.count_cycle, dtype=float).tolist(),
        )
    ]


def floats(x):
    return [] if x is None else np.asarray(x, dtype=float).ravel().tolist()


def min_max(a):
    if not a["mm"] and len(a["res"]) >= 2:
        return [min(a["res"]), max(a["res"])]
    return list(a["mm"])


def times_of(cc):
    return [t for t in np.ravel(np.asarray(cc.time_sequence, dtype=object)).tolist()]


def near(x, y):
    return x == y or abs(x - y) <= 1e-9 + 1e-9 * abs(y)


def same_rows(got, want):
    return len(got) == len(want) and all(
        all(near(g, w) for g, w in zip(x, y)) for x, y in zip(got, want)
    )


def bag(rows):
    return sorted(rows, key=lambda r: tuple(round(v, 6) for v in r))


def compare(bad, what, cc, a, clauses=ALL, u=1.0):
    """Compare a real count, in units of u, with an abstract one."""
    if "rows" in clauses:
        got, want = bag(cycles(cc, u)), bag(a["rows"])
        if not same_rows(got, want):
            bad.append(f"{what}: cycles (10*range, 20*mean, 2*count) {got}, "
                       f"specification says {want}")
    if "res" in clauses:
        bad.seq(f"{what}: residuals", [v / u for v in floats(cc.residuals_sequence)],
                a["res"])
    if "mm" in clauses:
        bad.seq(f"{what}: min/max sequence", floats(cc.min_max_sequence), min_max(a))
    if "bins" in clauses:
        bad.seq(f"{what}: bins (range lower bound, width, mean lower bound, width)",
                [cc.range_bin_lower_bound, cc.range_bin_width,
                 cc.mean_bin_lower_bound, cc.mean_bin_width],
                [a["rlb"], a["rbw"], a["mlb"], a["mbw"]])
    if "small" in clauses:
        bad.eq(f"{what}: small cycles", cc.nr_small_cycles, a["small"])
    if "times" in clauses:
        bad.eq(f"{what}: time stamp", cc.timestamp, stamp(a["ts"]))
        bad.eq(f"{what}: time sequence", times_of(cc), [stamp(k) for k in sorted(a["times"])])
    if "unit" in clauses:
        bad.eq(f"{what}: unit", cc.unit, a["unit"])
    if "scf" in clauses and a["scf"] >= 0:
        bad.close(f"{what}: stress factor", cc.stress_concentration_factor, a["scf"] / a["den"])
    if "name" in clauses:
        name, by = named(cc)
        bad.eq(f"{what}: name", name, a["name"])
        bad.eq(f"{what}: factors in the name", by, [list(f) for f in a["by"]])
    if "solved" in clauses:
        bad.eq(f"{what}: resolved", bool(cc.lffd_solved), a["solved"])
    if "corr" in clauses and a["corr"] != "?":
        label = str(cc.mean_stress_corrected)
        ok = {
            "No": label == "No",
            "own": label == "own",
            "DNV8": "DNVGL-RP-C203" in label and "0.8" in label,
            "DNV6": "DNVGL-RP-C203" in label and "0.6" in label,
        }[a["corr"]]
        if not ok:
            bad.append(f"{what}: correction label {label!r}, specification says {a['corr']}")


# ------------------------------------------------------------- histories

# How the initial counts of CountsMC are made; what they have to be is in the
# dumped states.
SA = (0, 16, -8, 24, -16)
SB = (8, -32, 16, 0, 8, 40)
SC = (16, 32, 8, 24, -24, -8, -40)
SD = (-16, -32, -24, -48, -8)
SE = (8, 16)
ORIGIN = {
    1: (SA, SB, SC),
    2: ("dict", "dict", SD),
    3: (SB, SB, SA),
    4: ("legacy", "legacy", SE),
    5: ("dict", "dict", "dict"),
}


def build(origin, a):
    if origin == "dict":
        return from_dict(a)
    if origin == "legacy":
        return from_dict(a, legacy=True)
    return from_signal(origin, a)


def apply(pool, op):
    """Perform one operation of a history on the real counts."""
    kind, x = op[0], pool[op[1] - 1]
    if kind == "add":
        return x + pool[op[2] - 1]
    if kind == "mul":
        f = op[2] / op[3]
        if op[3] == 1 and op[1] % 2:
            f = int(op[2])
        return f * x if (op[1] + len(pool)) % 2 else x * f
    if kind == "solve":
        if op[2] == "res":
            k = (op[1] + len(pool)) % 4
            if k < 2:
                return x.resolve_residuals() if k else x.solve_lffd()
            return x.solve_lffd(solve_mode=("residuals", "Residuals")[k - 2])
        modes = ("min-max", "min/max", "min max", "Min-Max")
        return x.solve_lffd(solve_mode=modes[(op[1] + len(pool)) % 4])
    return x.mean_stress_correction(
        detail_factor=op[2] / 5, enforce_pulsating_load=op[3]
    )


ERROR = {"add": TypeError, "correct": ValueError}


def histories(chk, module="CountsMC"):
    """All maximal histories of the explored model."""
    r = chk.explore(module, f"{module}_{core.TIER}")
    states, prefixes = {}, set()
    for st in core.read_dump(r.dump, raw=("pool",)):
        key = (st["cfg"], st["hist"])
        states[key] = st
        if st["hist"]:
            prefixes.add((st["cfg"], st["hist"][:-1]))
    res = [states[k] for k in sorted(states, key=str) if k not in prefixes]
    chk.extra["histories"] = len(res)
    return res


def abstract(st):
    """The abstract counts of a state."""
    return core.tla_value(st["pool"])


class Replay:
    """Replays a history, comparing results of the given operations on the
    given clauses at once and again after the whole history."""

    def __init__(self, per_op, after=(), on_op=None):
        self.per_op, self.after, self.on_op = per_op, after, on_op

    def __call__(self, st):
        bad = Mismatch()
        spec, hist = abstract(st), st["hist"]
        n0 = len(ORIGIN[st["cfg"]])
        calendar((st["cfg"], hist))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pool = [build(o, a) for o, a in zip(ORIGIN[st["cfg"]], spec)]
            for i in range(n0):
                compare(bad, f"initial count {i + 1}", pool[i], spec[i],
                        self.per_op.get("init", ()))
            if bad:
                return bad
            for k, op in enumerate(hist):
                what = f"after {list(hist[: k + 1])}"
                refused = st["stop"] and k == len(hist) - 1
                if refused:
                    if op[0] in self.per_op:
                        bad.raises(what, ERROR[op[0]], lambda o=op: apply(pool, o))
                    break
                new = apply(pool, op)
                a = spec[n0 + k]
                compare(bad, what, new, a, self.per_op.get(op[0], ()))
                if self.on_op:
                    self.on_op(bad, what, pool, op, new, a)
                pool.append(new)
                if bad:
                    return bad
            for i, cc in enumerate(pool):
                compare(bad, f"count {i + 1} after the whole history {list(hist)}",
                        cc, spec[i], self.after)
        return bad


# ------------------------------------------------- random counts and traces


def as_int(x, what=""):
    """Nearest integer, or an impossible value if there is none near."""
    if x != x or abs(x) > 2**30 or abs(x - round(x)) > 1e-6 * max(1.0, abs(x)):
        return 2**30
    return int(round(x))


def named(cc):
    """The name a count was given and the factors appended to it."""
    name, *by = str(cc.name).split(", SCF=")
    return name, [fraction(x) for x in by]


def fraction(txt):
    try:
        f = Fraction(txt)
    except ValueError:
        return txt
    return [f.numerator, f.denominator]


def record(cc, times):
    """A real count as an abstract record (JSON)."""
    label = str(cc.mean_stress_corrected)
    if "DNVGL-RP-C203" in label:
        label = "DNV8" if "0.8" in label else "DNV6" if "0.6" in label else label
    scf = Fraction(float(cc.stress_concentration_factor)).limit_denominator(4096)
    name, by = named(cc)
    return {
        "rows": [[as_int(v) for v in r] for r in cycles(cc)],
        "res": [as_int(v) for v in floats(cc.residuals_sequence)],
        "mm": [as_int(v) for v in floats(cc.min_max_sequence)],
        "rlb": as_int(cc.range_bin_lower_bound), "rbw": as_int(cc.range_bin_width),
        "mlb": as_int(cc.mean_bin_lower_bound), "mbw": as_int(cc.mean_bin_width),
        "small": as_int(cc.nr_small_cycles), "solved": bool(cc.lffd_solved),
        "corr": label, "scf": scf.numerator, "den": scf.denominator, "unit": str(cc.unit),
        "ts": times.get(cc.timestamp, -1),
        "times": [times.get(t, -1) for t in times_of(cc)],
        "name": name, "by": by,
    }
