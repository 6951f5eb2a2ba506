"""C18: aggregation over time windows."""

import copy
import datetime as dt
import re
import warnings
import zlib
from fractions import Fraction

import numpy as np
import pandas as pd

import core
import counts
import crack
import damage
import rf
from adapt import Mismatch

T0 = dt.datetime(2021, 2, 1, tzinfo=dt.timezone.utc)
WIDTHS = (0, 60, 120, 1440)  # as in spec/AggregationMC.tla
SIGNALS = (None, (0, 5, 2, 7, 3), (4, 1, 8, 0, 6, 2), (3, 9))
NAMES = {0: ("all", "ALL", "All"), 30: ("30min",), 60: ("h", "1h", "60min"),
         120: ("2h", "120min"), 360: ("6h",), 1440: ("D", "24h", "1D")}
CURVES = (damage.TABLE[2], damage.TABLE[3])


def stamp(t):
    return T0 + dt.timedelta(minutes=t)


def index(ts, zone=None):
    return pd.DatetimeIndex([stamp(t).replace(tzinfo=None) for t in ts]).tz_localize(zone)


def key_of(label, w):
    """The window a label of the aggregated table stands for."""
    if w == 0:
        return 0
    start = label.start_time.to_pydatetime().replace(tzinfo=dt.timezone.utc)
    return (start - T0) // dt.timedelta(minutes=w)


def count(sig, t):
    from py_fatigue import CycleCount

    return CycleCount.from_timeseries(
        np.array(sig, float), timestamp=stamp(t), range_bin_lower_bound=1.0,
        range_bin_width=1.0, mean_bin_lower_bound=-50.0, mean_bin_width=1.0, name="s",
        unit="MPa")


def curves(how):
    """The curves of the model: as a list without names, with the same name,
    or as dictionaries."""
    sn = [damage.curve(*c, 1.0) for c in CURVES]
    return (sn, {"a": sn[0], "b": sn[1]}, dict(zip("xy", sn)))[how % 3]


def damages(agg, how):
    """Damage by curve and column."""
    from py_fatigue.cycle_count.utils import calc_aggregated_damage

    got = calc_aggregated_damage(agg, curves(how))
    n = len(agg)
    said = [(tuple(float(x) for x in re.findall(r"[0-9.]+", str(name))), when)
            for name, when in got.index]
    if said != [(tuple(float(m) for m, _ in c[0]), when) for c in CURVES for when in agg.index]:
        raise AssertionError(f"damages of other curves or windows: {list(got.index)}")
    return {c: [got[c].tolist()[:n], got[c].tolist()[n:]] for c in got.columns}


def compare_count(bad, what, cc, a):
    from py_fatigue import CycleCount

    if "ts" not in a:
        bad.eq(f"{what}: a count", isinstance(cc, CycleCount), False)
        return
    got, want = counts.bag(counts.cycles(cc)), counts.bag(a["rows"])
    if not counts.same_rows(got, want):
        bad.append(f"{what}: cycles (10*range, 20*mean, 2*count) {got}, "
                   f"specification says {want}")
    bad.seq(f"{what}: residuals", counts.floats(cc.residuals_sequence), a["res"])
    bad.eq(f"{what}: resolved", bool(cc.lffd_solved), a["solved"])
    bad.eq(f"{what}: times", counts.times_of(cc), [stamp(t) for t in sorted(a["times"])])
    bad.eq(f"{what}: unit", cc.unit, a["unit"])
    counts.compare(bad, what, cc, a, ("bins", "small", "mm"))


def replay_case(txt):
    from py_fatigue.cycle_count.utils import aggregate_cc

    tab, sigs, out = (core.tla_value(x) for x in txt)
    bad = Mismatch()
    h = zlib.crc32(repr((core.SEED, txt[0])).encode())
    missing = (None, np.nan)[h % 2]
    ts = [r["t"] for r in tab]
    ccs = [missing if s == 0 else count(SIGNALS[s], t) for s, t in zip(sigs, ts)]
    vals = [np.nan if r["v"] == -1 else float(r["v"]) for r in tab]
    zone = (None, None, "UTC", "Asia/Tokyo")[h // 16 % 4]
    df = pd.DataFrame({"CC_x": pd.Series(ccs, dtype=object, index=index(ts, zone)),
                       "wind": vals})
    if h // 2 % 2:
        df[7] = 2.0
    before = [None if s == 0 else counts.cycles(c) for s, c in zip(sigs, ccs)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for w, want in zip(WIDTHS, out):
            by = NAMES[w][h // 4 % len(NAMES[w])]
            what = f"rows at {ts} of signals {list(sigs)} by {by}"
            agg, res = aggregate_cc(df, by, save_residuals=True)
            bad.eq(f"{what}: windows", [key_of(x, w) for x in agg.index],
                   [x["key"] for x in want])
            if bad:
                break
            for got, win in zip(agg["CC_x"], want):
                compare_count(bad, f"{what}: window {win['key']}", got, win["cc"])
            bad.seq(f"{what}: means", agg["wind"],
                    [x["mean"][0] / x["mean"][1] if x["mean"][1] else np.nan for x in want])
            bad.seq(f"{what}: saved residuals", res["CC_x"]["res"],
                    [v for x in want for v in x["res"]])
            steps = np.diff(res["CC_x"]["idx"])
            bad.eq(f"{what}: saved positions", len(res["CC_x"]["idx"]), len(res["CC_x"]["res"]))
            bad.eq(f"{what}: saved positions in order", bool(np.all(steps >= 0)), True)
            base = [2 * c[0][-1][1] for c in CURVES]
            d = damages(agg, h)["CC_x"]
            for j in range(2):
                bad.seq(f"{what}: damage on curve {j}", d[j],
                        [x["dmg"][j] / base[j] for x in want], rtol=1e-8)
            plain = aggregate_cc(df, by)
            if isinstance(plain, tuple):
                bad.append(f"{what}: residuals although not asked for")
            if bad:
                break
    for b, c in zip(before, ccs):
        if b is not None:
            bad.eq("counts of the table afterwards", counts.cycles(c), b)
    return bad


def calendar_case(fast):
    """Weeks, months and years, or seconds."""
    from py_fatigue.cycle_count.utils import aggregate_cc

    bad = Mismatch()
    days = [0, 3, 6, 7, 26, 27, 28, 40, 330, 333, 334]  # from 1 February 2021, a Monday
    if fast:
        days = [ms / 86400000 for ms in (0, 1, 250, 999, 1000, 2500, 2999, 4000, 5500)]
    ccs = [count(SIGNALS[1 + k % 3], 1440 * d) for k, d in enumerate(days)]
    df = pd.DataFrame({"CC_x": ccs, "v": [float(d) for d in days]},
                      index=index([1440 * d for d in days]))
    date = [T0 + dt.timedelta(days=d) for d in days]
    keys = {"W": lambda t: t.isocalendar()[:2], "M": lambda t: (t.year, t.month),
            "Y": lambda t: t.year, "Q": lambda t: (t.year, (t.month - 1) // 3)}
    if fast:
        keys = {"S": lambda t: t.second, "2S": lambda t: t.second // 2, "T": lambda t: 0}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for by, key in keys.items():
            groups = {}
            for t, c, d in zip(date, ccs, days):
                groups.setdefault(key(t), []).append((c, d))
            agg = aggregate_cc(df, by)
            bad.eq(f"by {by}: windows", len(agg), len(groups))
            for got, mean, g in zip(agg["CC_x"], agg["v"], groups.values()):
                want = g[0][0]
                for c, _ in g[1:]:
                    want = want + c
                if len(g) > 1:
                    want = want.solve_lffd()
                bad.close(f"by {by}: mean", mean, sum(d for _, d in g) / len(g))
                bad.eq(f"by {by}: cycles", counts.bag(counts.cycles(got)),
                       counts.bag(counts.cycles(want)))
                bad.eq(f"by {by}: times", counts.times_of(got), counts.times_of(want))
                bad.eq(f"by {by}: resolved", bool(got.lffd_solved), len(g) > 1)
    return bad


def long_case(n):
    """Hundreds of rows in few windows."""
    from py_fatigue.cycle_count.utils import aggregate_cc

    bad = Mismatch()
    sigs = [s for s in SIGNALS[1:] if s]
    ccs = [count(sigs[k % len(sigs)], k) for k in range(n)]
    df = pd.DataFrame({"CC_x": ccs, "v": [float(k % 7) for k in range(n)]},
                      index=index(range(n)))
    with warnings.catch_warnings(), crack.quiet():
        warnings.simplefilter("ignore")
        for by in ("all", "D", "h"):
            size = 60 if by == "h" else n
            groups = [ccs[k:k + size] for k in range(0, n, size)]
            agg = aggregate_cc(df, by)
            agg = agg[0] if isinstance(agg, tuple) else agg
            bad.eq(f"by {by}: windows", len(agg), len(groups))
            for j, (got, g) in enumerate(zip(agg["CC_x"], groups)):
                want = g[0]
                for c in g[1:]:
                    want = want + c
                if len(g) > 1:
                    want = want.solve_lffd()
                what = f"{n} rows by {by}, window {j}"
                bad.eq(f"{what}: cycles", counts.bag(counts.cycles(got)) == counts.bag(
                    counts.cycles(want)), True)
                bad.close(f"{what}: full cycles and halves", float(sum(got.count_cycle)),
                          float(sum(want.count_cycle)))
                bad.eq(f"{what}: times", counts.times_of(got), counts.times_of(want))
    return bad


def refusal_case(_):
    from py_fatigue.cycle_count.utils import aggregate_cc, calc_aggregated_damage

    bad = Mismatch()
    ok = pd.DataFrame({"CC_x": [count(SIGNALS[1], 0), count(SIGNALS[2], 60)]},
                      index=index([0, 60]))
    for by in ("all", "h"):
        bad.raises("not a table", TypeError, lambda: aggregate_cc([1, 2], by))
        bad.raises("no times", TypeError, lambda: aggregate_cc(ok.reset_index(drop=True), by))
        bad.raises("descending times", ValueError, lambda: aggregate_cc(ok.iloc[::-1], by))
        bad.raises("repeated times", ValueError,
                   lambda: aggregate_cc(ok.set_index(index([5, 5])), by))
    bad.raises("not a curve", (TypeError, AttributeError),
               lambda: calc_aggregated_damage(ok, [damage.curve([(3, 10)], 0, 1.0), "curve"]))
    return bad


# ------------------------------------------------------------ random traces


def random_count(rng, t):
    """Ranges stay below 9 for the damage to be exact."""
    while True:
        s = [rng.randint(0, 8) for _ in range(rng.randint(2, 12))]
        if rf.countable(s):
            return count(s, t)


def record(rng):
    from py_fatigue.cycle_count.utils import aggregate_cc

    n, t, ts = rng.randint(1, 25), rng.randint(0, 200), []
    if rng.random() < 0.06:
        n = rng.randint(60, 120)
    for _ in range(n):
        ts.append(t)
        t += rng.choice([1, 10, 20, 30, 60, 100, 500])
    cols = [[rng.choice([None, np.nan]) if rng.random() < 0.2 else random_count(rng, t)
             for t in ts] for _ in range(rng.randint(1, 3))]
    v = [-1 if rng.random() < 0.3 else rng.randint(0, 20) for _ in ts]
    data = {f"CC_{k}": pd.Series(c, dtype=object, index=index(ts)) for k, c in enumerate(cols)}
    data["v"] = pd.Series([np.nan if x == -1 else float(x) for x in v], index=index(ts))
    order = list(data)
    rng.shuffle(order)
    w = rng.choice(list(NAMES))
    agg, res = aggregate_cc(pd.DataFrame(data)[order], rng.choice(NAMES[w]), True)
    times = {stamp(t): t for t in ts}
    obj = lambda c: counts.record(c, times) if hasattr(c, "count_cycle") else {"rows": []}
    dmg = damages(agg, rng.randrange(3))
    base = [2 * c[0][-1][1] for c in CURVES]
    near = [Fraction(x).limit_denominator(100) if x == x else None for x in agg["v"]]
    return {
        "t": ts, "v": v, "w": w, "cols": [[obj(c) for c in col] for col in cols],
        "keys": [key_of(x, w) for x in agg.index],
        "mean": [[0, 0] if x is None else [x.numerator, x.denominator] for x in near],
        "out": [{
            "cc": [obj(c) for c in agg[f"CC_{k}"]],
            "res": [counts.as_int(x) for x in res[f"CC_{k}"]["res"]],
            "idx": [counts.as_int(x) for x in res[f"CC_{k}"]["idx"]],
            "dmg": [[damage.near_int(b * x) for x in d] for b, d in zip(base, dmg[f"CC_{k}"])],
        } for k in range(len(cols))],
    }


def check(chk):
    r = chk.explore("AggregationMC", f"AggregationMC_{core.TIER}")
    names = ("tab", "sigs", "out")
    cases = [tuple(st[n] for n in names) for st in core.read_dump(r.dump, names, raw=names)
             if st["tab"] != "<<>>"]
    chk.replay("tables", replay_case, cases, chunk=50)
    chk.replay("calendar", calendar_case, [0, 1], chunk=1)
    chk.replay("long tables", long_case, [230, 470] if core.quick else [230, 470, 900], chunk=1)
    chk.replay("refusals", refusal_case, [0], chunk=1)
    with warnings.catch_warnings(), crack.quiet():
        warnings.simplefilter("ignore")
        recs = chk.record("tables", lambda: record(chk.rng), 150 if core.quick else 1500)

    def corrupt():
        wrong = []
        many = next(x for x in recs if len(x["keys"]) > 2 and any(m[1] for m in x["mean"])
                    and any("ts" in c for c in x["out"][0]["cc"]) and x["out"][0]["res"])
        k = next(j for j, c in enumerate(many["out"][0]["cc"]) if "ts" in c)
        for change in (
            lambda c: c["keys"].__setitem__(0, c["keys"][0] + 1),
            lambda c: c["mean"].__setitem__(0, [99, 1]),
            lambda c: c["out"][0]["res"].__setitem__(0, 99),
            lambda c: c["out"][0]["dmg"][0].__setitem__(0, 1),
            lambda c: c["out"][0]["cc"][k]["rows"].pop(),
            lambda c: c["out"][0]["cc"][k].update(solved=not c["out"][0]["cc"][k]["solved"]),
        ):
            c = copy.deepcopy(many)
            change(c)
            wrong.append(c)
        return wrong

    chk.validate("random-tables", "AggregationTrace", recs, corrupt)
