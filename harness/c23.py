"""C23: plots show the data they are given."""

import copy
import math
import warnings

import numpy as np

import bins
import c11
import c15
import core
import crack
import ctrace
import counts
import views
from adapt import Mismatch

GRIDS = {"mean-range": ((-4, 3, 3), (1, 3, 2), 1), "min-max": ((-12, 6, 4), (-8, 8, 3), 2)}


def axes():
    import matplotlib.pyplot as plt

    return plt.subplots()


def close(fig):
    import matplotlib.pyplot as plt

    plt.close(fig)


def scatter(cc, kind, mode, grid, u):
    """Points and colours plotted, in the order plotted."""
    gx, gy, k = grid or ((0, 1, 1), (0, 1, 1), 1)
    edges = [np.array([(g[0] + i * g[1]) * u / k for i in range(g[2] + 1)]) for g in (gx, gy)]
    kw = {} if mode == "default" else {"mode": None if mode == "none" else mode}
    fig, ax = axes()
    try:
        out = cc.plot_histogram(plot_type=kind, bins=edges, fig=fig, ax=ax, **kw)
        if out[0] is not fig or out[1] is not ax:
            raise ValueError("plotted elsewhere than asked for")
        col = ax.collections[-1]
        xy = np.ma.filled(np.ma.asarray(col.get_offsets(), dtype=float), np.nan).tolist()
        c = np.ma.filled(np.ma.asarray(col.get_array(), dtype=float), np.nan).tolist()
        # what lies outside all cells is not drawn
        drawn = [(p, z) for p, z in zip(xy, c) if z == z]
        return [p for p, _ in drawn], [z for _, z in drawn]
    finally:
        close(fig)


def judge(bad, what, got, want, mode):
    """want: (point, colour) in the order of the entries, colour -1 outside
    of all cells."""
    want = [w for w in want if w[1] != -1]
    if sorted(got) != sorted(want):
        bad.append(f"{what}: plotted {sorted(got)}, specification says {sorted(want)}")
        return
    inside = [c for _, c in got]
    if mode == "none" and got != want:
        bad.append(f"{what}: order {got}, specification says {want}")
    if mode in ("mountain", "default") and inside != sorted(inside):
        bad.append(f"{what}: not from the emptiest to the fullest cell: {inside}")
    if mode == "valley" and inside != sorted(inside, reverse=True):
        bad.append(f"{what}: not from the fullest to the emptiest cell: {inside}")


def replay_case(txt):
    es, v = (core.tla_value(t) for t in txt)
    bad = Mismatch()
    u = (1.0, 0.25)[bins.zlib.crc32(repr((core.SEED, txt)).encode()) % 2]
    mode = ("mountain", "valley", "none", "default")[
        bins.zlib.crc32(repr((txt, core.SEED)).encode()) % 4]
    cc = views.count(es, u)
    for kind, pts, cols in (("mean-range", v["mr"], v["mrc"]), ("min-max", v["mm2"], v["mmc"])):
        k = GRIDS[kind][2]
        xy, c = scatter(cc, kind, mode, GRIDS[kind], u)
        got = [(tuple(views.ints([k * x, k * y], u)), bins.near_int(z)) for (x, y), z in zip(xy, c)]
        judge(bad, f"{kind} ({mode})", got, list(zip(pts, cols)), mode)
    for kind, pts in (("counts-range", v["cr"]), ("counts-range-cumsum", v["cum"])):
        xy, c = scatter(cc, kind, mode, None, u)
        got = [((bins.near_int(2 * x), bins.near_int(y / u)), bins.near_int(2 * z))
               for (x, y), z in zip(xy, c)]
        want = [(p, q[0]) for p, q in zip(pts, v["cr"])]
        bad.eq(kind, sorted(got), sorted(want))
    return bad


def refusal_case(_):
    bad = Mismatch()
    cc = views.count([(4, 5, 2), (6, 1, 1)], 1.0)
    bad.raises("unknown plot", ValueError, lambda: cc.plot_histogram(plot_type="max-min"))
    bad.raises("unknown mode", ValueError, lambda: cc.plot_histogram(mode="hill"))
    for sn in (c11.curve({"m": [3], "a": [60], "e": c11.NEVER}, 5),
               c15.curve({"m": [3], "a": [-60], "t": c15.NIL, "c": c15.INF}, 5)):
        for fun in [sn.plot] + ([sn.plotly] if hasattr(sn, "plotly") else []):
            bad.raises("data set of different lengths", ValueError,
                       lambda: fun([1e5, 1e6], [3.0]))
    return bad


# ------------------------------------------------------------ random traces


def points_record(rng):
    es = views.small_entries(rng, rng.randint(1, 14) if rng.random() < 0.8
                             else rng.randint(60, 200))
    u = rng.choice((1.0, 0.25, 8.0))
    kind = rng.choice(["min-max", "mean-range", "counts-range", "counts-range-cumsum"])
    mode = rng.choice(["mountain", "valley", "none"])
    cc = views.count(es, u)
    grid = ((rng.randint(-30, -5), rng.randint(1, 9), rng.randint(1, 9)),
            (rng.randint(-10, 5), rng.randint(1, 9), rng.randint(1, 9)),
            2 if kind == "min-max" else 1)
    gridded = kind in GRIDS
    xy, c = scatter(cc, kind, mode, grid if gridded else None, u)
    if gridded:
        pts = [views.ints([grid[2] * x, grid[2] * y], u) for x, y in xy]
        cols = [bins.near_int(z) for z in c]
    else:
        mode = "any"
        pts = [[bins.near_int(2 * x), bins.near_int(y / u)] for x, y in xy]
        cols = [bins.near_int(2 * z) for z in c]
    return {"kind": "points", "plot": kind, "mode": mode, "entries": [list(e) for e in es],
            "gx": list(grid[0]), "gy": list(grid[1]), "points": pts, "colours": cols}


def residual_record(rng):
    with crack.quiet():
        _, _, _, pool, times = ctrace.random_history(rng, ["add", "mul"], 3, rng.randint(0, 3))
    cc = pool[-1]
    if rng.random() < 0.3:  # a residual that is long itself
        n, up = rng.randint(40, 120), rng.choice([1, -1])
        sig = [up * (-1) ** k * (k * 3 + rng.randint(0, 2) + 1) for k in range(n)]
        cc = counts.from_signal(sig[::rng.choice([1, -1])], {
            "ts": 0, "rlb": 1, "rbw": 1, "mlb": -400, "mbw": 5, "name": "x", "unit": "MPa"})
    rec = counts.record(cc, times)
    if not 2 <= len(rec["res"]) < 150:
        return None
    fig, ax = axes()
    try:
        rng.choice([cc.plot_residuals_sequence, cc.plot_half_cycles_sequence])(fig=fig, ax=ax)
        if len(ax.lines) != 2:
            raise ValueError(f"{len(ax.lines)} lines drawn")
        lines = [[views.ints(p) for p in ln.get_xydata().tolist()] for ln in ax.lines]
    finally:
        close(fig)
    return {"kind": "residual", "res": rec["res"], "line": lines[0], "again": lines[1]}


def fine(x):
    """Thousandths of a hundredth of a decade."""
    return c15.INF if x == math.inf else c15.NIL if x == 0 else round(1e5 * math.log10(x))


def vertices(line):
    return [[fine(x), fine(y)] for x, y in line.get_xydata().tolist()]


def data_set(rng):
    n = rng.randint(1, 6)
    return [[rng.randint(1, 10**6) for _ in range(n)] for _ in range(2)]


def curve_record(rng):
    kind = rng.choice(["sn", "sn", "paris"])
    mod = c11 if kind == "sn" else c15
    c = mod.random_curve(rng)
    curve = mod.curve(c, 100)
    data = data_set(rng) if rng.random() < 0.6 else []
    if kind == "sn" and rng.random() < 0.5:
        out, layout = curve.plotly(*data)
        if layout.xaxis.type != "log" or layout.yaxis.type != "log":
            raise ValueError("axes are not logarithmic")
        pts = [[fine(x), fine(y)] for x, y in zip(list(out[0].x), list(out[0].y))]
        drawn = [views.ints(list(out[1].x)), views.ints(list(out[1].y))] if len(out) > 1 else []
    else:
        fig, ax = axes()
        try:
            curve.plot(*data, fig=fig, ax=ax)
            if ax.get_xscale() != "log" or ax.get_yscale() != "log":
                raise ValueError("axes are not logarithmic")
            pts = vertices(ax.lines[0])
            drawn = [] if len(ax.lines) < 2 else [
                views.ints(ax.lines[1].get_xdata()), views.ints(ax.lines[1].get_ydata())]
        finally:
            close(fig)
    return {"kind": kind, "c": c, "pts": pts, "data": data, "drawn": drawn}


def miner_record(rng):
    import pandas as pd

    c = c11.random_curve(rng)
    es = [[rng.randint(-50, 330), rng.randint(0, 600)] for _ in range(rng.randint(1, 12))]
    df = pd.DataFrame({
        "count_cycle": [10.0 ** (e[1] / 100) for e in es],
        "stress_range": [10.0 ** (e[0] / 100) for e in es],
        "mean_stress": [0.0 for _ in es]})
    df._metadata = {"unit": "MPa"}
    df.miner.damage(c11.curve(c, 100))
    fig, ax = axes()
    log = rng.random() < 0.4
    try:
        with np.errstate(divide="ignore"):
            df.miner.plot_histogram(fig=fig, ax=ax, dens_func=np.log10 if log else None)
        col = ax.collections[-1]
        xy = np.asarray(col.get_offsets(), dtype=float).tolist()
        z = np.ma.getdata(col.get_array()).astype(float).tolist()
    finally:
        close(fig)
    if log:
        z = [10.0 ** v for v in z]
    near = lambda x: c15.NIL if x == 0 else bins.near_int(100 * math.log10(x))
    return {"kind": "miner", "c": c, "entries": es,
            "points": [[near(y), near(x)] for x, y in xy], "colours": [near(v) for v in z]}


def lines_record(rng):
    from py_fatigue.cycle_count.utils import plot_aggregated_residuals

    col = rng.choice(["CC_a", "CC_b"])
    given, res = [], {}
    for label in rng.sample(["day", "week", "month", "quarter", "year"], rng.randint(1, 5)):
        n = rng.randint(1, 8)
        res[label] = {c: {"idx": list(range(n)), "res": [rng.randint(-50, 50) for _ in range(n)]}
                      for c in ("CC_a", "CC_b")}
        given.append([label] + [list(p) for p in zip(res[label][col]["idx"],
                                                     res[label][col]["res"])])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig, ax = plot_aggregated_residuals(res, col, minor_grid=rng.random() < 0.5)
    try:
        drawn = [[ln.get_label()] + [views.ints(p) for p in ln.get_xydata().tolist()]
                 for ln in ax.lines]
    finally:
        close(fig)
    return {"kind": "lines", "data": given, "drawn": drawn}


def check(chk):
    r = chk.explore("ViewsMC", f"ViewsMC_{core.TIER}")
    cases = [tuple(st[n] for n in views.NAMES)
             for st in core.read_dump(r.dump, views.NAMES, raw=views.NAMES)
             if st["es"] != "<<>>"]
    few = 900 if core.quick else 8000
    if len(cases) > few:
        cases = chk.rng.sample(cases, few)
    chk.replay("plots", replay_case, cases)
    chk.replay("refusals", refusal_case, [0], chunk=1)
    n = 1 if core.quick else 8
    recs = chk.record("histogram plots", lambda: points_record(chk.rng), 120 * n)
    recs += chk.record("residual plots", lambda: residual_record(chk.rng), 60 * n)

    def corrupt():
        wrong = []
        pick = lambda f: copy.deepcopy(chk.rng.choice([r for r in recs if f(r)]))
        c = pick(lambda r: r["kind"] == "points" and r["points"])
        c["points"][0][1] += 1
        wrong.append(c)
        c = pick(lambda r: r["kind"] == "points" and r["points"])
        c["colours"][-1] += 1
        wrong.append(c)
        c = pick(lambda r: r["kind"] == "points" and r["mode"] in ("mountain", "valley")
                 and len({x for x in r["colours"] if x > 0}) > 1)
        c["points"].reverse()
        c["colours"].reverse()
        wrong.append(c)
        for f in ("line", "again"):
            c = pick(lambda r: r["kind"] == "residual")
            c[f][-1][1] += 1
            wrong.append(c)
        return wrong

    chk.validate("count-plots", "ViewsTrace", recs, corrupt)
    recs2 = chk.record("curve plots", lambda: curve_record(chk.rng), 150 * n)
    recs2 += chk.record("damage plots", lambda: miner_record(chk.rng), 50 * n)
    recs2 += chk.record("line plots", lambda: lines_record(chk.rng), 20 * n)

    def corrupt2():
        wrong = []
        pick = lambda f: copy.deepcopy(chk.rng.choice([r for r in recs2 if f(r)]))
        for kind in ("sn", "paris"):
            c = pick(lambda r: r["kind"] == kind)
            c["pts"][len(c["pts"]) // 2][1] += 200
            wrong.append(c)
            c = pick(lambda r: r["kind"] == kind and r["data"])
            c["drawn"][0][0] += 1
            wrong.append(c)
        c = pick(lambda r: r["kind"] == "sn" and len(r["c"]["m"]) > 1)
        knees = [fine(x) for x in c11.curve(c["c"], 100).get_knee_cycles().tolist()]
        c["pts"] = [p for p in c["pts"] if abs(p[0] - knees[0]) > 5]
        wrong.append(c)
        c = pick(lambda r: r["kind"] == "miner")
        c["colours"][-1] += 1
        wrong.append(c)
        c = pick(lambda r: r["kind"] == "lines")
        c["drawn"][-1][-1][1] += 1
        wrong.append(c)
        return wrong

    chk.validate("curve-plots", "PlotsTrace", recs2, corrupt2)
