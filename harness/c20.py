"""C20: bins, binned values, full and half cycles, 2-d histograms."""

import copy
import itertools

import numpy as np

import bins
import core
from adapt import Mismatch

NONE = -99
SHIFT = 40  # means are tried around zero as well


def same_edges(bad, what, got, want, w, u):
    """Edges have to agree; off dyadic scales an empty bin more may follow."""
    got = np.asarray(got, dtype=float).tolist()
    exact = u in (1.0, 0.25, 10.0)
    if len(got) > len(want) and not exact and len(got) <= len(want) + 2:
        want = list(want) + [want[-1] + w * (i + 1) for i in range(len(got) - len(want))]
    bad.seq(what, got, [x * u for x in want], atol=6e-6 * min(1, w * u))


def judge_stress(bad, what, obj, st, shift, u):
    """A stress object (of ranges or of means) against the specification."""
    off = lambda xs: [x - shift for x in xs]
    bad.close(f"{what}: lower bound", obj.bin_lb, (st["lower"] - shift) * u, atol=1e-9 * u)
    bad.seq(f"{what}: full", obj.full, [x * u for x in off(st["full"])], atol=1e-9 * u)
    bad.seq(f"{what}: half", obj.half, [x * u for x in off(st["half"])], atol=1e-9 * u)
    same_edges(bad, f"{what}: edges", obj.bin_edges, off(st["edges"]), st["w"], u)
    same_edges(bad, f"{what}: centres", obj.bin_centers, off(st["centres"]), st["w"], u)
    if st["full"]:
        bad.eq(f"{what}: bins", np.asarray(obj.bins_idx).tolist(), list(st["idx"]))
        bad.seq(f"{what}: binned", obj.binned_values, [x * u for x in off(st["binned"])],
                atol=6e-6 * min(1, st["w"] * u))


def replay_case(txt):
    from py_fatigue.mean_stress import MeanStress
    from py_fatigue.stress_range import StressRange

    names, values = txt
    st = {n: core.tla_value(v) for n, v in zip(names, values)}
    bad = Mismatch()
    es, w, given = st["es"], st["w"], st["given"]
    # shifting by a multiple of the width that keeps ties even
    shift = 0 if given == NONE and SHIFT % (2 * w) else SHIFT
    for u in bins.scale_of(es):
        if given == NONE and u not in (1.0, 0.25, 10.0) and any(
                (2 * e[0] + w) % (2 * w) == 0 for e in es):
            u = 0.25  # rounding would decide the tie
        counts = np.array([e[2] / 2 for e in es])
        vals = np.array([bins.phys(e[0], u) for e in es])
        means = np.array([bins.phys(e[0] - shift, u) for e in es])
        width = bins.phys(w, u)
        lb = None if given == NONE else bins.phys(given, u)
        mlb = None if given == NONE else bins.phys(given - shift, u)
        judge_stress(bad, f"ranges in units of {u}",
                     StressRange(counts, vals, width, lb), st, 0, u)
        judge_stress(bad, f"means in units of {u}",
                     MeanStress(counts, means, width, mlb), st, shift, u)
        par = {"rlb": st["lower"], "rbw": w, "mbw": w,
               "mlb": None if given == NONE else given - shift}
        cc = bins.count([(e[0], e[0] - shift, e[2]) for e in es], par, u)
        bad.close("lower mean bound of the count", cc.mean_bin_lower_bound,
                  (st["lower"] - shift) * u, atol=1e-9 * u)
        full = [((x - shift) * u, x * u) for x in st["full"]]
        half = [((x - shift) * u, x * u) for x in st["half"]]
        for name, got, want in (("full cycles", cc.full_cycles, full),
                                ("residuals", cc.residuals, half),
                                ("half cycles", cc.half_cycles, half)):
            bad.seq(f"{name} of the count", np.ravel(got), np.ravel(want), atol=1e-9 * u)
        for name, pair in (("edges", cc.bin_edges), ("centres", cc.bin_centers)):
            same_edges(bad, f"mean {name} of the count", pair[0],
                       [x - shift for x in st[name]], w, u)
            same_edges(bad, f"range {name} of the count", pair[1], st[name], w, u)
        if bad:
            break
    return bad


GRIDS = [None, dict(rlb=0, rbw=2, rn=3, mlb=-2, mbw=2, mn=2),
         dict(rlb=2, rbw=4, rn=2, mlb=0, mbw=1, mn=3)]


def hist_case(case):
    from py_fatigue.cycle_count import histogram

    k, es, hist, at = case
    g = GRIDS[k]
    bad = Mismatch()
    for u in (1.0, 0.25):
        mean = np.array([e[1] * u for e in es])
        rang = np.array([e[0] * u for e in es])
        n = np.array([e[2] / 2 for e in es])
        me = np.array([(g["mlb"] + i * g["mbw"]) * u for i in range(g["mn"] + 1)])
        re = np.array([(g["rlb"] + i * g["rbw"]) * u for i in range(g["rn"] + 1)])
        h, edges = histogram.make_histogram(mean, rang, bins=(me, re), weights=n)
        bad.seq("histogram", np.ravel(h), [x / 2 for row in hist for x in row])
        bad.seq("mean edges", edges[0], me)
        bad.seq("range edges", edges[1], re)
        m = histogram.map_hist(mean, rang, h, edges)
        bad.seq("histogram at the entries", m,
                [float("nan") if x == -1 else x / 2 for x in at])
        bad.raises("different lengths", ValueError, lambda: histogram.make_histogram(
            mean, rang[:-1], bins=(me, re)))
    return bad


# ------------------------------------------------------------ random traces


def many(rng):
    """A few values with more cycles than short integers can hold."""
    w, u = rng.choice([2, 10]), rng.choice((1.0, 0.25))
    vals = [rng.randint(0, 99) for _ in range(3)]
    cnts = [rng.choice([2, 3]), 2 * rng.choice([32768, 40000, 65536, 65540]) + 1, 1]
    return bins_of(vals, cnts, w, u, rng.choice([0, -3]), True, rng.random() < 0.5)


def wide(rng, k):
    """A few values far apart, in thousands of bins."""
    w, u = rng.choice([2, 4]), rng.choice((1.0, 0.25, 10.0))
    means = rng.random() < 0.5
    top = (9000, 1500, 5000)[k % 3]
    vals = [rng.randint(-top if means else 0, top) for _ in range(rng.randint(3, 12))] + [top]
    cnts = [rng.choice([1, 2, 2, 3, 8]) for _ in vals[1:]] + [2]
    return bins_of(vals, cnts, w, u, min(vals) - rng.choice([0, 3]), rng.random() < 0.7, means)


def random_record(rng):
    w = rng.choice([2, 4, 10, 40])
    given = rng.random() < 0.6
    means = rng.random() < 0.5
    low = -300 if means else 0
    vals = [rng.randint(low, 300) for _ in range(rng.randint(1, 60))]
    cnts = [rng.choice([1, 2, 2, 3, 8]) for _ in vals]
    if rng.random() < 0.1:  # many cycles at one value
        cnts[rng.randrange(len(cnts))] = 2 * rng.choice([128, 256, 300, 999]) + rng.randint(0, 1)
    if all(c < 2 for c in cnts):
        return None
    u = rng.choice((1.0, 0.25, 10.0, 0.05, 0.1, 0.01, 1e-6, 4e-9))
    if not given and u < 0.25 and (2 * min(vals) + w) % (2 * w) == 0:
        return None
    lower = min(vals) - rng.choice([0, 0, 1, rng.randint(0, 50)])
    return bins_of(vals, cnts, w, u, lower, given, means)


def bins_of(vals, cnts, w, u, lower, given, means):
    from py_fatigue.mean_stress import MeanStress
    from py_fatigue.stress_range import StressRange

    kind = MeanStress if means else StressRange
    obj = kind(np.array(cnts) / 2, np.array([bins.phys(v, u) for v in vals]),
               bins.phys(w, u), bins.phys(lower, u) if given else None)
    ints = lambda xs: [round(x / u) if abs(x / u - round(x / u)) < 1e-3 else
                       bins.NOT_AN_INTEGER for x in np.asarray(xs, dtype=float).tolist()]
    return {
        "kind": "bins", "w": w, "given": given, "exact": u in (1.0, 0.25, 10.0),
        "entries": [[v, 0, c] for v, c in zip(vals, cnts)],
        "lower": ints([obj.bin_lb])[0], "edges": ints(obj.bin_edges),
        "idx": np.asarray(obj.bins_idx).tolist(), "binned": ints(obj.binned_values),
        "full": ints(obj.full), "half": ints(obj.half),
    }


def check(chk):
    r = chk.explore("BinsMC", f"BinsMC_{core.TIER}")
    names = ("w", "given", "es", "lower", "edges", "centres", "full", "half", "idx", "binned")
    cases = [(names, tuple(st[n] for n in names))
             for st in core.read_dump(r.dump, names, raw=names) if st["es"] != "<<>>"]
    chk.replay("bins", replay_case, cases)
    r = chk.explore("Hist2MC", f"Hist2MC_{core.TIER}")
    cases = [(st["k"], st["es"], st["hist"], st["at"]) for st in core.read_dump(r.dump)
             if st["es"]]
    chk.replay("histograms", hist_case, cases)
    recs = chk.record("bins", lambda: random_record(chk.rng), 300 if core.quick else 3000)

    def corrupt():
        wrong = []
        for f in ("edges", "idx", "binned", "full"):
            c = copy.deepcopy(recs[len(wrong)])
            c[f][-1] += 1
            wrong.append(c)
        c = copy.deepcopy(recs[5])
        c["edges"].pop()
        wrong.append(c)
        return wrong

    k = itertools.count()
    recs += chk.record("wide", lambda: wide(chk.rng, next(k)), 9 if core.quick else 30)
    recs += chk.record("many", lambda: many(chk.rng), 3 if core.quick else 12)
    chk.validate("random-bins", "BinningTrace", recs, corrupt)
