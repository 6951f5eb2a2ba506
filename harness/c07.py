"""C07: exporting a count, importing the dictionary and exporting again."""

import copy
import itertools
import json
import os
from contextlib import redirect_stdout

import numpy as np

import bins
import core
from adapt import Mismatch

# as ParTable in spec/ExportMC.tla
PARS = [None] + [
    dict(zip(("rlb", "rbw", "mlb", "mbw", "p", "q", "e", "gap", "small"), p))
    for p in ((2, 2, -4, 4, 1, 1000, 5, 32, 0), (3, 4, -5, 2, 2003, 10000, 3, 32, 7),
              (1, 2, -4, 2, 6007, 10000, 3, 1, 0), (4, 6, -4, 8, 40013, 100000, 2, 0, 2),
              (0, 2, -6, 4, 3, 1, 1, 2, 0))
]


def export(cc, par, k=0, **kw):
    if k == 1:  # the documented defaults
        return cc.as_dict(**kw)
    return cc.as_dict(
        damage_tolerance_for_binning=par["p"] / par["q"], damage_exponent=float(par["e"]),
        max_consecutive_zeros=par["gap"], **kw)


def compare(bad, what, d, want, u, flat=False):
    try:
        json.dumps(d)
    except TypeError as exc:
        bad.append(f"{what}: not JSON compatible ({exc})")
        return
    got = bins.parts(d, u, flat)
    for part in ("small", "cells", "lg", "res"):
        w = want[part] if part == "small" else sorted(want[part])
        if want["unsettled"] and part in ("cells", "lg"):
            continue
        bad.eq(f"{what}: {part}", got[part], w)
    bad.eq(f"{what}: full cycles", len(got["cells"]) + len(got["lg"]),
           len(want["cells"]) + len(want["lg"]))


def replay_case(txt):
    k, entries, d, back, d2, leg = (core.tla_value(x) for x in txt)
    par = PARS[k]
    bad = Mismatch()
    for u in bins.scale_of(entries, 1 if core.quick else 2):
        sig = (-4, 9, 1, 7) if k % 2 else ()
        cc = bins.count(entries, par, u, sig)
        before = copy.deepcopy(cc)
        real = export(cc, par, k, **bins.decimals(u))
        compare(bad, f"export in units of {u}", real, d, u)
        bad.close("lower range bound", real["range_bin_lower_bound"], bins.phys(par["rlb"], u),
                  atol=1e-9 * u)
        bad.close("range bin width", real["range_bin_width"], bins.phys(par["rbw"], u),
                  atol=1e-9 * u)
        bad.close("lower mean bound", real["mean_bin_lower_bound"], bins.phys(par["mlb"], u),
                  atol=1e-9 * u)
        bad.close("mean bin width", real["mean_bin_width"], bins.phys(par["mbw"], u), atol=1e-9 * u)
        bad.seq("residuals", real["res_sig"], [v * u for v in sig])
        compare(bad, f"export without means in units of {u}",
                export(cc, par, k, legacy_export=True, **bins.decimals(u)), leg, u, True)
        with open(os.devnull, "w", encoding="utf-8") as null, redirect_stdout(null):
            said = export(cc, par, k, debug_mode=True, **bins.decimals(u))
        bad.eq("export with remarks", said, real)
        if not cc == before:
            bad.append("exporting changed the count")
        if bad or d["unsettled"] or not back:
            break
        again = type(cc).from_rainflow(json.loads(json.dumps(real)), timestamp=bins.NOW,
                                       **bins.decimals(u))
        bad.eq(f"imported in units of {u}", bins.rows(again, u), sorted(back))
        bad.eq("small cycles imported", again.nr_small_cycles, d["small"])
        bad.seq("residuals imported", again.residuals_sequence, [v * u for v in sig])
        if d2["unsettled"]:
            break
        compare(bad, f"second export in units of {u}", export(again, par, k, **bins.decimals(u)),
                d2, u)
        if bad:
            break
    return bad


# ------------------------------------------------------------ random traces


def random_par(rng):
    e = rng.choice([1, 2, 3, 3, 5])
    p, q = {1: (20011, 100000), 2: (40013, 100000), 3: (2003, 10000), 5: (1, 1000)}[e]
    rbw, mbw = rng.choice([2, 2, 4, 6]), rng.choice([2, 4, 10, 20])
    return {"rlb": rng.randint(0, 6), "rbw": rbw, "mlb": -30 - rng.randint(0, 5), "mbw": mbw,
            "p": p, "q": q, "e": e, "gap": rng.choice([0, 1, 2, 5, 12, 32]),
            "small": rng.choice([0, 0, 3])}


def record(cc, entries, par, u, legacy, d=None):
    from py_fatigue import CycleCount

    if d is None:
        d = export(cc, par, legacy_export=legacy, **bins.decimals(u))
    r = {"kind": "export", "legacy": legacy, "par": par, "entries": entries, "imported": False,
         "back": []}
    r.update(bins.parts(d, u, legacy))
    if r["cells"] or r["lg"] or r["res"]:
        again = CycleCount.from_rainflow(json.loads(json.dumps(d, default=list)),
                                         timestamp=bins.NOW, **bins.decimals(u))
        r.update(imported=True, back=bins.rows(again, u))
    return r


def random_record(rng, i):
    from py_fatigue.cycle_count import calc_rainflow
    from py_fatigue.cycle_count.histogram import binned_rainflow

    par = random_par(rng)
    top = 14 if par["e"] == 5 else 48
    u = rng.choice(bins.SCALES + bins.FINE)
    if i % 4 < 3:
        m = rng.choice([1, 5, 30, 80])
        entries = [[rng.randint(0, top), rng.randint(-30, 30), rng.choice([1, 2, 2, 2, 3, 6])]
                   for _ in range(rng.randint(1, m))]
        if i % 40 == 0:  # many cycles alike
            entries[-1][2] = 2 * rng.choice([128, 256, 300])
        if i in (2, 6) or i % 400 == 41:  # a long count, its largest range first
            n = rng.randint(1100, 1800) if core.quick else rng.randint(1100, 2600)
            entries = [[rng.randint(0, top - 1), rng.randint(-30, 30), rng.choice([1, 2, 2])]
                       for _ in range(n)]
            entries[0] = [top, 3, 2]
        sig = [rng.randint(-20, 20) for _ in range(rng.randint(0, 9))]
        return record(bins.count(entries, par, u, sig), entries, par, u,
                      legacy=rng.random() < 0.3)
    sig = [2 * rng.randint(-top // 4, top // 4) for _ in range(rng.randint(3, 120))]
    if min(sig) == max(sig):
        return None
    par["small"] = 0
    u = rng.choice([1.0, 0.25, 10.0])  # differences of samples are exact
    data = np.array([bins.phys(v, u) for v in sig])
    rf = calc_rainflow(data, extended_output=False)
    entries = [[bins.near_int(2 * x[0] / u), bins.near_int(x[1] / u), bins.near_int(2 * x[2])]
               for x in np.asarray(rf).tolist()]
    d = binned_rainflow(
        data, range_bin_lower_bound=bins.phys(par["rlb"], u),
        range_bin_width=bins.phys(par["rbw"], u),
        mean_bin_lower_bound=bins.phys(par["mlb"], u), mean_bin_width=bins.phys(par["mbw"], u),
        damage_tolerance_for_binning=par["p"] / par["q"], damage_exponent=float(par["e"]),
        max_consetutive_zeros=par["gap"])
    return record(None, entries, par, u, False, d)


def digits(rng):
    """Numbers with many decimals written with some of them."""
    from py_fatigue import CycleCount

    top = 10 ** rng.randint(3, 8)
    halves = [[rng.randint(10, top), rng.randint(-top, top)] for _ in range(rng.randint(0, 5))]
    large = [rng.randint(10, top), rng.randint(-top, top)]
    res = [rng.randint(-top, top) for _ in range(rng.randint(0, 8))]
    cc = CycleCount(
        count_cycle=np.array([1.0] + [0.5] * len(halves)),
        stress_range=np.array([x[0] / 1e6 for x in [large] + halves]),
        mean_stress=np.array([x[1] / 1e6 for x in [large] + halves]),
        timestamp=bins.NOW, range_bin_lower_bound=0.0, range_bin_width=7 * top / 1e6,
        mean_bin_width=7 * top / 1e6, residuals_sequence=np.array([v / 1e6 for v in res]))
    legacy = rng.random() < 0.4
    k = rng.choice([None, 0, 1, 2, 3, 4, 5, 6, 9])
    kw = {} if k is None else {"round_decimals": k}
    d = cc.as_dict(damage_tolerance_for_binning=1e-9, damage_exponent=1.0,
                   legacy_export=legacy, **kw)
    mic = lambda x: bins.near_int(x * 1e6)
    both = lambda xs: [v for x in xs for v in ([x[0]] if legacy else [x[1], x[0]])]
    pair = lambda a, b: ([[x, mic(y)] for x, y in zip(a, b)] if len(a) == len(b)
                         else [[0, bins.NOT_AN_INTEGER]])
    return {"kind": "digits", "decimals": 4 if k is None else k,
            "residuals": pair(res, np.ravel(d["res_sig"]).tolist()),
            "large": pair(both([large]), np.ravel(d["lg_c"]).tolist()),
            "halves": pair(both(halves), np.ravel(d["res"]).tolist())}


def corrupted(recs):
    wrong = []
    for f in ("residuals", "large", "halves"):
        r = copy.deepcopy(next(x for x in recs if x["kind"] == "digits" and x[f]
                               and x["decimals"] < 6))
        r[f][0][1] += 1
        wrong.append(r)
        r = copy.deepcopy(next(x for x in recs if x["kind"] == "digits" and x[f]))
        r[f][-1][1] += 10 ** (7 - min(r["decimals"], 6))
        wrong.append(r)
    recs = [x for x in recs if x["kind"] == "export"]
    r = copy.deepcopy(next(x for x in recs if len(x["cells"]) > 2))
    r["cells"][1] = [r["cells"][1][0], r["cells"][1][1] + 1]
    wrong.append(r)
    r = copy.deepcopy(next(x for x in recs if x["lg"]))
    r["lg"][0] = [r["lg"][0][0], r["lg"][0][1] + 1]
    wrong.append(r)
    r = copy.deepcopy(next(x for x in recs if x["res"]))
    r["res"].pop()
    wrong.append(r)
    r = copy.deepcopy(recs[0])
    r["small"] += 1
    wrong.append(r)
    r = copy.deepcopy(next(x for x in recs if x["imported"] and len(x["back"]) > 1))
    r["back"][0] = [r["back"][0][0], r["back"][0][1], r["back"][0][2] + 2]
    wrong.append(r)
    return wrong


def check(chk):
    names = ("k", "entries", "d", "back", "d2", "leg")
    for cfg in ("two", "three"):
        r = chk.explore("ExportMC", f"ExportMC_{cfg}_{core.TIER}")
        cases = [tuple(st[n] for n in names) for st in core.read_dump(r.dump, names, raw=names)
                 if st["entries"] != "<<>>"]
        chk.replay(f"exports-{cfg}", replay_case, cases)
    kinds = itertools.count()
    recs = chk.record("exports", lambda: random_record(chk.rng, next(kinds)),
                      400 if core.quick else 3000)
    recs += chk.record("digits", lambda: digits(chk.rng), 150 if core.quick else 1500)
    chk.validate("random-exports", "BinningTrace", recs, lambda: corrupted(recs))
