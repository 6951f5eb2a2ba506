"""C22: everything a count shows of its cycles agrees with its entries."""

import copy
import math

import numpy as np

import core
import counts
import ctrace
import views
from adapt import Mismatch


def judge(bad, cc, es, v, u):
    """A count of entries es in units of u against the specified view."""
    half = lambda xs: [x * u / 2 for x in xs]
    bad.seq("amplitudes", cc.stress_amplitude, half(v["amp2"]))
    bad.seq("lowest stresses", cc.min_stress, half(v["low2"]))
    bad.seq("highest stresses", cc.max_stress, half(v["high2"]))
    bad.seq("full cycles", np.ravel(cc.full_cycles),
            [x * u for c in v["full"] for x in (c[1], c[0])])
    for what, got in (("residuals", cc.residuals), ("half cycles", cc.half_cycles)):
        bad.seq(what, np.ravel(got), [x * u for c in v["half"] for x in (c[1], c[0])])
    m = v["mom"]
    mean, cov, third = cc.statistical_moments
    bad.close("mean range", mean, m["sum"] / m["n"] * u)
    bad.close("variation", cov, math.sqrt(m["second"]) / m["sum"], atol=1e-7)
    bad.close("third moment", third, m["third"] / m["sum"] ** 3, atol=1e-9)
    table(bad, cc, es, u)
    shown(bad, cc, v["sum"], u)


def table(bad, cc, es, u):
    df = cc.to_df()
    bad.eq("columns", sorted(df.columns), ["count_cycle", "mean_stress", "stress_range"])
    bad.seq("table: counts", df["count_cycle"], [e[2] / 2 for e in es])
    bad.seq("table: ranges", df["stress_range"], [e[0] * u for e in es])
    bad.seq("table: means", df["mean_stress"], [e[1] * u for e in es])
    # the table is the reader's own
    for col in df.columns:
        df[col] = df[col] * 3 + 1
        df.loc[0, col] = -5
    bad.seq("ranges after changing the table", cc.stress_range, [e[0] * u for e in es])
    bad.seq("means after changing the table", cc.mean_stress, [e[1] * u for e in es])
    bad.seq("counts after changing the table", cc.count_cycle, [e[2] / 2 for e in es])


def shown(bad, cc, s, u):
    rows = views.summary(cc)
    get = lambda k: views.number(rows.get(k))
    bad.eq("shown number of full cycles", get("number of full cycles"), s["full"])
    bad.eq("shown number of half cycles", get("number of residuals"), s["half"])
    bad.eq("shown number of small cycles", get("number of small cycles"), cc.nr_small_cycles)
    if u in (1.0, 0.25):
        bad.close("shown largest range", get("largest stress range") or 0, s["top"] * u)
        want = None if s["topfull"] < 0 else s["topfull"] * u
        bad.eq("shown largest full range", get("largest full stress range"), want)


def replay_case(txt):
    es, v = (core.tla_value(t) for t in txt)
    bad = Mismatch()
    u = views.scale(txt[0])
    cc = views.count(es, u, nr_small_cycles=len(es) + 2)
    judge(bad, cc, es, v, u)
    return bad


def copies_case(txt):
    """Every entry k times over: the same views k times, the same moments."""
    es, v = (core.tla_value(t) for t in txt)
    bad = Mismatch()
    u, k = views.scale(txt[0]), 700
    es = [e for e in es for _ in range(k)]
    v = dict(v, **{n: [x for x in v[n] for _ in range(k)] for n in ("amp2", "low2", "high2", "full", "half")},
             sum=dict(v["sum"], full=v["sum"]["full"] * k, half=v["sum"]["half"] * k))
    judge(bad, views.count(es, u, nr_small_cycles=3), es, v, u)
    return bad


# ------------------------------------------------------------ random traces


def of_history(rng):
    """A count somewhere in a random history of operations."""
    import contextlib
    import os

    with open(os.devnull, "w", encoding="utf-8") as null, contextlib.redirect_stdout(null):
        _, _, _, pool, times = ctrace.random_history(
            rng, ["add", "mul", "solve", "correct"], 3, rng.randint(0, 4))
    cc = pool[-1]
    rec = counts.record(cc, times)
    df = cc.to_df()
    rows = views.summary(cc)
    pairs = lambda a: [views.ints([10 * r, 20 * m]) for m, r in np.asarray(a).tolist()]
    return {
        "kind": "sides", "entries": rec["rows"],
        "low20": views.ints(20 * np.asarray(cc.min_stress)),
        "high20": views.ints(20 * np.asarray(cc.max_stress)),
        "amp20": views.ints(20 * np.asarray(cc.stress_amplitude)),
        "full": pairs(cc.full_cycles),
        "half": pairs(cc.half_cycles),
        "table": [views.ints([10 * r, 20 * m, 2 * c]) for r, m, c in
                  zip(df.stress_range, df.mean_stress, df.count_cycle)],
        "summary": [int(rows["number of full cycles"]), int(rows["number of residuals"]),
                    views.ints([10 * max(cc.stress_range)])[0]],
    }


def moments(rng):
    es = views.small_entries(rng, rng.randint(1, 12))
    u = rng.choice(views.SCALES)
    cc = views.count(es, u)
    mean, cov, third = cc.statistical_moments
    n = len(np.ravel(cc.full_cycles)) // 2 + len(np.ravel(cc.half_cycles)) // 2
    s = mean * n / u
    return {"kind": "moments", "entries": [list(e) for e in es],
            "sum": views.ints([s])[0], "second": views.ints([(cov * s) ** 2])[0],
            "third": views.ints([third * s**3])[0]}


def check(chk):
    r = chk.explore("ViewsMC", f"ViewsMC_{core.TIER}")
    cases = [tuple(st[n] for n in views.NAMES)
             for st in core.read_dump(r.dump, views.NAMES, raw=views.NAMES)
             if st["es"] != "<<>>"]
    chk.replay("views", replay_case, cases)
    chk.replay("copies", copies_case, chk.rng.sample(cases, 60 if core.quick else 600), chunk=10)
    recs = chk.record("views of a history", lambda: of_history(chk.rng),
                      120 if core.quick else 1500)
    recs += chk.record("moments", lambda: moments(chk.rng), 200 if core.quick else 2000)

    def corrupt():
        wrong = []
        sides = [r for r in recs if r["kind"] == "sides"]
        for f in ("low20", "high20", "amp20"):
            c = copy.deepcopy(chk.rng.choice(sides))
            c[f][-1] += 1
            wrong.append(c)
        for f in ("full", "half", "table"):
            c = copy.deepcopy(chk.rng.choice([r for r in sides if r[f]]))
            c[f][0][chk.rng.randrange(2)] += 1
            wrong.append(c)
        c = copy.deepcopy(sides[0])
        c["summary"][0] += 1
        wrong.append(c)
        for f in ("sum", "second", "third"):
            c = copy.deepcopy(next(r for r in recs if r["kind"] == "moments" and r["second"]))
            c[f] += 1
            wrong.append(c)
        return wrong

    chk.validate("random-views", "ViewsTrace", recs, corrupt)
