"""C19: turning points and level crossings."""

import copy
import warnings

import numpy as np

import core
import rf
from adapt import Mismatch


MAPS = [m for m in rf.MAPS if m[0] > 0]


def quiet(fun, *a, **k):
    """Result and number of warnings."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = fun(*a, **k)
    return [int(i) for i in np.asarray(r).ravel()], len(w)


def replay_case(case):
    from py_fatigue.cycle_count import rainflow as R

    sig, q, ext, tps = case
    bad = Mismatch()
    scale, offset = MAPS[(sum(sig) + len(sig)) % len(MAPS)]
    x = np.array(sig, dtype=float) / 2 * scale + offset
    before = x.copy()
    for lv, ans in q:
        lv = lv * scale + 2 * offset
        for arg in (x, x.tolist()):
            for kind, key in ((None, "a"), ("du", "a"), ("all", "a"), ("u", "u"), ("d", "d")):
                got, w = quiet(R.findcross, arg, lv / 2, kind)
                bad.eq(f"findcross({x.tolist()}, {lv / 2}, {kind})", got, list(ans[key]))
                if not ans["a"]:
                    bad.eq("a warning when there is no crossing", w > 0, True)
    got, w = quiet(R.findextrema, x)
    bad.eq("findextrema", got, list(ext))
    got, w = quiet(R.findtp, x)
    bad.eq("findtp", got, list(tps))
    # shifting and scaling by exact factors changes nothing
    got, _ = quiet(R.findtp, x * 8 - 3)
    bad.eq("findtp of the scaled signal", got, list(tps))
    bad.eq("signal after the queries", x.tolist(), before.tolist())
    if len(sig) >= 2:
        k = (sum(sig) + len(sig)) % len(sig)
        y = x.copy()
        y[k] = np.nan
        bad.raises("findcross with NaN", ValueError, lambda: R.findcross(y, 0.0))
        bad.raises("findtp with NaN", ValueError, lambda: R.findtp(y))
        bad.raises("unknown crossing kind", ValueError, lambda: R.findcross([-1.0, 1.0], 0, "x"))
    return bad


def missing_case(case):
    """One missing sample in a long signal."""
    from py_fatigue import CycleCount
    from py_fatigue.cycle_count import rainflow as R

    n, k = case
    bad = Mismatch()
    x = np.arange(n) % 7.0
    quiet(R.findtp, x)
    x[k] = np.nan
    for name, fun in (("findcross", lambda: R.findcross(x, 3.0)), ("findtp", lambda: R.findtp(x)),
                      ("findextrema", lambda: R.findextrema(x)),
                      ("rainflow", lambda: R.rainflow(x)),
                      ("count", lambda: CycleCount.from_timeseries(x, mean_bin_width=1))):
        bad.raises(f"{name}: sample {k} of {n} missing", ValueError, fun)
    return bad


def make_record(rng):
    from py_fatigue.cycle_count import rainflow as R

    s = rf.random_signal(rng, rng.randint(1, 60))
    lv = rng.choice(s + [0, min(s) - 1, max(s) + 1, rng.randint(-20, 20)])
    scale, offset = rng.choice(MAPS)
    x = np.array(s, dtype=float) * scale + offset
    rec = {"sig": s, "level": lv}
    for key, kind in (("all", None), ("up", "u"), ("down", "d")):
        rec[key] = quiet(R.findcross, x, lv * scale + offset, kind)[0]
    rec["ext"] = quiet(R.findextrema, x)[0]
    rec["tp"] = quiet(R.findtp, x)[0]
    return rec


def check(chk):
    r = chk.explore("CrossingsMC", f"CrossingsMC_{core.TIER}")
    cases = [
        (s["sig"], s["q"], s["ext"], s["tps"])
        for s in core.read_dump(r.dump) if s["sig"]
    ]
    chk.replay("signals", replay_case, cases, chunk=200)
    recs = chk.record("signals", lambda: make_record(chk.rng), 300 if core.quick else 2000)

    def corrupt():
        base = max(recs[:50], key=lambda x: len(x["all"]))
        wrong = []
        for key in ("all", "up", "down", "ext", "tp"):
            c = copy.deepcopy(base)
            if c[key]:
                c[key][-1] += 1
            else:
                c[key].append(0)
            wrong.append(c)
        return wrong

    chk.replay("missing", missing_case, [(n, k) for n in (100, 700, 5000, 40000)
                                         for k in (0, 1, n // 2, n - 2, n - 1)], chunk=5)
    chk.validate("random-signals", "CrossingsTrace", recs, corrupt)
