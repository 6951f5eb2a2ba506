"""C10: protocol of the mean stress correction."""

import warnings

import numpy as np

import c05
import core
import counts
import ctrace
import rf
from adapt import Mismatch

CLAUSES = counts.ALL
TYPES = [
    ("dnvgl-rp-c203", {"detail_factor": 0.8}),
    ("DNVGL-RP-C203", {"detail_factor": 0.6}),
    ("walker", {"gamma": 0.3}),
    ("Walker", {"gamma": 0.5}),
    ("swt", {}),
    ("smith-watson-topper", {}),
]
KEPT = counts.META + ("res", "mm", "bins")

replay_history = counts.Replay({"correct": CLAUSES}, after=CLAUSES)


def direct(kind, kw, mean, ampl):
    """The correction of single cycles."""
    from py_fatigue import mean_stress as ms
    from py_fatigue.mean_stress import corrections as msc

    k = kind.lower()
    if k.startswith("dnv"):
        return msc.dnvgl_mean_stress_correction(mean, ampl, kw["detail_factor"], False)
    if k == "walker":
        return msc.walker_mean_stress_correction(mean, ampl, kw["gamma"], False)
    return msc.swt_mean_stress_correction(mean, ampl, False)


def protocol_case(st):
    """All corrections on every count of a history."""
    bad = Mismatch()
    spec = counts.abstract(st)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pool = [counts.build(o, a) for o, a in zip(counts.ORIGIN[st["cfg"]], spec)]
        for op in st["hist"]:
            if st["stop"] and op is st["hist"][-1]:
                break
            pool.append(counts.apply(pool, op))
    for i, (c, a) in enumerate(zip(pool, spec)):
        if a["corr"] == "?":
            continue
        for kind, kw in TYPES:
            one_correction(bad, f"{kind}{kw} of count {i + 1} of {list(st['hist'])}",
                           c, a, kind, kw)
            if bad:
                return bad
        for kind in ("goodman", "", "dnv", "no"):
            bad.raises(f"correction {kind!r}", ValueError,
                       lambda k=kind: c.mean_stress_correction(correction_type=k))
        counts.compare(bad, f"count {i + 1} of {list(st['hist'])} after all corrections", c, a)
    return bad


def one_correction(bad, what, c, a, kind, kw):
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        if a["corr"] != "No":
            r = c.mean_stress_correction(correction_type=kind, **kw)
            if not any("already been corrected" in str(w.message) for w in got):
                bad.append(f"{what}: no warning about the earlier correction")
            counts.compare(bad, f"{what}, corrected before", r, a)
            return
        solved = c.solve_lffd()
        zero = not np.any(np.asarray(solved.mean_stress))
        if zero:
            bad.raises(f"{what} without means", ValueError,
                       lambda: c.mean_stress_correction(correction_type=kind, **kw))
        mean = np.array(solved.mean_stress, dtype=float)
        ampl = np.array(solved.stress_range, dtype=float) / 2
        if zero:
            mean = ampl.copy()
        enf = {"enforce_pulsating_load": True} if zero else {}
        r = c.mean_stress_correction(correction_type=kind, **kw, **enf)
        want = np.asarray(direct(kind, kw, mean, ampl), dtype=float)
        bad.seq(f"{what}: ranges", np.asarray(r.stress_range).tolist(), want.tolist())
        bad.seq(f"{what}: counts", np.asarray(r.count_cycle).tolist(),
                np.asarray(solved.count_cycle).tolist())
        bad.seq(f"{what}: means", np.asarray(r.mean_stress).tolist(),
                (want / 2 if kind.lower().startswith("dnv") else 0 * want).tolist())
        wa = dict(a, solved=bool(solved.lffd_solved),
                  res=counts.floats(solved.residuals_sequence),
                  mm=counts.floats(solved.min_max_sequence))
        counts.compare(bad, what, r, wa, KEPT + ("solved",))
        label = str(r.mean_stress_corrected)
        if kind.upper() not in label or any(str(v) not in label for v in kw.values()):
            bad.append(f"{what}: label {label!r}")
        # a second correction of any kind
        for k2, kw2 in TYPES[::2]:
            with warnings.catch_warnings(record=True) as got2:
                warnings.simplefilter("always")
                r2 = r.mean_stress_correction(correction_type=k2, **kw2)
            if not got2:
                bad.append(f"{what}: corrected again without a warning")
            if not r2 == r:
                bad.append(f"{what}: changed by a second correction {k2}")
        # resolving afterwards must not make the count correctable again
        r3 = r.solve_lffd()
        bad.eq(f"{what}: label after resolving", str(r3.mean_stress_corrected), label)


def scaled_case(case):
    """Correcting a count in another unit of stress is correcting the count."""
    i, sig, f = case
    bad = Mismatch()
    a = {"rlb": 1, "rbw": 2, "mlb": -50, "mbw": 5, "ts": 0, "unit": "MPa", "name": "x"}
    kind, kw = TYPES[i % len(TYPES)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x = counts.from_signal(sig, a)
        if not np.any(np.asarray(x.solve_lffd().mean_stress)):
            kw = dict(kw, enforce_pulsating_load=True)
        x = x.mean_stress_correction(correction_type=kind, **kw)
        y = counts.from_signal([f * v for v in sig], a).mean_stress_correction(
            correction_type=kind, **kw)
        for q in ("count_cycle", "stress_range", "mean_stress"):
            g = 1 if q == "count_cycle" else f
            bad.seq(f"{kind}{kw} of the count of {f} * {sig}: {q}", counts.floats(getattr(y, q)),
                    [g * v for v in counts.floats(getattr(x, q))], rtol=1e-9, atol=1e-12 * f)
    return bad


def check(chk):
    sts = counts.histories(chk)
    chk.replay("histories", replay_history, sts, chunk=100)
    some = sts if len(sts) < 600 else chk.rng.sample(sts, 250 if core.quick else 1500)
    chk.replay("protocol", protocol_case, some, chunk=10)
    cases = []
    while len(cases) < (300 if core.quick else 3000):
        s = rf.random_signal(chk.rng, chk.rng.randint(2, 40))
        if rf.countable(s):
            cases.append((len(cases), s, 2.0 ** chk.rng.choice([-40, -24, -12, 8, 24])))
    chk.replay("many", c05.many_case, [30, 80], chunk=1)
    chk.replay("units", scaled_case, cases, chunk=30)
    ctrace.validate(
        chk, "C10", ["add", "mul", "solve", "correct", "correct"], ("correct",),
        80 if core.quick else 500,
        ("rows", "drop", "res", "rlb", "mlb", "small", "times", "unit", "corr", "refuse", "after"),
    )
