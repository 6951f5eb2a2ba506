"""C09: mean stress correction formulas."""

import copy
import datetime as dt
import warnings

import numpy as np

import core
from adapt import Mismatch

SCALES = (1.0, 0.25, 7.3, 1e-3, 1e4, 2.0**-24)
NOW = dt.datetime(2021, 1, 1, tzinfo=dt.timezone.utc)


def signed_power(u, b):
    return (1 if u >= 0 else -1) * abs(u) ** b


def physical(kind, cycles):
    """(mean, amplitude) of the abstract cycles."""
    if kind[0] == "dnv":
        return [m / 2 for _, m in cycles], [r / 2 for r, _ in cycles]
    b = kind[2]
    return ([signed_power(u, b) - v**b for u, v in cycles], [float(v**b) for _, v in cycles])


def run_direct(kind, mean, ampl):
    from py_fatigue.mean_stress import corrections as msc

    if kind[0] == "dnv":
        return msc.dnvgl_mean_stress_correction(mean, ampl, kind[1] / kind[2], False)
    return msc.walker_mean_stress_correction(mean, ampl, kind[1] / kind[2], False)


def run_count(kind, mean, ampl):
    from py_fatigue import CycleCount

    cc = CycleCount.from_rainflow(
        {"range_bin_lower_bound": 0.5, "range_bin_width": 1.0, "mean_bin_lower_bound": -100.0,
         "mean_bin_width": 10.0, "nr_small_cycles": 0, "hist": [], "res": [],
         "lg_c": [[m, 2 * a] for m, a in zip(mean.tolist(), ampl.tolist())]},
        timestamp=NOW,
    )
    if kind[0] == "dnv":
        return cc.mean_stress_correction(detail_factor=kind[1] / kind[2]).stress_range
    if kind[1:] == ("swt",):
        return cc.mean_stress_correction(correction_type="swt").stress_range
    return cc.mean_stress_correction(
        correction_type="walker", gamma=kind[1] / kind[2]).stress_range


def judge(bad, what, kind, cycles, got, want, scale):
    got = np.asarray(got, dtype=float).tolist()
    for c, g, w in zip(cycles, got, want):
        if kind[0] == "dnv" and kind[1] == 3 and c[0] + c[1] == 0 and g == 0:
            continue  # unsettled in the specification
        # a maximum of exactly zero is a matter of rounding unless it is exact
        if kind[0] == "walker" and c[0] == 0 and abs(g) <= 1e-3 * scale * c[1] ** kind[2]:
            continue
        bad.close(f"{what}: cycle {c} of {cycles if len(cycles) < 9 else len(cycles)}", g, w * scale, rtol=1e-7)
    bad.eq(f"{what}: number of ranges", len(got), len(want))


def replay_case(case):
    kind, cycles, out = case
    bad = Mismatch()
    want = [x / 10 for x in out] if kind[0] == "dnv" else list(out)
    mean, ampl = physical(kind, cycles)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for s in SCALES:
            m, a = s * np.array(mean), s * np.array(ampl)
            if s not in (1.0, 0.25, 1e4, 2.0**-24) and any(
                kind[0] == "dnv" and abs(c[1]) == c[0] or kind[0] == "walker" and c[0] <= 0
                for c in cycles
            ):
                continue  # rounding would decide which side of zero they are on
            m0, a0 = m.copy(), a.copy()
            judge(bad, f"{kind} scaled by {s}", kind, cycles, run_direct(kind, m, a), want, s)
            bad.eq("means after the call", m.tolist(), m0.tolist())
            bad.eq("amplitudes after the call", a.tolist(), a0.tolist())
            if np.any(m != 0):
                judge(bad, f"{kind} of a count scaled by {s}", kind, cycles,
                      run_count(kind, m, a), want, s)
            if kind == ("walker", 1, 2):
                from py_fatigue.mean_stress import corrections as msc

                judge(bad, f"swt scaled by {s}", kind, cycles,
                      msc.swt_mean_stress_correction(m, a, False), want, s)
                if np.any(m != 0):
                    judge(bad, f"swt of a count scaled by {s}", kind, cycles,
                          run_count(("walker", "swt"), m, a), want, s)
            if bad:
                break
    return bad


def refusal_case(p):
    from py_fatigue.mean_stress import corrections as msc

    bad = Mismatch()
    m, a = np.array([1.0, -3.0, 2.0]), np.array([2.0, 2.0, 1.0])
    bad.raises(f"detail factor {p}", ValueError,
               lambda: msc.dnvgl_mean_stress_correction(m, a, p, False))
    bad.raises(f"detail factor {p} of a count", ValueError,
               lambda: run_count(("dnv", p, 1), m, a))
    return bad


def random_record(rng):
    from py_fatigue.mean_stress import corrections as msc

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        k = rng.randint(1, 60)
        cyc = [[rng.randint(1, 200), rng.choice([1, 20]) * rng.randint(-10, 10)
                + rng.randint(-3, 3)] for _ in range(k)]
        rng.shuffle(cyc)
        m = np.array([c[1] / 2 for c in cyc])
        a = np.array([c[0] / 2 for c in cyc])
        how = rng.randrange(3)
        if how < 2:
            p = (3, 4)[how]
            out = msc.dnvgl_mean_stress_correction(m, a, p / 5, False)
            return {"kind": "dnv", "p": p, "cycles": cyc,
                    "out": [near_int(10 * x) for x in out.tolist()]}
        out = (msc.swt_mean_stress_correction(m, a, False) if rng.random() < 0.5
               else msc.walker_mean_stress_correction(m, a, 0.5, False))
        return {"kind": "swt", "p": 0, "cycles": cyc,
                "out": [round(100 * x) if x == x else -1 for x in out.tolist()]}


def near_int(x):
    return round(x) if x == x and abs(x - round(x)) < 1e-6 * max(1, abs(x)) else 2**30


def check(chk):
    r = chk.explore("MeanStressMC", f"MeanStressMC_{core.TIER}")
    cases = [(st["kind"], st["cycles"], st["out"])
             for st in core.read_dump(r.dump) if st["cycles"]]
    chk.replay("cycles", replay_case, cases, chunk=100)
    joint = {}
    for kind, cycles, out in cases:
        joint.setdefault(kind, ([], []))
        joint[kind][0].extend(cycles)
        joint[kind][1].extend(out)
    chk.replay("long lists", replay_case,
               [(kind, c[:9000], o[:9000]) for kind, (c, o) in joint.items()], chunk=1)
    chk.replay("refusals", refusal_case, [0.7, 1.0, 0.0, 0.9, 0.79, -0.6, 5.0], chunk=1)
    recs = chk.record("cycles", lambda: random_record(chk.rng), 100 if core.quick else 1000)

    def corrupt():
        wrong = []
        for r_ in (recs[0], recs[1], next(x for x in recs if x["kind"] == "swt")):
            c = copy.deepcopy(r_)
            c["out"][len(c["out"]) // 2] += 5
            wrong.append(c)
            c = copy.deepcopy(r_)
            c["out"].pop()
            wrong.append(c)
        return wrong

    chk.validate("random-cycles", "MeanStressTrace", recs, corrupt)
