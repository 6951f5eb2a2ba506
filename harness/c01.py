"""C01: rainflow counting reports exactly the ASTM loops."""

import copy

import numpy as np

import core
import rf
from adapt import Mismatch


def rows_of(rows, scale, offset):
    """Specified rows as floats [ampl, mean, count, begin, period]."""
    a = abs(scale)
    return [
        [r[0] * a / 2, r[1] * scale / 2 + offset, r[2] / 2, r[3], r[4]]
        for r in rows
    ]


def replay_case(case):
    """Count one signal through every public route."""
    from py_fatigue import CycleCount
    from py_fatigue.cycle_count import rainflow as R

    sig, rows, _ = case
    bad = Mismatch()
    for scale, offset in rf.MAPS:
        x = np.array(sig, dtype=float) * scale + offset
        want = rows_of(rows, scale, offset)
        got = np.asarray(R.rainflow(x, extended_output=False)).tolist()
        bad.eq(f"rainflow({x.tolist()})", got, want)
        if bad:
            return bad
    want = rows_of(rows, 1, 0)
    x = np.array(sig, dtype=float)
    before = x.copy()
    bad.eq("rainflow of a list of floats", R.rainflow([float(v) for v in sig])[0].tolist(), want)
    bad.eq("rainflow of a list of ints", R.rainflow(list(sig))[0].tolist(), want)
    for big in (np.array(sig) * 2**40 + 1, [int(v) * 2**40 + 1 for v in sig]):
        bad.eq("rainflow of large ints", R.rainflow(big)[0].tolist(), rows_of(rows, 2**40, 1))
    bad.eq("rainflow of an int array", R.rainflow(np.array(sig))[0].tolist(), want)
    bad.eq("rainflow with times",
           R.rainflow(x, time=[0.1 * i for i in range(len(sig))])[0].tolist(), want)
    tp = R.findtp(x)
    bad.eq("counting turning points without times",
           R.findrfc_astm(x[tp]).tolist(), [w[:3] for w in want])
    for kw in ({}, {"time": np.arange(len(sig))}):
        cc = CycleCount.from_timeseries(x, mean_bin_width=1, **kw)
        bad.eq("ranges of the count", np.asarray(cc.stress_range).tolist(), [2 * w[0] for w in want])
        bad.eq("means of the count", np.asarray(cc.mean_stress).tolist(), [w[1] for w in want])
        bad.eq("counts of the count", np.asarray(cc.count_cycle).tolist(), [w[2] for w in want])
    bad.eq("input signal after counting", x.tolist(), before.tolist())
    return bad


def same(bad, what, got, want):
    """Compare long arrays, telling only the first difference."""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        bad.eq(f"{what}: shape", got.shape, want.shape)
    elif not np.array_equal(got, want):
        i = int(np.nonzero((got != want).reshape(len(got), -1).any(axis=1))[0][0])
        bad.eq(f"{what}: row {i}", got[i].tolist(), want[i].tolist())


def replay_law(case):
    """Count a short signal stretched, and repeated, to great length."""
    from py_fatigue import CycleCount
    from py_fatigue.cycle_count import rainflow as R

    sig, out, third, fourth, k, length = case
    bad = Mismatch()
    x = rf.stretch(sig, k)
    want = [w[:3] + [w[3] * k, w[4] * k] for w in rows_of(out["rows"], 1, 0)]
    same(bad, f"{len(x)} samples", R.rainflow(x, extended_output=False), want)
    cc = CycleCount.from_timeseries(x, time=np.arange(len(x)), mean_bin_width=1)
    same(bad, f"ranges of {len(x)} samples", cc.stress_range, [2 * w[0] for w in want])
    n = rf.repetitions(sig, length)
    x = np.tile(np.array(sig, dtype=float), n)
    rows = np.asarray(R.rainflow(x, extended_output=False))
    law = rf.repeated_bag(third, fourth, n) / 2
    same(bad, f"{n} repetitions", rf.bag(rows), rf.bag(law))
    first, second = rows[:, 3], rows[:, 3] + rows[:, 4] / 2
    if not np.all((first >= 0) & (second > first) & (second < len(x))):
        bad.append(f"{n} repetitions: positions outside of the signal")
    else:
        a, b = x[first.astype(int)], x[second.astype(int)]
        same(bad, f"{n} repetitions, samples of the rows", rows[:, :2],
             np.array([abs(a - b) / 2, (a + b) / 2]).T)
    cc = CycleCount.from_timeseries(x, mean_bin_width=1)
    same(bad, f"count of {n} repetitions",
         rf.bag(np.array([cc.stress_range, cc.mean_stress, cc.count_cycle]).T),
         rf.bag(law * [2, 1, 1]))
    return bad


def records(chk, n, length, full=False):
    """Counts of random longer signals, recorded from the real code."""
    out = []
    while len(out) < n:
        s = rf.random_signal(chk.rng, chk.rng.randint(2, length))
        if not rf.countable(s):
            continue
        scale, offset = chk.rng.choice(rf.MAPS)
        if chk.rng.random() < 0.2:
            s, scale = rf.fine_signal(chk.rng, min(len(s), 150)), None
            if not rf.countable(s):
                continue
        try:
            rec = rf.record(
                s, scale, offset, chk.rng.choice(["array", "list"]),
                chk.rng.random() < 0.5,
            )
            if full:
                rec["again"] = recount([v for v, _ in rec["res"]])
        except Exception as exc:  # pylint: disable=broad-except
            chk.fail("recording", {"sig": s, "scale": scale, "offset": offset},
                     [f"{type(exc).__name__}: {exc}"])
            if len(chk.bad) > 5:
                break
            continue
        out.append(rec)
    return out


def recount(res):
    """Count the residual sequence again."""
    from py_fatigue.cycle_count import rainflow as R

    rfs, rv, _ = R.rainflow(np.array(res, dtype=float))
    return {
        "rows": [[rf.as_int(2 * r[0]), rf.as_int(2 * r[1]), rf.as_int(2 * r[2])] for r in rfs],
        "res": [rf.as_int(v) for v in rv],
    }


def corruptions(rng, rec):
    """Wrong copies of a record."""
    out = []
    for col in range(5):
        c = copy.deepcopy(rec)
        row = rng.choice(c["rows"])
        row[col] += 1 if col != 2 else (1 if row[2] == 1 else -1)
        out.append(c)
    c = copy.deepcopy(rec)
    c["rows"].pop()
    out.append(c)
    c = copy.deepcopy(rec)
    c["rows"].append([0, 0, 0, 0, 0])
    out.append(c)
    return out


def check(chk):
    cases = rf.signals(chk)
    chk.replay("signals", replay_case, cases, chunk=400)
    chk.replay("great-length", replay_law, rf.laws(chk, 150 if core.quick else 1500), chunk=10)
    recs = records(chk, 60 if core.quick else 300, 150 if core.quick else 400)
    recs += records(chk, 2 if core.quick else 6, 1500)
    if recs:
        chk.validate("long-signals", "RainflowTrace", recs,
                     lambda: corruptions(chk.rng, max(recs[:20], key=lambda r: len(r["rows"]))),
                     env_extra={"PROP": "C01"})
