"""C02: residuals are the exact unclosed remainder of the signal."""

import copy

import numpy as np

import c01
import core
import rf
from adapt import Mismatch


def replay_case(case):
    from py_fatigue import CycleCount
    from py_fatigue.cycle_count import rainflow as R

    sig, rows, res = case
    bad = Mismatch()
    idx = [p[1] for p in res]
    turn = sum(sig) + len(sig)
    for scale, offset in rf.MAPS[:1] + [rf.MAPS[1 + (turn + 2 * j) % 9] for j in range(3)]:
        x = np.array(sig, dtype=float) * scale + offset
        val = [p[0] * scale + offset for p in res]
        t = rf.clock(len(sig))
        for kw in ({}, {"time": t}, {"time": t.tolist()}):
            out = R.rainflow(x, **kw)
            bad.eq("number of outputs", len(out), 4 if kw else 3)
            bad.eq("residual values", np.asarray(out[1]).tolist(), val)
            bad.eq("residual indices", np.asarray(out[2]).tolist(), idx)
            if kw:
                bad.eq("residual times", np.asarray(out[3]).tolist(), [t[i] for i in idx])
        half = [r for r in rows if r[2] == 1]
        again, rv, _ = R.rainflow(np.array(val))
        bad.eq("recounted half cycles", again[:, :3].tolist(),
               [[abs(scale) * r[0] / 2, scale * r[1] / 2 + offset, 0.5] for r in half])
        bad.eq("residuals of the residuals", np.asarray(rv).tolist(), val)
        cc = CycleCount.from_timeseries(x, mean_bin_width=1)
        bad.eq("residuals of the count", np.asarray(cc.residuals_sequence).tolist(), val)
        want = [[scale * r[1] / 2 + offset, abs(scale) * r[0]] for r in half]
        bad.eq("half cycles of the count", np.asarray(cc.half_cycles).tolist(), want)
        bad.eq("residual cycles of the count", np.asarray(cc.residuals).tolist(), want)
        full = [[scale * r[1] / 2 + offset, abs(scale) * r[0]] for r in rows if r[2] == 2]
        bad.eq("full cycles of the count", np.asarray(cc.full_cycles).reshape(-1, 2).tolist(), full)
        mm = np.asarray(cc.min_max_sequence).tolist()
        bad.eq("min and max of the residuals", mm, [min(val), max(val)])
        if bad:
            return bad
    lst = R.rainflow(list(sig))
    bad.eq("residuals of a list", np.asarray(lst[1]).tolist(), [p[0] for p in res])
    return bad


def replay_law(case):
    """Residuals of a short signal stretched, and repeated, to great length."""
    from py_fatigue import CycleCount
    from py_fatigue.cycle_count import rainflow as R

    sig, out, third, fourth, k, length = case
    bad = Mismatch()
    x = rf.stretch(sig, k)
    val, idx = zip(*out["res"])
    idx = [i * k for i in idx]
    for kw in ({}, {"time": rf.clock(len(x))}):
        got = R.rainflow(x, **kw)
        c01.same(bad, f"residuals of {len(x)} samples", got[1], val)
        c01.same(bad, f"indices of {len(x)} samples", got[2], idx)
        if kw:
            c01.same(bad, f"times of {len(x)} samples", got[3], rf.clock(len(x))[idx])
    n = rf.repetitions(sig, length)
    x = np.tile(np.array(sig, dtype=float), n)
    _, val, idx = R.rainflow(x)
    want = rf.repeated_residual(third, fourth, n)
    c01.same(bad, f"residuals of {n} repetitions", val, want)
    idx = np.asarray(idx)
    if len(idx) and (idx.min() < 0 or idx.max() >= len(x) or np.any(np.diff(idx) <= 0)):
        bad.append(f"indices of {n} repetitions are not those of samples in order")
    else:
        c01.same(bad, f"samples at the indices of {n} repetitions", x[idx.astype(int)], want)
    cc = CycleCount.from_timeseries(x, mean_bin_width=1)
    c01.same(bad, f"residuals of the count of {n} repetitions", cc.residuals_sequence, want)
    c01.same(bad, f"half cycles of {n} repetitions", cc.half_cycles,
             np.array([(np.array(want)[1:] + np.array(want)[:-1]) / 2,
                       np.abs(np.diff(want))]).T)
    return bad


def corruptions(rng, rec):
    out = []
    for col in (0, 1):
        c = copy.deepcopy(rec)
        rng.choice(c["res"])[col] += 1
        out.append(c)
    c = copy.deepcopy(rec)
    c["times"][0] += 1
    out.append(c)
    c = copy.deepcopy(rec)
    c["again"]["rows"].pop()
    out.append(c)
    c = copy.deepcopy(rec)
    c["again"]["res"][-1] += 1
    out.append(c)
    c = copy.deepcopy(rec)
    c["res"].pop()
    out.append(c)
    return out


def check(chk):
    cases = rf.signals(chk)
    chk.replay("signals", replay_case, cases, chunk=400)
    chk.replay("great-length", replay_law, rf.laws(chk, 150 if core.quick else 1500), chunk=10)
    recs = c01.records(chk, 60 if core.quick else 300, 150 if core.quick else 400, full=True)
    recs += c01.records(chk, 2 if core.quick else 6, 1500, full=True)
    if recs:
        chk.validate("long-signals", "RainflowTrace", recs,
                     lambda: corruptions(chk.rng, max(recs[:20], key=lambda r: len(r["res"]))),
                     env_extra={"PROP": "C02"})
