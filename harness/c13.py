"""C13: equivalent stress and moment, Gassner shift."""

import math

import numpy as np

import core
import damage
from adapt import Mismatch

TUBES = ((2, 1), (3, 0), (5, 4), (3.1, 3.0))
BAD_TUBES = ((1, 2), (2, 2), (0.5, 0.6))


def replay_case(txt):
    from py_fatigue.damage import stress_life as sl

    k, es, sums, shift = (core.tla_value(x) for x in txt)
    bad = Mismatch()
    u = damage.scale_of(es)
    root = damage.root_of(es)
    stress, cyc = damage.arrays(es, u, root)
    cc = damage.count(es, u, root=root)
    for m in range(1, 6):
        neq = (1e7, 2.0, 1e3, 5e6, 1.0)[(m + k) % 5]
        want = u * (sums[m - 1] / 2 / neq) ** (root / m)
        slope = m / root if m % 2 or root != 1 else m
        kw = {} if neq == 1e7 else {"equivalent_cycles": neq}
        bad.close(f"equivalent stress, slope {slope}, {neq} cycles",
                  sl.calc_des(stress, cyc, slope, **kw), want)
        bad.close("of lists", sl.calc_des(stress.tolist(), cyc.tolist(), slope, **kw), want)
        bad.close("of a count", sl.get_des(cc, slope, **kw), want)
        bad.close("of a table", damage.table(cc, m + 1).miner.des(slope, **kw), want)
        # doing the same damage
        sn = damage.curve([(m, 1000)], 0, u, root=root)
        if sums[m - 1]:
            bad.close("damage of the equivalent stress",
                      float(np.sum(sl.calc_pm(sl.calc_des(stress, cyc, slope, **kw), neq, sn))),
                      float(np.sum(sl.calc_pm(stress, cyc, sn))), rtol=1e-8)
        ro, ri = TUBES[(m + k) % 4]
        moment = math.pi / 4 * (ro**4 - ri**4) / ro * 1e6 * want
        bad.close(f"moment of tube {ro}, {ri}", sl.calc_dem(ro, ri, stress, cyc, slope, **kw),
                  moment)
        bad.close("of a count", sl.get_dem(ro, ri, cc, slope, **kw), moment)
        bad.close("of a table", cc.to_df().miner.dem(ro, ri, slope, **kw), moment)
        # one table asked again and again
        df = cc.to_df()
        for n in (neq, 3.0, None, neq):
            more = {} if n is None else {"equivalent_cycles": n}
            f = (neq / (n or 1e7)) ** (root / m)
            bad.close(f"moment of the same table, {n} cycles", df.miner.dem(ro, ri, slope, **more),
                      moment * f)
            bad.close(f"stress of the same table, {n} cycles", df.miner.des(slope, **more),
                      want * f)
        if shift:
            df = damage.table(cc, m).gassner.g(sn)
            bad.close(f"Gassner shift, slope {m}", float(df["shift_factor"].sum()),
                      shift[m - 1][0] / shift[m - 1][1])
            bad.seq("Gassner shift by entry", df["shift_factor"],
                    [n * s**m / shift[m - 1][1] for s, n in es])
        if bad:
            break
    if len(es) == 1:
        for ro, ri in BAD_TUBES:
            bad.raises(f"tube {ro}, {ri}", ValueError, lambda: sl.calc_dem(ro, ri, stress, cyc, 3))
            bad.raises(f"tube {ro}, {ri}", ValueError, lambda: sl.get_dem(ro, ri, cc, 3))
            bad.raises(f"tube {ro}, {ri}", ValueError, lambda: cc.to_df().miner.dem(ro, ri, 3))
        for j in (2, 3, 5):
            sn = damage.curve(*damage.TABLE[j], u)
            bad.raises("Gassner shift on a multi-slope curve", (AssertionError, ValueError),
                       lambda: cc.to_df().gassner.g(sn))
    return bad


def copies_case(txt):
    """Every entry k times: k times the sums, the same shift."""
    from py_fatigue.damage import stress_life as sl

    _, es, sums, shift = (core.tla_value(x) for x in txt)
    bad = Mismatch()
    k = 1700
    u, root = damage.scale_of(es), damage.root_of(es)
    es = [e for e in es for _ in range(k)]
    stress, cyc = damage.arrays(es, u, root)
    cc = damage.count(es, u, root=root)
    for m in range(1, 6):
        want = u * (k * sums[m - 1] / 2 / 1e5) ** (root / m)
        slope = m / root
        for what, got in (("arrays", sl.calc_des(stress, cyc, slope, 1e5)),
                          ("count", sl.get_des(cc, slope, 1e5)),
                          ("table", cc.to_df().miner.des(slope, 1e5))):
            bad.close(f"equivalent stress of {len(es)} entries, {what}, slope {slope}", got, want)
        bad.close("moment", sl.get_dem(2, 1, cc, slope, 1e5), math.pi / 4 * 15 / 2 * 1e6 * want)
        if shift:
            df = cc.to_df().gassner.g(damage.curve([(m, 1000)], 0, u, root=root))
            bad.close(f"Gassner shift of {len(es)} entries, slope {m}",
                      float(df["shift_factor"].sum()), shift[m - 1][0] / shift[m - 1][1])
    return bad


def check(chk):
    r = chk.explore("DamageMC", f"DamageMC_{core.TIER}")
    names = ("k", "es", "sums", "shift")
    cases = [tuple(st[n] for n in names) for st in core.read_dump(r.dump, names, raw=names)
             if st["es"] != "<<>>" and int(st["k"]) <= 2]
    chk.replay("counts", replay_case, cases)
    chk.replay("copies", copies_case, chk.rng.sample(cases, 24 if core.quick else 200), chunk=3)
    damage.validate(chk, 300 if core.quick else 3000)
