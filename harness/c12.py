"""C12: Palmgren-Miner damage through every route."""

import datetime as dt
import itertools

import numpy as np
import pandas as pd

import core
import damage
from adapt import Mismatch


def replay_case(txt):
    from py_fatigue.cycle_count.utils import calc_aggregated_damage
    from py_fatigue.damage import stress_life as sl

    k, es, dmg = (core.tla_value(x) for x in txt)
    bad = Mismatch()
    segs, ne = damage.TABLE[k]
    u = damage.scale_of(es)
    root = damage.root_of(es)
    strong = damage.strength_of(es)
    sn = damage.curve(segs, ne, u, root=root, strength=strong)
    want = [x / (2 * segs[-1][1]) / strong for x in dmg]
    stress, cyc = damage.arrays(es, u, root)
    cc = damage.count(es, u, root=root)
    bad.seq("direct function", sl.calc_pm(stress, cyc, sn), want, rtol=1e-8, atol=0)
    bad.seq("direct function on lists", sl.calc_pm(stress.tolist(), cyc.tolist(), sn), want,
            rtol=1e-8, atol=0)
    bad.seq("function on counts", sl.get_pm(cc, sn), want, rtol=1e-8, atol=0)
    df = damage.table(cc, sum(map(sum, es))).miner.damage(sn)
    bad.seq("table accessor", df["pm_damage"], want, rtol=1e-8, atol=0)
    bad.seq("cycles to failure", df["cycles_to_failure"],
            [n / 2 / w if w else float("inf") for (_, n), w in zip(es, want)], rtol=1e-8, atol=0)
    bad.seq("stress in the table", df["stress_range"], stress)
    bad.seq("count in the table", df["count_cycle"], cyc)
    bad.seq("stress after all", cc.stress_range, stress)
    bad.seq("count after all", cc.count_cycle, cyc)
    if len(es) == 1:
        bad.seq("scalars", np.ravel(sl.calc_pm(float(stress[0]), float(cyc[0]), sn)), want,
                rtol=1e-8, atol=0)
    if len(es) == 3:
        # adding counts adds damages; tables of counts give the sums
        a = damage.count(es[:1], u, root=root)
        b = damage.count(es[1:], u, stamp=damage.NOW + dt.timedelta(hours=1), root=root)
        bad.close("sum of two counts", float(np.sum(sl.get_pm(a + b, sn))), sum(want),
                  rtol=1e-8, atol=0)
        table = pd.DataFrame({"CC_x": [cc, None], "CC_y": [a, b], "other": [1.0, 2.0]},
                             index=pd.date_range("2021-01-01", periods=2, freq="D"))
        got = calc_aggregated_damage(table, sn)
        bad.seq("aggregated damage", got["CC_x"], [sum(want), 0.0], rtol=1e-8, atol=0)
        bad.seq("aggregated damage", got["CC_y"], [want[0], sum(want[1:])], rtol=1e-8, atol=0)
    return bad


def refusal_case(case):
    from py_fatigue.cycle_count.utils import calc_aggregated_damage
    from py_fatigue.damage import stress_life as sl

    u1, u2 = case
    bad = Mismatch()
    es = ((3, 2), (5, 1))
    sn = damage.curve([(3, 1000)], 0, 1.0, unit=u2)
    cc = damage.count(es, 1.0, unit=u1)
    table = pd.DataFrame({"CC_x": [cc]}, index=pd.date_range("2021-01-01", periods=1))
    routes = {
        "function on counts": lambda: sl.get_pm(cc, sn),
        "table accessor": lambda: cc.to_df().miner.damage(sn)["pm_damage"],
        "aggregated damage": lambda: calc_aggregated_damage(table, sn)["CC_x"],
    }
    want = [2 * 27 / 2000, 125 / 2000]
    for name, f in routes.items():
        if u1 != u2:
            bad.raises(f"{name}, count in {u1}, curve in {u2}", ValueError, f)
        else:
            bad.close(f"{name}, both in {u1}", float(np.sum(f())), sum(want))
    # derived counts stay known in their unit
    for name, x in (("scaled", cc * 1), ("sum", cc + damage.count(
            es, 1.0, unit=u1, stamp=damage.NOW + dt.timedelta(hours=1)))):
        if u1 != u2:
            bad.raises(f"{name} count in {u1}, curve in {u2}", ValueError,
                       lambda: sl.get_pm(x, sn))
    bad.raises("different lengths", ValueError,
               lambda: sl.calc_pm(np.array([1.0, 2.0]), np.array([1.0]), sn))
    return bad


def check(chk):
    r = chk.explore("DamageMC", f"DamageMC_{core.TIER}")
    names = ("k", "es", "dmg")
    cases = [tuple(st[n] for n in names) for st in core.read_dump(r.dump, names, raw=names)
             if st["es"] != "<<>>"]
    chk.replay("counts", replay_case, cases)
    chk.replay("units", refusal_case,
               list(itertools.product(("MPa", "kPa", "Pa", "GPa", "mPa", "N/mm2", "ksi", "psi"),
                                      repeat=2)), chunk=2)
    chk.replay("long lists", replay_case, damage.joined(cases, chk.rng, (0,), (1, 2)), chunk=1)
    damage.validate(chk, 300 if core.quick else 3000)
