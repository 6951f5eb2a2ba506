"""C17: crack growth of clustered cycles."""

import core
import crack
import damage
from adapt import Mismatch


def refusal_case(_):
    from py_fatigue.geometry import Cylinder, HollowCylinder
    from py_fatigue.damage.crack_growth import get_crack_growth

    bad = Mismatch()
    es = ((3, 2), (5, 6), (1, 1))
    geo = crack.surface(1.0)
    inner = HollowCylinder(initial_depth=1.0, outer_diameter=100.0, thickness=10.0,
                           height=100.0, crack_position="internal")
    full = Cylinder(initial_depth=1.0, diameter=100.0, height=100.0)
    ok = crack.curve(1, 1.0, 1.0)
    for fast in (False, True):
        for g in (inner, full):
            cc = damage.count(es, 1.0)
            bad.raises(f"{type(g).__name__}", (ValueError, NotImplementedError),
                       lambda: get_crack_growth(cc, ok, g, express_mode=fast))
            bad.raises(f"{type(g).__name__} in a table", (ValueError, NotImplementedError),
                       lambda: cc.to_df().cg.calc_growth(ok, g, express_mode=fast))
        for u1, u2 in (("MPa", "kPa √mm"), ("kPa", "MPa √mm"), ("ksi", "MPa √m"),
                       ("Pa", "MPa √mm"), ("MPa", "Pa √m"), ("MPa", "ksi √in")):
            cc = damage.count(es, 1.0, unit=u1)
            pc = crack.curve(1, 1.0, 1.0, unit=u2)
            bad.raises(f"count in {u1}, curve in {u2}", ValueError,
                       lambda: get_crack_growth(cc, pc, geo, express_mode=fast))
            bad.raises(f"table in {u1}, curve in {u2}", ValueError,
                       lambda: cc.to_df().cg.calc_growth(pc, geo, express_mode=fast))
        for u1, u2 in (("MPa", "MPa √m"), ("kPa", "kPa √mm"), ("ksi", "ksi √in")):
            cc = damage.count(es, 1.0, unit=u1)
            pc = crack.curve(1, 1.0, 1.0, unit=u2)
            get_crack_growth(cc, pc, geo, express_mode=fast)
            cc.to_df().cg.calc_growth(pc, geo, express_mode=fast)
    return bad


def check(chk):
    crack.explore(chk, "split")
    crack.runs(chk)
    chk.replay("long lists", crack.long_case,
               [(chk.rng.getrandbits(30), k % 2 == 1, True) for k in range(6)], chunk=1)
    chk.replay("refusals", refusal_case, [0], chunk=1)
    crack.validate(chk, 200 if core.quick else 2000, fast=True)
