"""C21: crack geometries accept exactly the bodies that exist, and cracks on
hollow cylinders grow by the net section."""

import copy
import math
import zlib

import numpy as np

import core
import crack
from adapt import Mismatch

NOT_NUMBERS = (math.nan, "x", None, [1.0])
# sizes of outer radius and stress
SCALES = (1000.0, 37.5, 0.25)


def pick(key, choices):
    return choices[zlib.crc32(repr((core.SEED, key)).encode()) % len(choices)]


def first_step(geo, stress, pc):
    return crack.grow([stress, stress], [1.0, 1.0], pc, geo)


def factor_case(case):
    from py_fatigue import ParisCurve

    (depth, thickness, ratio, factor), size, stress, square = case
    bad = Mismatch()
    base = pick(case, SCALES) / 1000
    unit = base * size
    amp = pick(case[0], (1.0, 24.0, 160.0))
    a = depth * unit
    # a slope of two and a rate that moves the crack by about a hundredth
    rate = 0.01 * unit / (math.pi * amp**2 * unit)
    pc = ParisCurve(slope=2.0, intercept=rate, unit_string="MPa √mm")
    what = f"depth {depth}, thickness {thickness}, ratio {ratio}, size {size}"
    ring = crack.cylinder(a, outer_diameter=2000 * unit, thickness=thickness * unit,
                          height=3 * unit, width_to_depth_ratio=ratio / 100)
    got = first_step(ring, amp * stress, pc)
    flat = first_step(crack.surface(a), amp * stress, pc)
    f = factor / 1e6
    bad.close(f"factor, {what}", got.geometry_factor[0], f, 0, 1e-6)
    k2 = math.pi * amp**2 * base * square
    bad.close(f"squared intensity, {what}", got.sif[0] ** 2, f * f * k2, 4e-6)
    bad.close(f"squared intensity on a surface, {what}", flat.sif[0] ** 2, k2)
    if len(got.crack_depth) > 1:
        bad.close(f"growth, {what}", got.crack_depth[1] - a, rate * f * f * k2, 4e-6, 1e-9 * a)
    return bad


def number(x, key):
    return pick(key, NOT_NUMBERS) if x == 99 else pick(key, (float, int))(x)


def body_case(case):
    from py_fatigue.geometry import Cylinder, HollowCylinder, InfiniteSurface

    kind, body, ok = case[0], dict(case[1]), case[2]
    bad = Mismatch()
    val = {k: v if k == "where" else number(v, (case, k)) for k, v in body.items()}
    kw = {"initial_depth": val["depth"]}
    cls = InfiniteSurface
    if kind != "surface":
        cls = Cylinder
        kw["height"] = val["height"]
        kw["diameter"] = val["diameter"]
    if kind == "hollow":
        cls = HollowCylinder
        kw["outer_diameter"] = kw.pop("diameter")
        kw["thickness"], kw["crack_position"] = val["thickness"], val["where"]
        if body["ratio"] != 2 or pick(case, (True, False)):
            kw["width_to_depth_ratio"] = val["ratio"]
    if ok == "no":
        bad.raises(f"{kind} {kw}", ValueError, lambda: cls(**kw))
    elif ok == "yes":
        try:
            geo = cls(**kw)
        except Exception as exc:  # pylint: disable=broad-except
            bad.append(f"{kind} {kw}: refused by {type(exc).__name__} ({exc})")
            return bad
        if kind == "hollow":
            kw["width_to_depth_ratio"] = 2.0 if body["ratio"] == 2 else float(body["ratio"])
        for k, v in kw.items():
            bad.eq(f"{k} of {kind} {kw}", getattr(geo, k), v)
            if k != "crack_position" and f"{k}={float(v)}" not in str(geo):
                bad.append(f"{k} of {kind} {kw} is missing from {geo}")
    return bad


# ------------------------------------------------------------ random traces


def random_shape(rng):
    while True:
        thickness = rng.choice([20, 35, 70, 150, 250, 400, 600, 800, 950])
        depth = rng.randint(1, thickness - 1)
        ratio = rng.choice([25, 50, 80, 100, 125, 160, 200, 250, 300, 350])
        half = ratio / 100 * depth / 1000
        if half < 1.25 and depth / 1000 >= 1.2 * (1 - math.cos(half)):
            return depth, thickness, ratio


def factor_record(rng):
    from py_fatigue import ParisCurve

    depth, thickness, ratio = random_shape(rng)
    unit = rng.choice([0.02, 0.4, 1.0, 3.0])
    ring = crack.cylinder(depth * unit, outer_diameter=2000 * unit, thickness=thickness * unit,
                          height=unit, width_to_depth_ratio=ratio / 100)
    # grows by a few thousandths of the radius per cycle at first
    rate = 0.003 * 1000 * unit / (math.pi * depth * unit)
    got = crack.grow([1.0] * 12, [1.0] * 12, ParisCurve(slope=2.0, intercept=rate), ring)
    seen = [[round(a / unit), round(1e4 * y)]
            for a, y in zip(got.crack_depth, got.geometry_factor)]
    if not seen:
        return None
    return {"kind": "factor", "thickness": thickness, "ratio": ratio,
            "seen": seen[:1] + [seen[i] for i in (4, 8, 11) if i < len(seen) and seen[i][0] < thickness]}


def plot_record(rng):
    import matplotlib.pyplot as plt

    while True:
        depth, thickness, ratio = random_shape(rng)
        if depth >= 40 and ratio >= 50:
            break
    unit = rng.choice([0.02, 0.4, 1.0, 3.0])
    ring = crack.cylinder(depth * unit, outer_diameter=2000 * unit, thickness=thickness * unit,
                          height=unit, width_to_depth_ratio=ratio / 100)
    fig, ax = ring.plot()
    lines = [np.array(x.get_xydata(), float) / (1000 * unit) for x in ax.lines]
    plt.close(fig)
    if len(lines) != 3:
        raise ValueError(f"{len(lines)} lines instead of two circles and the crack")
    # the two circles are centred, the larger one first
    lines.sort(key=lambda p: (abs(p.mean(0)[0]) > 0.2 * abs(p).max(), -abs(p).max()))
    outer, inner, front = lines
    local = (front + [1.0, 0.0]) * 250000 / depth
    return {"kind": "plot", "depth": depth, "thickness": thickness, "ratio": ratio,
            "outer": np.rint(outer * 1e4).astype(int).tolist(),
            "inner": np.rint(inner * 1e4).astype(int).tolist(),
            "crack": np.rint(local).astype(int).tolist()}


def check(chk):
    r = chk.explore("GeometryMC", f"GeometryMC_{core.TIER}")
    shapes, bodies = [], set()
    rows = table()
    for st in core.read_dump(r.dump):
        if st["kind"] == "factor":
            row = rows[st["row"] - 1]
            if row[3] != st["factor"]:
                raise core.MachineryError(f"row {st['row']} of the table")
            shapes.append((row, st["size"], st["stress"], st["square"]))
        elif st["ok"] != "open":
            bodies.add((st["kind"], tuple(sorted(st["body"].items())), st["ok"]))
    with crack.quiet():
        chk.replay("factors", factor_case, shapes)
        chk.replay("bodies", body_case, sorted(bodies))
        recs = chk.record("factors", lambda: factor_record(chk.rng), 120 if core.quick else 900)
        plots = chk.record("plots", lambda: plot_record(chk.rng), 30 if core.quick else 200)

    def corrupt():
        wrong = []
        for k in range(3):
            c = copy.deepcopy(recs[k])
            c["seen"][0][1] += (40, -40, 60)[k]
            wrong.append(c)
        late = copy.deepcopy(next(x for x in recs if len(x["seen"]) > 2
                                  and x["seen"][2][1] > x["seen"][0][1] + 200))
        late["seen"][2][1] = late["seen"][0][1]
        wrong.append(late)
        for change in (lambda c: c["outer"][7].__setitem__(0, c["outer"][7][0] + 60),
                       lambda c: c.update(inner=c["outer"]),
                       lambda c: c.update(inner=c["inner"][:20]),
                       lambda c: c.update(crack=[[x * 0.9, y] for x, y in c["crack"]]),
                       lambda c: c.update(crack=[[x, y * 1.15] for x, y in c["crack"]]),
                       lambda c: c["crack"].append([125, 0])):
            c = copy.deepcopy(next(p for p in plots if p["ratio"] >= 125))
            change(c)
            c["crack"] = [[round(x), round(y)] for x, y in c["crack"]]
            wrong.append(c)
        return wrong

    chk.validate("geometries", "GeometryTrace", recs + plots, corrupt)


def table():
    """The rows of spec/GeometryTable.tla."""
    import os
    import re

    with open(os.path.join(core.SPEC, "GeometryTable.tla"), encoding="utf-8") as f:
        return [tuple(int(x) for x in m) for m in
                re.findall(r"<<(\d+), (\d+), (\d+), (\d+)>>", f.read())]
