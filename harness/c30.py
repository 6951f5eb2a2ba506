"""C30: texts and axis labels tell what they are about."""

import copy
import datetime as dt
import re
import warnings

import numpy as np

import core
import crack
from adapt import Mismatch

START = dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)
SIGNAL = [0.0, 50.0, -20.0, 30.0, 10.0, 40.0, -30.0, 60.0]


def count(minute, unit, name, sig=None):
    from py_fatigue import CycleCount

    return CycleCount.from_timeseries(
        np.array(SIGNAL if sig is None else sig), timestamp=START + dt.timedelta(minutes=minute),
        unit=unit, name=name, mean_bin_width=5.0, range_bin_width=1.0)


def plain(label):
    return re.sub(r"\s*√", " sqrt ", label)


def axes(plot, cc, unit, length, rng=None):
    """The labels of both axes of a plot."""
    import matplotlib.pyplot as plt
    from py_fatigue import ParisCurve, SNCurve

    fig, ax = plt.subplots()
    try:
        if plot == "sn":
            SNCurve([3.0, 5.0], [12.0, 16.0], unit_string=unit).plot(fig=fig, ax=ax)
        elif plot == "paris":
            ParisCurve(3.0, 1e-10, unit_string=f"{unit} √{length}").plot(fig=fig, ax=ax)
        elif plot == "damage":
            df = cc.to_df()
            df.miner.damage(SNCurve(3.0, 12.0, unit_string=unit))
            df.miner.plot_histogram(fig=fig, ax=ax)
        else:
            kw = {} if rng is None else {"mode": rng.choice([None, "mountain", "valley"])}
            if plot not in ("min-max", "mean-range"):
                kw = {}
            cc.plot_histogram(plot_type=plot, fig=fig, ax=ax, **kw)
        return plain(ax.get_xlabel()), plain(ax.get_ylabel())
    finally:
        plt.close(fig)


def in_order(bad, what, text, words):
    at = 0
    for w in words:
        k = text.find(w, at)
        if k < 0:
            bad.append(f"{what}: {text!r} does not tell {w!r} behind the first {at} characters, "
                       f"specification says {list(words)}")
            return
        at = k + len(w)


def soft(text, unit):
    """Small letters, apart from the unit at the end."""
    k = text.rfind(unit)
    return text.lower() if k < 0 else text[:k].lower() + text[k:]


def replay_case(txt):
    ts, unit, name, hist, shown = (core.tla_value(t) for t in txt)
    bad = Mismatch()
    with warnings.catch_warnings(), crack.quiet():
        warnings.simplefilter("ignore")
        later = [h[1] for h in hist if h[0] == "add"]
        cc = count(min(ts), unit, name)
        for op, t in hist[:-1]:
            if op == "add":
                cc = cc + count(t, unit, name)
            elif op == "solve":
                cc = cc.solve_lffd()
            elif op == "correct":
                cc = cc.mean_stress_correction(detail_factor=0.8)
            elif op == "text":
                str(cc)
        what = f"{name} in {unit}, added {later}, {[h[0] for h in hist]}"
        if shown["what"] == "text":
            in_order(bad, f"text of {what}", str(cc), shown["words"])
            bad.eq(f"times in the text of {what}", len(re.findall(r"\b20\d\d\b", str(cc))),
                   min(2, len(ts)))
        else:
            labels = axes(shown["what"], cc, unit, shown["len"])
            for side, label, words in zip(("horizontal", "vertical"), labels, shown["words"]):
                in_order(bad, f"{side} axis of {what}", soft(label, words[-1]), words)
                bad.eq(f"end of the {side} axis of {what}", label.endswith(words[-1]), True)
    return bad


# ------------------------------------------------------------ random traces


def count_record(rng):
    name = rng.choice(["north", "A 1", "x_y", "Zug"]) + str(rng.randint(0, 99))
    unit, length = rng.choice(["MPa", "kPa", "ksi", "N/mm2"]), rng.choice(["mm", "m", "in"])
    minutes = sorted(rng.randrange(3 * 525600) for _ in range(rng.choice([1, 1, 2, 3, 6])))
    with warnings.catch_warnings(), crack.quiet():
        warnings.simplefilter("ignore")
        parts = [count(t, unit, name, [rng.uniform(-50, 50) for _ in range(20)]) for t in minutes]
        cc = parts[0]
        for p in parts[1:]:
            cc = cc + p
        if rng.random() < 0.4:
            cc = cc.solve_lffd()
        if rng.random() < 0.3:
            cc = cc.mean_stress_correction(detail_factor=0.6)
        text = str(cc)
        told = []
        for plot in rng.sample(["min-max", "mean-range", "counts-range", "counts-range-cumsum",
                                "counts-range-2D", "damage", "sn", "paris"], 3):
            x, y = axes(plot, cc, unit, length, rng)
            u = unit + " sqrt " + length if plot == "paris" else unit
            v = length + "/cycle" if plot == "paris" else unit
            told.append({"plot": plot, "x": soft(x, u), "y": soft(y, v)})
    return {"kind": "count", "name": name, "unit": unit, "len": length, "times": minutes,
            "text": text, "years": len(re.findall(r"\b20\d\d\b", text)), "axes": told}


def crack_record(rng):
    from py_fatigue import ParisCurve
    from py_fatigue.damage.crack_growth import get_crack_growth
    from py_fatigue.geometry import InfiniteSurface

    with warnings.catch_warnings(), crack.quiet():
        warnings.simplefilter("ignore")
        cc = count(0, "MPa", "c", [rng.uniform(-50, 50) for _ in range(30)])
        critical = rng.choice([60.0, 150.0, 1e6])
        cg = get_crack_growth(cc, ParisCurve(3.0, 1e-12, critical=critical,
                                             unit_string="MPa √mm"), InfiniteSurface(1.0))
        failed = bool(critical < np.max(cc.stress_range) * np.sqrt(np.pi))
        return {"kind": "crack", "text": str(cg), "failed": failed, "unit": "MPa", "len": "mm",
                "axes": []}


def geometry_record(rng):
    from py_fatigue.geometry import HollowCylinder, InfiniteSurface
    from py_fatigue.geometry.cylinder import Cylinder

    def size(lo, hi):
        return rng.choice([rng.uniform(lo, hi), float(rng.randint(lo, hi)), rng.randint(lo, hi)])

    kind = rng.randrange(3)
    kw = {"initial_depth": size(1, 9)}
    if kind == 1:
        kw.update(diameter=size(100, 900), height=size(100, 9000))
    if kind == 2:
        kw.update(outer_diameter=size(100, 900), thickness=size(10, 40), height=size(100, 9000),
                  width_to_depth_ratio=size(1, 5),
                  crack_position=rng.choice(["internal", "external"]))
    geo = (InfiniteSurface, Cylinder, HollowCylinder)[kind](**kw)
    return {"kind": "geometry", "text": rng.choice([str, repr])(geo), "unit": "MPa", "len": "mm",
            "sizes": [[k, str(v)] for k, v in kw.items()], "axes": []}


def picture_record(rng):
    import xml.etree.ElementTree as ET

    import matplotlib
    from py_fatigue import ParisCurve

    unit, length = rng.choice(["MPa", "kPa", "ksi"]), rng.choice(["mm", "m", "in"])
    c = ParisCurve([8.0, 4.0], [1e-18, 1e-12], threshold=rng.choice([2.0, 5.0]),
                   critical=rng.choice([500.0, 2000.0]), unit_string=f"{unit} √{length}")
    with crack.quiet(), matplotlib.rc_context({"svg.fonttype": "none"}):
        svg = c._repr_svg_()
    text = " ".join("".join(e.itertext()).strip() for e in ET.fromstring(svg).iter()
                    if e.tag.endswith("}text"))
    return {"kind": "picture", "text": plain(text), "unit": unit, "len": length, "axes": []}


def make_record(rng, k):
    kinds = (count_record, count_record, geometry_record, crack_record, picture_record)
    return kinds[k % 5](rng)


def check(chk):
    r = chk.explore("TextsMC", f"TextsMC_{core.TIER}")
    names = ("ts", "unit", "name", "hist", "shown")
    text, plots = [], []
    for st in core.read_dump(r.dump, names, raw=names):
        txt = tuple(st[n] for n in names)
        if '"nothing"' in st["shown"]:
            continue
        (text if '"text"' in st["shown"] else plots).append(txt)
    text.sort()
    plots.sort()
    chk.replay("texts", replay_case, text if core.quick else chk.rng.sample(text, 20000)
               if len(text) > 20000 else text, chunk=50)
    chk.replay("axes", replay_case,
               chk.rng.sample(plots, min(len(plots), 1500 if core.quick else 12000)), chunk=20)
    k = iter(range(10 ** 9))
    recs = chk.record("texts", lambda: make_record(chk.rng, next(k)),
                      160 if core.quick else 2000)

    def corrupt():
        wrong = []
        for n, r in enumerate(recs[:12]):
            c = copy.deepcopy(r)
            if c["kind"] == "crack":
                c["failed"] = not c["failed"]
            elif c["kind"] == "geometry":
                c["sizes"][0][1] += "7"
            elif c["kind"] == "picture":
                c["unit"] = "GPa"
            elif n % 3 == 0:
                c["times"][0] = (c["times"][0] + 1441) % 1500000
                c["times"].sort()
            elif n % 3 == 1:
                c["name"] += "_"
            else:
                c["unit"] = "GPa"
            wrong.append(c)
        return wrong

    chk.validate("random-texts", "TextsTrace", recs, corrupt)
