"""C26: curves are called, coloured and drawn by what they hold."""

import copy
import re
import xml.etree.ElementTree as ET

import numpy as np

import core
from adapt import Mismatch

SN = dict(slope=[3.0, 5.0], intercept=[12.0, 16.0])
PARIS = dict(slope=[8.0, 3.0], intercept=[1e-18, 1e-12])


def make(kind, words, colour, rng=None, **kw):
    from py_fatigue import ParisCurve, SNCurve

    cls, args = (SNCurve, SN) if kind == "sn" else (ParisCurve, PARIS)
    args = dict(args, **kw)
    for name, word in zip(("norm", "curve", "environment"), words):
        if word or (rng is not None and rng.random() < 0.5):
            args[name] = word
    if colour:
        args["color"] = colour
    return cls(**args)


def replay_case(txt):
    ops, shown = (core.tla_value(t) for t in txt)
    bad = Mismatch()
    pool, given = [], []
    for o in ops:
        if o["op"] == "new":
            pool.append(make(o["kind"], o["words"], o["colour"]))
            given.append((o["words"], o["colour"]))
        else:
            got = pool[o["curve"] - 1].format_name(html_format=o["html"])
            bad.eq("result of formatting", got, None)
    autos = []
    for k, (c, s, (words, colour)) in enumerate(zip(pool, shown, given)):
        what = f"curve {k + 1}: "
        bad.eq(what + "name", c.name, s["name"])
        bad.eq(what + "text", str(c), s["name"])
        for f, w in zip(("norm", "curve", "environment"), words):
            bad.eq(what + f, getattr(c, f) or "", w)
        if s["auto"]:
            autos.append((c.id, c.color))
        else:
            bad.eq(what + "colour", c.color, colour)
            bad.eq(what + "number", c.id, None)
    for (i, a), (j, b) in zip(autos, autos[1:]):
        if not i < j:
            bad.append(f"numbers {i} and then {j}")
        if (a == b) != ((j - i) % 26 == 0):
            bad.append(f"curves {i} and {j} coloured {a} and {b}")
    return bad


# ------------------------------------------------------------ random traces

SIGNS = "abcXYZ 0123456789-_.()/+äß%"


def word(rng):
    return "" if rng.random() < 0.25 else "".join(
        rng.choice(SIGNS) for _ in range(rng.randint(1, 8))).strip() or "x"


def made(rng):
    n = rng.randint(1, 70)
    names = {"": 0}
    pool, words, given, html = [], [], [], []
    for _ in range(n):
        w = [word(rng) for _ in range(3)]
        colour = rng.choice(["", "", "", "#101010", "red", "rgb(1,2,3)"])
        pool.append(make(rng.choice(["sn", "paris"]), w, colour, rng))
        words.append(w)
        given.append(bool(colour))
        html.append(False)
        if colour and pool[-1].color != colour:
            given[-1] = False  # rejected: it has no number either
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = rng.randrange(len(pool))
            html[k] = rng.random() < 0.5
            if html[k] or rng.random() < 0.5:
                pool[k].format_name(html[k])
            else:
                pool[k].format_name()
    return {"names": [c.name for c in pool], "texts": [str(c) for c in pool],
            "words": words, "html": html, "given": given,
            "colours": [[c.id or 0, names.setdefault(c.color, len(names))] for c in pool]}


def drawing(rng):
    """What the picture of a curve says against what the curve says."""
    import matplotlib
    import matplotlib.pyplot as plt

    kind = rng.choice(["sn", "paris"])
    w = [word(rng).replace("$", "") for _ in range(3)]
    segs = rng.randint(1, 3)
    kw = {}
    if kind == "sn":
        kw["slope"] = [3.0, 4.0, 5.0][:segs]
        kw["intercept"] = [12.0, 14.0, 15.5][:segs]
        if rng.random() < 0.6:
            kw["endurance"] = rng.choice([1e9, 5e8, 2.5e10])
    else:
        kw["slope"] = [8.0, 4.0, 2.0][:segs]
        kw["intercept"] = [1e-18, 1e-12, 1e-8][:segs]
        if rng.random() < 0.6:
            kw["threshold"] = rng.choice([2.0, 5.0, 8.5])
        if rng.random() < 0.6:
            kw["critical"] = rng.choice([500.0, 2000.0, 1234.5])
    c = make(kind, w, "", rng, **kw)
    name = c.name
    html = rng.random() < 0.3
    c.format_name(html)
    before = {k: copy.deepcopy(v) for k, v in vars(c).items()}
    figs = set(plt.get_fignums())
    with matplotlib.rc_context({"svg.fonttype": "none"}):
        svg = c._repr_svg_()
    left = len(set(plt.get_fignums()) ^ figs)
    texts = ["".join(e.itertext()).strip() for e in ET.fromstring(svg).iter()
             if e.tag.endswith("}text")]
    c.format_name(False)
    bad = [name != c.name]
    c.format_name(html)
    bad += [not np.array_equal(v, before[k]) for k, v in vars(c).items()]
    knees = (list(zip(c.get_knee_cycles(), c.get_knee_stress())) if kind == "sn" else
             list(zip(c.get_knee_sif(), c.get_knee_growth_rate()))) if segs > 1 else []
    ends = {"Endurance": (c.endurance, c.endurance_stress)} if kind == "sn" else {
        "Threshold": (c.threshold, c.threshold_growth_rate),
        "Critical": (c.critical, c.critical_growth_rate)}
    marks = [[f"Knee {k + 1}", near(p)] for k, p in enumerate(knees)]
    marks += [[k, near(p)] for k, p in ends.items() if 0 < p[0] < np.inf]
    seen = []
    for t in texts:
        m = re.fullmatch(r"(Knee \d+|Endurance|Threshold|Critical): \((.*), (.*)\)", t)
        if m:
            seen.append([m[1], near((float(m[2]), float(m[3])))])
    lines = c.name.split("\n")
    return {"marks": sorted(marks), "seen": sorted(seen), "left": left,
            "changed": sum(map(bool, bad)),
            "lines": sum(1 for x in lines if x.rstrip(",").strip() not in
                         " ".join(texts))}


def near(p):
    """A point to about one percent, as numbers that TLC can compare."""
    return [int(round(100 * np.log10(x))) for x in p]


def check(chk):
    names = ["ops", "shown"]
    r = chk.explore("LabelsMC", f"LabelsMC_{core.TIER}")
    cases = [tuple(st[n] for n in names) for st in core.read_dump(r.dump, names, raw=names)
             if st["shown"] != "<<>>"]
    chk.replay("labels", replay_case, cases)
    recs = chk.record("labels", lambda: made(chk.rng), 60 if core.quick else 800)

    def corrupt():
        wrong = []
        big = [r for r in recs if len(r["names"]) > 30]
        for f in ("names", "texts"):
            c = copy.deepcopy(chk.rng.choice(big))
            c[f][3] += "."
            wrong.append(c)
        c = copy.deepcopy(chk.rng.choice(big))
        c["html"][0] = not c["html"][0]
        wrong.append(c)
        for k in (0, 1):
            c = copy.deepcopy(chk.rng.choice(big))
            a = [x for x in c["colours"] if x[0]]
            b = next(x for x in a[1:] if (x[0] - a[0][0]) % 26)
            a[0][k], b[k] = b[k], (b if k else a[0])[k]
            wrong.append(c)
        c = copy.deepcopy(chk.rng.choice(big))
        c["given"][2] = not c["given"][2]
        wrong.append(c)
        return wrong

    chk.validate("random-labels", "LabelsTrace", recs, corrupt)
    recs = chk.record("pictures", lambda: drawing(chk.rng), 24 if core.quick else 300)

    def corrupt_pictures():
        wrong = []
        for f in ("left", "changed", "lines"):
            c = copy.deepcopy(recs[0])
            c[f] += 1
            wrong.append(c)
        c = copy.deepcopy(next(r for r in recs if r["seen"]))
        c["seen"][0][1][0] += 5
        wrong.append(c)
        c = copy.deepcopy(next(r for r in recs if r["seen"]))
        c["seen"].pop()
        wrong.append(c)
        return wrong

    chk.validate("pictures", "PicturesTrace", recs, corrupt_pictures)
