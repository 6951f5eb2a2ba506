"""C08: reading rainflow dictionaries."""

import copy
import zlib

import numpy as np

import bins
import core
from adapt import Mismatch

PARS = [None, {"rlb": 4, "rbw": 2, "mlb": -8, "mbw": 6}, {"rlb": 0, "rbw": 6, "mlb": 3, "mbw": 20}]
SMALL = 17
SIGS = [(-4, 9, 1, 7), (0, 5, -3, 0), (2, 0, 0), (3, 3), (0, 0, 6),
        tuple(k * (-1) ** k for k in range(150))]
REFUSAL = (KeyError, ValueError, TypeError)


def build(dic, par, sig, u, arrays):
    """The real dictionary of an abstract one."""
    short = dic["spelling"] == "short"
    d = {
        "bin_lb" if short else "range_bin_lower_bound": bins.phys(par["rlb"], u),
        "bin_width" if short else "range_bin_width": bins.phys(par["rbw"], u),
        "no_sm_c" if short else "nr_small_cycles": SMALL,
    }
    make = np.array if arrays else (lambda x: x)
    if dic["flat"]:
        if not dic["nohist"]:
            d["hist"] = list(dic["hist"][0]) if dic["hist"] else []
        d["lg_c"] = make([bins.phys(r, u) for _, r in dic["lg"]])
        d["res"] = make([bins.phys(r, u) for _, r in dic["res"]])
    else:
        d.update(mean_bin_lower_bound=bins.phys(par["mlb"], u),
                 mean_bin_width=bins.phys(par["mbw"], u))
        if not dic["nohist"]:
            d["hist"] = [list(r) for r in dic["hist"]]
        d["lg_c"] = make([[bins.phys(m, u), bins.phys(r, u)] for m, r in dic["lg"]])
        d["res"] = make([[bins.phys(m, u), bins.phys(r, u)] for m, r in dic["res"]])
    if sig:
        d["res_sig"] = make([bins.phys(v, u) for v in sig])
    if dic["wrong"] == "unknown":
        d["histogram"] = [1, 2]
    elif dic["wrong"] == "both":
        d["range_bin_lower_bound" if short else "bin_lb"] = bins.phys(par["rlb"], u)
    return d


def replay_case(txt):
    from py_fatigue import CycleCount

    k, dic, sig, refused, rows = (core.tla_value(x) for x in txt)
    bad = Mismatch()
    par = PARS[k]
    sig = SIGS[zlib.crc32(repr(txt).encode()) % len(SIGS)] if sig else ()
    h = zlib.crc32(repr((core.SEED, txt)).encode())
    u = bins.SCALES[h % 5]
    d = build(dic, par, sig, u, arrays=h // 5 % 4 == 0)
    if h // 20 % 3 == 0 and dic["wrong"] == "none":
        d["as_dur"] = 600.0
    if refused:
        bad.raises(f"reading {d}", REFUSAL,
                   lambda: CycleCount.from_rainflow(copy.deepcopy(d), timestamp=bins.NOW))
        return bad
    empty = not rows  # a histogram of zeros only
    try:
        cc = CycleCount.from_rainflow(copy.deepcopy(d), timestamp=bins.NOW, name="probe",
                                      unit="kPa")
    except ValueError:
        if empty:
            return bad
        raise
    bad.eq(f"rows of {d} in units of {u}", bins.rows(cc, u), sorted(rows))
    bad.close("small cycles", cc.nr_small_cycles, SMALL)
    if sig:
        bad.seq("residual signal", cc.residuals_sequence, [v * u for v in sig])
    elif cc.residuals_sequence is not None and len(cc.residuals_sequence):
        bad.append(f"residual signal {cc.residuals_sequence} out of nowhere")
    bad.close("lower range bound", cc.range_bin_lower_bound, par["rlb"] * u)
    bad.close("range bin width", cc.range_bin_width, par["rbw"] * u)
    if not dic["flat"]:
        bad.close("lower mean bound", cc.mean_bin_lower_bound, par["mlb"] * u)
        bad.close("mean bin width", cc.mean_bin_width, par["mbw"] * u)
    bad.eq("unit", cc.unit, "kPa")
    bad.eq("name", cc.name, "probe")
    bad.eq("time stamp", cc.timestamp, bins.NOW)
    return bad


# ------------------------------------------------------------ random traces


def random_record(rng):
    """A large random dictionary; what was read is judged as an import."""
    from py_fatigue import CycleCount

    flat = rng.random() < 0.4
    par = {"rlb": rng.randint(0, 9), "rbw": rng.choice([2, 4, 10]),
           "mlb": rng.randint(-40, 5), "mbw": rng.choice([2, 6, 20]), "p": 1, "q": 1, "e": 1,
           "gap": 0, "small": 0}
    pick = lambda a, b: rng.choice([0, 0, rng.randint(a, b)])
    dic = {
        "flat": flat, "spelling": rng.choice(["short", "long"]), "wrong": "none",
        "nohist": False,
        "hist": [[pick(1, 9) for _ in range(rng.randint(1, 12))]
                 for _ in range(1 if flat else rng.randint(1, 8))],
        "lg": [(0 if flat else rng.randint(-50, 50), rng.randint(1, 200))
               for _ in range(rng.randint(0, 9))],
        "res": [(0 if flat else rng.randint(-50, 50), rng.randint(1, 200))
                for _ in range(rng.randint(1, 9))],
    }
    if rng.random() < 0.1:  # many cycles in one bin
        rng.choice(dic["hist"])[0] = rng.choice([128, 256, 300, 32768, 65536, 70000])
    if rng.random() < 0.1:  # many bins
        dic["hist"] = [[pick(1, 9) for _ in range(rng.randint(1, 250 if flat else 40))]
                       for _ in range(1 if flat else rng.randint(60, 140))]
    part = 1
    if rng.random() < 0.1:  # cells of half and one and a half cycles
        part = 2
        dic.update(lg=[], res=[])
        dic["hist"][0][0] = 1
    if not flat and rng.random() < 0.3:
        dic["hist"].insert(rng.randrange(len(dic["hist"]) + 1), [])
    u = rng.choice(bins.SCALES)
    real = dict(dic, hist=[[n / part if n % part else n // part for n in r] for r in dic["hist"]])
    cc = CycleCount.from_rainflow(build(real, par, SIGS[0], u, False), timestamp=bins.NOW)
    return {"kind": "import", "flat": flat, "par": par, "hist": dic["hist"], "lg": dic["lg"],
            "res": dic["res"], "back": [(r, m, part * n) for r, m, n in bins.rows(cc, u)]}


def check(chk):
    r = chk.explore("DictMC", f"DictMC_{core.TIER}")
    names = ("k", "dict", "sig", "refused", "rows")
    cases = [tuple(st[n] for n in names) for st in core.read_dump(r.dump, names, raw=names)]
    chk.replay("dictionaries", replay_case, cases)
    recs = chk.record("dictionaries", lambda: random_record(chk.rng), 300 if core.quick else 2000)

    def corrupt():
        wrong = []
        for j, f in ((0, 0), (1, 1), (2, 2)):
            c = copy.deepcopy(recs[j])
            row = list(c["back"][0])
            row[f] += 2
            c["back"][0] = row
            wrong.append(c)
        c = copy.deepcopy(recs[3])
        c["back"].pop()
        wrong.append(c)
        return wrong

    chk.validate("random-dictionaries", "BinningTrace", recs, corrupt)
