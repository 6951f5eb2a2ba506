"""C27: sampled times, random signals, shares, chunks and versions."""

import copy
import warnings

import numpy as np

import core
from adapt import Mismatch


def sampled(step, duration, start, tick):
    """Times as ticks, and whether there was a warning."""
    from py_fatigue import testing

    fs = 1 / (step * tick) if step else 0.0
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        got = testing.get_sampled_time(fs=fs, duration=duration * tick, start=start * tick)
    return np.asarray(got) / tick, any(issubclass(w.category, UserWarning) for w in seen)


def replay_case(txt):
    from py_fatigue import utils
    from py_fatigue.version import parse_version

    call, want = (core.tla_value(t) for t in txt)
    bad = Mismatch()
    if call["op"] == "times":
        args = [call[k] for k in ("step", "duration", "start")]
        for tick in (1 / 64, 1.0, 0.1, 0.002, 1e-5):
            if want["refused"]:
                bad.raises(f"tick {tick}", ValueError, lambda t=tick: sampled(*args, t))
                continue
            if tick in (0.1, 0.002, 1e-5) and args[0] == args[1]:
                continue  # the one step may come out longer than the duration
            got, warned = sampled(*args, tick)
            if len(got) != len(want["times"]):
                bad.append(f"tick {tick}: {len(got)} times, specification says "
                           f"{len(want['times'])}")
            else:
                for a, b in zip(got, want["times"]):
                    bad.close(f"time at tick {tick}", float(a), b, atol=1e-7)
            bad.eq(f"warning at tick {tick}", warned, want["warned"])
    elif call["op"] == "share":
        bad.eq("shares", list(utils.split(call["what"], call["by"])), list(want))
    elif call["op"] == "chunks":
        things = [k for k in range(1, call["len"] + 1)]
        got = [list(x) for x in utils.chunks(things, call["by"])]
        bad.eq("chunks", got, [list(x) for x in want])
    else:
        got = parse_version(call["text"])
        none = not want["release"]
        bad.eq("version", (got.major, got.minor, got.patch, got.release, got.num),
               (*want["nums"], None if none else want["release"],
                None if none else want["num"]))
        nums = ".".join(map(str, want["nums"][:2]))
        for text in (nums, nums + ".", "v" + nums + "-a.1", ""):
            bad.raises(f"version {text!r}", ValueError, lambda t=text: parse_version(t))
    return bad


# ------------------------------------------------------------ random traces

KINDS = [
    ("normal", {}, {"loc": 3.0, "scale": 7.0}),
    ("uniform", {}, {"low": -4.0, "high": 12.0}),
    ("exponential", {}, {"scale": 5.0}),
    ("weibull", {"a": 2.0}, {"a": 2.0}),
    ("gamma", {"shape": 3.0}, {"shape": 3.0, "scale": 2.0}),
    ("gumbel", {}, {"loc": -1.0, "scale": 0.5}),
]


def signal(rng):
    """A random signal and the same one asked for in other ways."""
    from py_fatigue.testing import get_random_data as get

    n = rng.choice([2, 3, 10, 100, 1000, rng.randint(2, 5000)])
    kind, kw, same = rng.choice(KINDS)
    seed, low, span = rng.randint(0, 10**6), rng.randint(-400, 400), rng.randint(1, 800)
    t = np.linspace(0, rng.choice([1.0, 100.0]), n)
    args = dict(seed=seed, random_type=kind, min_=low / 8, range_=span / 8)
    held = t.copy()
    np.random.seed(5)
    first = np.random.random()
    np.random.seed(5)
    y = get(t, **args, **kw)
    alone = np.random.random() == first and np.array_equal(t, held)
    unit = get(t, seed=seed, random_type=kind, min_=0.0, range_=1.0, **kw)
    close = lambda a, b: a.shape == b.shape and bool(np.allclose(a, b, atol=1e-9, rtol=1e-9))
    others = True
    if n > 5:
        b = get(t, **dict(args, seed=seed + 1), **kw)
        others = not close(y, b)
    if kind == "normal" and rng.random() < 0.5:
        del args["random_type"]  # the kind that is drawn by default
    again = np.array_equal(y, get(t, **args, **kw))
    return {"kind": "signal", "n": n, "got": len(y), "min": low, "range": span,
            "low": round(float(y.min()) * 8, 6), "high": round(float(y.max()) * 8, 6),
            "again": bool(again), "others": bool(others), "alone": bool(alone),
            "affine": close(y, low / 8 + span / 8 * unit)
            and close(y, get(t, **args, **same)),
            "times": bool(np.array_equal(y, get(3 * t[::-1] + 1, **args, **kw)))}


def whole(rec):
    """Numbers that are whole as whole numbers, others told apart."""
    for k in ("low", "high"):
        v = rec[k]
        rec[k] = int(v) if v == int(v) else 10**9
    return rec


def times(rng):
    tick = rng.choice([1 / 64, 0.1, 0.01, 0.05, 1.0, 0.25])
    step = rng.randint(1, 40)
    duration = rng.choice([rng.randint(2, 300) * step, rng.randint(step + 1, 20000)])
    start = rng.choice([0, rng.randint(0, 100), rng.randint(0, 100000)])
    got, warned = sampled(step, duration, start, tick)
    picks = sorted({0, 1, len(got) // 2, len(got) - 1} & set(range(len(got))))
    close = lambda x: int(round(x)) if abs(x - round(x)) < 1e-5 else -1
    return {"kind": "times", "step": step, "duration": duration, "start": start,
            "n": len(got), "warned": warned,
            "picks": [[k, close(float(got[k]))] for k in picks]}


def share(rng):
    from py_fatigue import utils

    what, by = rng.randint(0, 10**rng.randint(1, 6)), rng.randint(1, 60)
    return {"kind": "share", "what": what, "by": by,
            "shares": [int(x) for x in utils.split(what, by)]}


def check(chk):
    names = ["call", "result"]
    r = chk.explore("HelpersMC", f"HelpersMC_{core.TIER}")
    cases = [tuple(st[n] for n in names) for st in core.read_dump(r.dump, names, raw=names)
             if '"none"' not in st["call"]]
    chk.replay("helpers", replay_case, cases)
    k = 1 if core.quick else 10
    recs = chk.record("signals", lambda: whole(signal(chk.rng)), 150 * k)
    recs += chk.record("times", lambda: times(chk.rng), 150 * k)
    recs += chk.record("shares", lambda: share(chk.rng), 60 * k)

    def corrupt():
        wrong = []
        for kind, fields in (("signal", ("got", "low", "high")), ("times", ("n", "start"))):
            for f in fields:
                c = copy.deepcopy(next(r for r in recs if r["kind"] == kind))
                c[f] += 1
                wrong.append(c)
        for f in ("again", "others", "affine", "times", "alone"):
            c = copy.deepcopy(recs[0])
            c[f] = False
            wrong.append(c)
        c = copy.deepcopy(next(r for r in recs if r["kind"] == "times"))
        c["warned"] = not c["warned"]
        wrong.append(c)
        c = copy.deepcopy(next(r for r in recs if r["kind"] == "share"))
        c["shares"][-1] += 1
        wrong.append(c)
        return wrong

    chk.validate("random-helpers", "HelpersTrace", recs, corrupt)
