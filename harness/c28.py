"""C28: operations warn exactly when there is a reason."""

import copy
import random
import warnings

import numpy as np

import core
import counts
import ctrace
from adapt import Mismatch

NOTHING = (None, 0, float("nan"), 0.0)
KINDS = {
    "dnv": (("DNVGL-RP-C203", "dnvgl-rp-c203"), {"detail_factor": 0.6}),
    "walker": (("walker", "Walker"), {"gamma": 0.6}),
    "swt": (("swt", "SWT", "smith-watson-topper"), {}),
}
SIGNALS = {"A": (0, 16, -8, 24, -16), "B": (8, -32, 16, 0, 8, 40), "E": (8, 16)}
ORIGIN = {1: "ABBAABAB", 2: "EEA", 3: "dddd", 4: "A"}
RULES = {
    "pavlou": ("pavlou", "Pavlou"),
    "manson": ("manson", "Manson and Halford", "manson-halford"),
    "leve": ("leve", "Leve"),
    "si jian": ("si jian", "Si Jian et al"),
}
PARAMETERS = {"base_exponent": 0.5, "ultimate_stress": 800.0}


def heard(fun, category=UserWarning):
    """Result of a call and the warnings it gave."""
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        res = fun()
    return res, [str(w.message) for w in seen if issubclass(w.category, category)]


def perform(pool, op, k):
    """One operation on counts; k chooses among the ways to say it."""
    kind, x = op[0], pool[op[1] - 1]
    if kind == "add":
        return heard(lambda: x + pool[op[2] - 1])
    if kind == "nothing":
        return heard(lambda: x + NOTHING[k % 4])
    if kind == "from nothing":
        return heard(lambda: NOTHING[k % 4] + x)
    if kind == "mul":
        f = op[2] / op[3]
        f = int(f) if k % 2 and op[3] == 1 else f
        return heard(lambda: f * x if k % 3 else x * f)
    if kind == "solve":
        if op[2] == "minmax":
            return heard(lambda: x.solve_lffd(solve_mode=("min-max", "min/max")[k % 2]))
        if k % 3 == 0:
            return heard(x.resolve_residuals)
        return heard(lambda: x.solve_lffd() if k % 3 == 1 else x.solve_lffd("residuals"))
    names, kw = KINDS[op[2]]
    return heard(lambda: x.mean_stress_correction(
        correction_type=names[k % len(names)], **(kw if op[3] else {})))


def judge(bad, what, seen, why):
    if "open" in why:
        return
    if why and not seen:
        bad.append(f"{what}: no warning, specification says {sorted(why)}")
    if seen and not why:
        bad.append(f"{what}: warns {seen}, specification has no reason")


def start(cfg, spec):
    res = []
    for o, a in zip(ORIGIN[cfg], spec):
        res.append(counts.from_dict(a) if o == "d" else counts.from_signal(SIGNALS[o], a))
    return res


def replay_case(st):
    bad = Mismatch()
    spec, said = core.tla_value(st["pool"]), core.tla_value(st["said"])
    cfg, hist = st["cfg"], st["hist"]
    if cfg == 4:
        return other_calls(bad, hist[0], said[0])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pool = start(cfg, spec)
    for k, op in enumerate(hist):
        for way in range(len(NOTHING) if "nothing" in op[0] else 1):
            new, seen = perform(pool, op, way or len(str(hist)) + k)
            judge(bad, f"{list(hist[: k + 1])}", seen, said[k])
        if "nothing" in op[0] and not new == pool[op[1] - 1]:
            bad.append(f"{op}: not the count itself")
        pool.append(new)
    return bad


def other_calls(bad, op, why):
    from py_fatigue import SNCurve
    from py_fatigue.damage import stress_life

    sn = SNCurve(slope=[3.0, 5.0], intercept=[10.97, 13.617])
    if op[0] == "call":
        arg = 1e5 if op[1] in ("sigma", "get_stress") else 100.0
        for x in (arg, [arg, 2 * arg]):
            got, seen = heard(lambda: getattr(sn, op[1])(x), FutureWarning)
            judge(bad, op[1], seen, why)
            full = {"n": "get_cycles", "sigma": "get_stress"}.get(op[1], op[1])
            bad.seq(op[1], np.ravel(got).tolist(), np.ravel(getattr(sn, full)(x)).tolist())
        return bad
    kw = {k: v for (k, v), given in zip(PARAMETERS.items(), op[2:]) if given}
    for name in RULES[op[1]]:
        for fun, args in ((stress_life.get_nonlinear_damage, None),
                          (stress_life.calc_nonlinear_damage, ([100.0, 150.0], [10.0, 20.0]))):
            if args is None:
                cc = counts.from_signal(SIGNALS["A"], {
                    "rlb": 4, "rbw": 8, "mlb": -200, "mbw": 16, "ts": 0, "unit": "MPa",
                    "name": "d"})
                _, seen = heard(lambda: fun(name, cc, sn, **kw))
            else:
                _, seen = heard(lambda: fun(name, *(np.array(a) for a in args), sn, **kw))
            judge(bad, f"{fun.__name__} {name} {sorted(kw)}", seen, why)
    return bad


# ------------------------------------------------------------------- traces


def flat(cc, times):
    """A count as a record, its whole name as the name."""
    rec = counts.record(cc, times)
    return dict(rec, name=str(cc.name), by=[])


def random_record(rng):
    rng = random.Random(rng.getrandbits(60))
    name, same = rng.choice("ab"), rng.random() < 0.6
    n = rng.randint(1, 4)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pool = [ctrace.random_count(rng, k, "MPa", name if same else rng.choice("ab"), 4)
                for k in range(n)]
    times = {counts.stamp(k): k for k in range(n + 1)}
    steps = []
    for _ in range(rng.randint(2, 8)):
        kind = rng.choice(["add", "add", "mul", "solve", "correct", "nothing", "from nothing"])
        i, j = rng.choice([rng.randrange(len(pool)), len(pool) - 1]), rng.randrange(len(pool))
        a, b = flat(pool[i], times), flat(pool[j], times)
        op = [kind, i + 1]
        if kind == "add":
            op.append(j + 1)
        elif kind == "mul":
            if a["scf"] * a["den"] > 64:
                continue
            op += list(rng.choice([(2, 1), (4, 1), (1, 2), (1, 4), (3, 2), (17, 16), (1, 1)]))
        elif kind == "solve":
            op.append(rng.choice(["res", "minmax"]))
        elif kind == "correct":
            op += [rng.choice(list(KINDS)), rng.random() < 0.5]
        try:
            new, seen = perform(pool, tuple(op), rng.randrange(12))
        except (TypeError, ValueError):
            continue
        steps.append({"kind": kind, "a": a, "b": b, "mode": op[2] if kind == "solve" else "",
                      "corr": op[2] if kind == "correct" else "",
                      "given": kind == "correct" and op[3], "warned": bool(seen)})
        pool.append(new)
    return {"steps": steps} if steps else None


def corrupt(rng, recs):
    res = []
    for _ in range(12):
        rec = copy.deepcopy(rng.choice(recs))
        for s in rng.sample(rec["steps"], len(rec["steps"])):
            a = s["a"]
            sure = {"add": a["res"] and s["b"]["res"], "solve": a["solved"],
                    "correct": len(a["times"]) == 1}.get(s["kind"], True)
            if sure:
                s["warned"] = not s["warned"]
                res.append(rec)
                break
    return res


def check(chk):
    r = chk.explore("NoticesMC", f"NoticesMC_{core.TIER}")
    states, prefixes = {}, set()
    for st in core.read_dump(r.dump, ("cfg", "pool", "hist", "said"),
                             raw=("pool", "said")):
        key = (st["cfg"], st["hist"])
        states[key] = st
        if st["hist"]:
            prefixes.add((st["cfg"], st["hist"][:-1]))
    sts = [states[k] for k in sorted(states, key=str) if k not in prefixes]
    chk.extra["histories"] = len(sts)
    chk.replay("histories", replay_case, sts, chunk=100)
    recs = chk.record("random-histories", lambda: random_record(chk.rng),
                      150 if core.quick else 1200)
    if recs:
        chk.validate("random-histories", "NoticesTrace", recs, lambda: corrupt(chk.rng, recs))
