"""Recorded random histories of cycle counts, validated by CountsTrace."""

import copy
import warnings

import counts
import rf

UNITS = ("MPa", "ksi")


def random_count(rng, ts, unit, name, ladder, longest=40):
    """A random count and its origin: signals are multiples of 2**ladder."""
    q = 2**ladder
    bins = rng.choice([(q, 2 * q, -200 * q, 4 * q), (2 * q, q, -400 * q, 2 * q)])
    a = {"rlb": bins[0], "rbw": bins[1], "mlb": bins[2], "mbw": bins[3], "ts": ts,
         "unit": unit, "name": name}
    while True:
        s = rf.random_signal(rng, rng.randint(2, longest))
        if rf.countable(s) and max(map(abs, s)) < 4000:
            break
    cc = counts.from_signal([q * v for v in s], a)
    if rng.random() < 0.4:  # through a dictionary with small cycles
        rec = counts.record(cc, {counts.stamp(ts): ts})
        rec["small"] = rng.choice([rng.randint(0, 9), rng.randint(0, 10**6)])
        rec["rows"] = sorted(rec["rows"], key=lambda r: -r[2])
        if rng.random() < 0.15:
            rec["res"] = []
        cc = counts.from_dict(rec)
    return cc


def grouped(rng, items):
    """Add up items with random parentheses."""
    items = list(items)
    while len(items) > 1:
        k = rng.randrange(len(items) - 1)
        items[k : k + 2] = [items[k] + items[k + 1]]
    return items[0]


def random_history(rng, kinds, n_obj, n_ops):
    from py_fatigue.cycle_count.cycle_count import pbar_sum

    ladder = 4
    same = rng.random() < 0.7 or n_obj > 50
    unit, name = rng.choice(UNITS), rng.choice("ab")
    t, objs = 0, []
    for _ in range(n_obj):
        u = unit if same or rng.random() < 0.7 else rng.choice(UNITS)
        nm = name if same else rng.choice("ab")
        objs.append(random_count(rng, t, u, nm, ladder, 40 if n_obj < 50 else 4))
        t += rng.choice([0, 1, 1, 2] if not same else [1])
    if not same:
        rng.shuffle(objs)
    times = {counts.stamp(k): k for k in range(t + 3)}
    pool = list(objs)
    meta = [{"halve": ladder, "up": 0, "taint": False, "corr": False} for _ in pool]
    ops, out = [], []
    for _ in range(n_ops):
        kind = rng.choice(kinds) if n_obj < 50 or len(ops) > 1 else "sum"
        i = rng.choice([rng.randrange(len(pool)), len(pool) - 1])
        if 20 < n_obj < 50 and ops and ops[-1]["kind"] == "sum" and "solve" in kinds:
            kind, i = "solve", len(pool) - 1
        m = dict(meta[i])
        try:
            if kind == "add":
                j = rng.choice([rng.randrange(len(pool)), len(pool) - 1])
                op = {"kind": kind, "i": i + 1, "j": j + 1}
                m = merge([meta[i], meta[j]])
                new = pool[i] + pool[j]
            elif kind == "sum":
                of = [rng.randrange(len(objs)) for _ in range(rng.randint(1, 25))]
                if len(objs) > 20:
                    of = rng.sample(range(len(objs)), rng.randint(len(objs) * 3 // 4, len(objs)))
                of.sort(key=lambda k: (counts.times_of(objs[k])[0], k))
                if not same and rng.random() < 0.3:
                    rng.shuffle(of)
                op = {"kind": kind, "of": [k + 1 for k in of]}
                m = merge([meta[k] for k in of])
                lst = [objs[k] for k in of]
                how = rng.randrange(4) if len(objs) < 50 else 1 + len(ops) % 2
                if how == 0:
                    new = sum(lst)
                elif how == 1:
                    new = pbar_sum(lst)
                elif how == 2:
                    for _ in range(rng.randint(0, 4)):
                        lst.insert(rng.randint(0, len(lst)), None)
                    new = pbar_sum(lst)
                else:
                    new = grouped(rng, lst)
            elif kind == "mul":
                f = rng.choice([(2, 1), (3, 1), (5, 1), (1, 2), (3, 2), (5, 4), (1, 4)])
                down = {1: 0, 2: 1, 4: 2}[f[1]]
                if m["halve"] < down or m["up"] >= 3:
                    continue
                m["halve"] -= down
                m["up"] += 1
                op = {"kind": kind, "i": i + 1, "n": f[0], "d": f[1]}
                x = f[0] / f[1]
                if f[1] == 1 and rng.random() < 0.5:
                    x = int(x)
                new = pool[i] * x if rng.random() < 0.5 else x * pool[i]
            elif kind == "solve":
                if m["taint"]:
                    continue
                mode = rng.choice(["res", "res", "minmax"] if n_obj < 20 else ["res", "minmax"])
                op = {"kind": kind, "i": i + 1, "mode": mode}
                new = pool[i].solve_lffd("residuals" if mode == "res" else "min-max")
            else:
                if m["taint"]:
                    continue
                p = rng.choice([3, 4])
                enforce = rng.random() < 0.5
                m["corr"] = True
                m["halve"] = 0
                op = {"kind": kind, "i": i + 1, "p": p, "enforce": enforce}
                new = pool[i].mean_stress_correction(
                    detail_factor=p / 5, enforce_pulsating_load=enforce)
        except (TypeError, ValueError):
            ops.append(op)
            out.append({"err": True})
            continue
        ops.append(op)
        out.append({"err": False, "val": counts.record(new, times)})
        pool.append(new)
        meta.append(m)
    return objs, ops, out, pool, times


def merge(ms):
    return {
        "halve": min(m["halve"] for m in ms), "up": max(m["up"] for m in ms),
        "taint": any(m["taint"] or m["corr"] for m in ms), "corr": False,
    }


def records(chk, kinds, n, n_obj=4, n_ops=6):
    recs = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        while len(recs) < n:
            state = chk.rng.getstate()
            try:
                if len(recs) % 100 == 10 and "sum" in kinds:  # very many small counts
                    rec = _record(chk.rng, ["sum"] * 3 + kinds, 260, 4)
                elif len(recs) % 15 == 5 and {"sum", "solve"} <= set(kinds):
                    rec = _record(chk.rng, ["sum", "solve", "solve"], 45, 4)
                else:
                    rec = _record(chk.rng, kinds, n_obj, n_ops)
            except Exception as exc:  # pylint: disable=broad-except
                chk.fail("recording", {"kinds": kinds, "rng": hash(state)},
                         [f"{type(exc).__name__}: {exc}"])
                if len(chk.bad) > 5:
                    break
                continue
            if rec["ops"]:
                recs.append(rec)
    return recs


def _record(rng, kinds, n_obj, n_ops):
    from contextlib import redirect_stdout
    import os

    with open(os.devnull, "w", encoding="utf-8") as null, redirect_stdout(null):
        seed = rng.getrandbits(60)
        counts.calendar(seed)
        if rng.random() < 0.1:  # many counts
            n_obj = max(n_obj, 45)
        import random

        r = random.Random(seed)
        # the initial counts are recorded before anything is done to them
        objs = []
        first = _initial(random.Random(seed), kinds, n_obj)
        objs, ops, out, pool, times = random_history(r, kinds, n_obj, n_ops)
    return {
        "objs": first, "ops": ops, "out": out,
        "after": [counts.record(c, times) for c in pool],
    }


def _initial(rng, kinds, n_obj):
    objs, _, _, _, times = random_history(rng, kinds, n_obj, 0)
    return [counts.record(c, times) for c in objs]


def corruptions(rng, recs, kinds, fields):
    """Wrong copies: each changes one field of the result of one relevant step."""
    res = []
    for field in fields:
        for _ in range(400):
            rec = copy.deepcopy(rng.choice(recs))
            steps = [k for k, (op, o) in enumerate(zip(rec["ops"], rec["out"]))
                     if op["kind"] in kinds and not o["err"]]
            if not steps:
                continue
            k = rng.choice(steps)
            val = rec["out"][k]["val"]
            if field == "after":
                rec["after"][rng.randrange(len(rec["objs"]))]["mbw"] += 1
            elif field == "rows":
                if not val["rows"]:
                    continue
                rng.choice(val["rows"])[rng.randrange(3)] += 1
            elif field == "drop":
                if not val["rows"]:
                    continue
                val["rows"].pop()
            elif field == "res":
                if not val["res"]:
                    continue
                val["res"][-1] += 1
            elif field == "unit":
                val["unit"] += "x"
            elif field == "times":
                val["times"] = val["times"] + [999]
            elif field == "corr":
                val["corr"] = "zzz"
            elif field == "refuse":
                rec["out"][k] = {"err": True}
                # later operations would refer to other counts
                rec["ops"] = rec["ops"][: k + 1]
                rec["out"] = rec["out"][: k + 1]
            else:
                val[field] += 1
            if field != "after":
                ok = [o["val"] for o in rec["out"] if not o["err"]]
                rec["after"] = rec["objs"] + ok
            res.append(rec)
            break
    return res


def validate(chk, prop, kinds, focus, n, fields, **kw):
    """Record n histories and have them judged for one property."""
    recs = records(chk, kinds, n, **kw)
    if recs:
        chk.validate("random-histories", "CountsTrace", recs,
                     lambda: corruptions(chk.rng, recs, focus, fields), env_extra={"PROP": prop})
