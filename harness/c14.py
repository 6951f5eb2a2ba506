"""C14: nonlinear damage rules."""

import copy
import warnings
import zlib
from fractions import Fraction

import numpy as np
import pandas as pd

import core
import damage
from adapt import Mismatch

BASE = 1.05
NAMES = {"leve": ("leve", "Leve"),
         "manson": ("manson", "manson and halford", "manson halford", "Manson-Halford"),
         "pavlou": ("pavlou", "Pavlou"), "sijian": ("si jian", "si jian et al", "Si-Jian")}
# as Table in spec/NonlinearMC.tla: rule, exponent, slopes, log2 intercepts
TABLE = [None, ("leve", 2, (3,), (20,)), ("leve", 1, (3, 5), (20, 24)), ("leve", 0.5, (4,), (15,)),
         ("manson", 0.4, (5,), (30,)), ("manson", 0.2, (5,), (30,)),
         ("manson", 1, (1, 2), (12, 14)), ("pavlou", -0.75, (3,), (40,)),
         ("pavlou", -1, (3, 5), (20, 24)), ("pavlou", -0.5, (4,), (20,)),
         ("sijian", 1, (3, 5), (20, 24)), ("leve", 2, (3, 5), (20, 24)),
         ("leve", 0.5, (4,), (15,)), ("pavlou", -1, (3,), (20,)), ("sijian", 1, (3, 5), (20, 24))]
BELOW = {11: 1, 12: 2, 13: 1, 14: 2}  # loads below it are under the endurance limit
EXPONENT = [Fraction(str(t[1])).as_integer_ratio() if t else None for t in TABLE]
DEFAULT = {"leve": 2, "manson": 0.4, "pavlou": -0.75}
NOTHING = -100000


def level(d):
    return 0.0 if d == NOTHING else BASE**d


def physical(k, loads, d, u):
    """Stresses and counts that do what the abstract loads do."""
    _, _, m, a = TABLE[k]
    stress, cyc, dmg = [], [], []
    before = NOTHING
    for (s, z), after in zip(loads, d):
        n = max(2.0 ** (a_ - m_ * s) for m_, a_ in zip(m, a))
        stress.append(u * 2.0**s)
        harmless = s < BELOW.get(k, -99)
        dmg.append(0.0 if harmless else level(z) - level(before))
        cyc.append(0.25 * n if harmless else dmg[-1] * n)
        before = after
    return np.array(stress), np.array(cyc), dmg


def real_curve(k, u, unit="MPa"):
    _, _, m, a = TABLE[k]
    end = 0
    if k in BELOW:
        end = max(2.0 ** (a_ - m_ * (BELOW[k] - 0.5)) for m_, a_ in zip(m, a))
    return damage.curve([(m_, 2.0**a_) for m_, a_ in zip(m, a)], end, u, unit)


def count(stress, cyc, unit="MPa"):
    from py_fatigue import CycleCount

    return CycleCount(count_cycle=cyc, stress_range=stress, mean_stress=np.zeros(len(cyc)),
                      timestamp=damage.NOW, unit=unit)


def replay_case(txt):
    from py_fatigue.damage import stress_life as sl

    k, loads, d, final, exps = (core.tla_value(x) for x in txt)
    bad = Mismatch()
    rule, b, _, _ = TABLE[k]
    h = zlib.crc32(repr((core.SEED, txt)).encode())
    u = (1.0, 37.0, 3.1e-5)[h % 3]
    stress, cyc, dmg = physical(k, loads, d, u)
    sn = real_curve(k, u)
    name = NAMES[rule][h // 3 % len(NAMES[rule])]
    kw = {} if rule == "sijian" else {"base_exponent": b}
    if rule == "pavlou" and h // 9 % 2:
        kw["ultimate_stress"] = 450.0  # cancels out
    want = level(final)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        bad.close(f"{name} {kw}", sl.calc_nonlinear_damage(name, stress, cyc, sn, **kw), want,
                  rtol=1e-7)
        bad.close(f"{name} {kw} of a count",
                  sl.get_nonlinear_damage(name, count(stress, cyc), sn, **kw), want, rtol=1e-7)
        form = (list, pd.Series, tuple)[h // 18 % 3]
        bad.close(f"{name} {kw} of a {form.__name__}",
                  sl.calc_nonlinear_damage(name, form(stress), form(cyc), sn, **kw), want,
                  rtol=1e-7)
        if DEFAULT.get(rule) == b:
            bad.close(f"{name} with defaults",
                      sl.calc_nonlinear_damage(name, stress, cyc, sn), want, rtol=1e-7)
        if h % 5 == 0:
            # loads without cycles ahead do not count
            bad.close(f"{name} {kw} behind many loads without cycles", sl.calc_nonlinear_damage(
                name, np.append(np.full(1500, stress[0]), stress), np.append(np.zeros(1500), cyc),
                sn, **kw), want, rtol=1e-7)
        es = [2.0**x for x, _ in exps]
        if rule == "manson":
            bad.seq("exponents", sl.calc_manson_halford_exponents(sn.get_cycles(stress), b), es,
                    rtol=1e-7)
        elif rule == "pavlou":
            bad.seq("exponents", sl.calc_pavlou_exponents(stress, exponent=b), es, rtol=1e-7)
        elif rule == "sijian":
            bad.seq("exponents", sl.calc_si_jian_exponents(stress), es, rtol=1e-7)
        # with all exponents one the result is the Miner sum
        bad.close("leve 1", sl.calc_nonlinear_damage("leve", stress, cyc, sn, base_exponent=1),
                  sum(dmg), rtol=1e-7)
        for flat in ("manson", "pavlou"):
            bad.close(f"{flat} 0", sl.calc_nonlinear_damage(
                flat, stress, cyc, sn, base_exponent=0, ultimate_stress=900.0), sum(dmg),
                      rtol=1e-7)
        bad.close("Miner sum", float(np.sum(sl.calc_pm(stress, cyc, sn))), sum(dmg), rtol=1e-7)
    return bad


def refusal_case(_):
    from py_fatigue.damage import stress_life as sl

    bad = Mismatch()
    stress, cyc = np.array([10.0, 20.0]), np.array([1.0, 2.0])
    sn = damage.curve([(3, 1e10)], 0, 1.0)
    for rule in ("miner", "", "marco starkey", "levee"):
        bad.raises(f"rule {rule!r}", ValueError,
                   lambda: sl.calc_nonlinear_damage(rule, stress, cyc, sn))
        bad.raises(f"rule {rule!r} of a count", ValueError,
                   lambda: sl.get_nonlinear_damage(rule, count(stress, cyc), sn))
    for names in NAMES.values():
        for rule in names:
            for unit in ("kPa", "Pa", "GPa", "ksi", "N/mm2", "mPa", "MPa "):
                bad.raises(f"{rule}: count in MPa, curve in {unit}", ValueError,
                           lambda: sl.get_nonlinear_damage(
                               rule, count(stress, cyc),
                               damage.curve([(3, 1e10)], 0, 1.0, unit=unit)))
                bad.raises(f"{rule}: count in {unit}, curve in MPa", ValueError,
                           lambda: sl.get_nonlinear_damage(rule, count(stress, cyc, unit=unit), sn))
    return bad


# ------------------------------------------------------------ random traces


def random_loads(rng, k, length):
    """A random long behaviour, as the real code sees it: the abstract history
    is rebuilt by TLC from the loads, so only admissible steps are taken."""
    rule, _, m, a = TABLE[k]
    p, q = EXPONENT[k]
    life = lambda s: max(a_ - m_ * s for m_, a_ in zip(m, a))
    loads, tries = [], 0
    d = NOTHING
    while len(loads) < length and tries < 400:
        tries += 1
        s, z = rng.choice((0, 1, 2, 3, 4, 8)), 16 * rng.randint(-8, 4)
        harmless = s < BELOW.get(k, -99)
        if rule == "leve":
            z = d if harmless else z
            if not harmless and z <= d or z * p % q or abs(z * p) > 500 and z != NOTHING:
                continue
            d = z if z == NOTHING else z * p // q
        elif loads:
            x = p * (life(loads[-1][0]) - life(s) if rule == "manson" else s - loads[-1][0])
            if x % q or not -4 <= x // q <= 3:
                continue
            x //= q
            zz = loads[-1][1]
            if x < 0 and zz != NOTHING and zz % 2**-x or x >= 0 and -9999 < zz * 2**x < -500:
                continue
            dd = raised(zz, x)
            z = dd if harmless else z
            if z <= dd and not harmless:
                continue
            d = dd
        elif harmless:
            z = NOTHING
        loads.append((s, z))
    return loads


def random_record(rng):
    """Long behaviours run with all their prefixes: the damage of the prefix
    is the damage the rule reports if the sequence ends there."""
    from py_fatigue.damage import stress_life as sl

    k = rng.randrange(1, len(TABLE))
    rule, b, _, _ = TABLE[k]
    loads = random_loads(rng, k, rng.randint(2, 14))
    if not loads:
        return None
    # counts of each load need the damage before it, as the model has it
    before = history(k, loads)
    u = rng.choice([1.0, 10.0])
    stress, cyc, _ = physical(k, loads, before, u)
    sn = real_curve(k, u)
    kw = {} if rule == "sijian" else {"base_exponent": b}
    finals = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for j in range(1, len(loads) + 1):
            x = sl.calc_nonlinear_damage(NAMES[rule][0], stress[:j], cyc[:j], sn, **kw)
            y = np.log(x) / np.log(BASE) if x > 0 else float("nan")
            finals.append(round(y) if y == y and abs(y - round(y)) < 1e-4 else NOTHING)
    return {"k": k, "loads": loads, "finals": finals, "before": before}


def raised(z, x):
    if z == NOTHING:
        return z
    return z * 2**x if x >= 0 else z // 2**-x


def history(k, loads):
    rule, _, m, a = TABLE[k]
    p, q = EXPONENT[k]
    life = lambda s: max(a_ - m_ * s for m_, a_ in zip(m, a))
    d = []
    for i, (s, z) in enumerate(loads):
        if rule == "leve":
            d.append(z if z == NOTHING else z * p // q)
        elif i + 1 < len(loads):
            t = loads[i + 1][0]
            x = p * (life(s) - life(t) if rule == "manson" else t - s) // q
            d.append(raised(z, x))
        else:
            d.append(z)
    return d


def check(chk):
    r = chk.explore("NonlinearMC", f"NonlinearMC_{core.TIER}")
    names = ("k", "loads", "d", "final", "exps")
    cases = [tuple(st[n] for n in names) for st in core.read_dump(r.dump, names, raw=names)
             if st["loads"] != "<<>>"]
    chk.replay("loads", replay_case, cases)
    chk.replay("refusals", refusal_case, [0], chunk=1)
    recs = chk.record("loads", lambda: random_record(chk.rng), 300 if core.quick else 3000)

    def corrupt():
        wrong = []
        for f in ("finals", "before"):
            c = copy.deepcopy(next(x for x in recs if len(x["loads"]) > 2))
            c[f][1] += 1
            wrong.append(c)
        return wrong

    chk.validate("random-loads", "NonlinearTrace", recs, corrupt)
