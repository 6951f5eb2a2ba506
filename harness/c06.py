"""C06: multiplying a count by a stress factor."""

import warnings

import numpy as np

import core
import counts
import ctrace
import rf
from adapt import Mismatch

CLAUSES = ("rows", "res", "mm", "bins", "scf", "small", "times", "unit", "solved", "corr")


def on_op(bad, what, pool, op, new, a):
    if op[0] == "mul":
        x, f = pool[op[1] - 1], op[2] / op[3]
        bad.seq(f"{what}: counts in order", np.asarray(new.count_cycle).tolist(),
                np.asarray(x.count_cycle).tolist())
        bad.seq(f"{what}: ranges in order", np.asarray(new.stress_range).tolist(),
                (f * np.asarray(x.stress_range)).tolist())
        bad.seq(f"{what}: means in order", np.asarray(new.mean_stress).tolist(),
                (f * np.asarray(x.mean_stress)).tolist())


replay_history = counts.Replay({"mul": CLAUSES}, on_op=on_op)


def refusal_case(st):
    """Everything that is not a number is refused, whatever the count."""
    bad = Mismatch()
    spec = counts.abstract(st)
    counts.calendar(st["cfg"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pool = [counts.build(o, a) for o, a in zip(counts.ORIGIN[st["cfg"]], spec)]
        for i, c in enumerate(pool):
            for z in ("2", None, [2.0], (2,), {2}, {"a": 2}, 2j, object(), c, np.array([1.0, 2.0]),
                      b"2"):
                bad.raises(f"count * {z!r}", TypeError, lambda z=z: c * z)
                if not isinstance(z, np.ndarray):
                    bad.raises(f"{z!r} * count", TypeError, lambda z=z: z * c)
            for z in (2, 2.0, 0.5, np.float64(1.5)):
                l, r = z * c, c * z
                if not l == r:
                    bad.append(f"{z!r} * count is not count * {z!r}")
            counts.compare(bad, f"count {i + 1} afterwards", c, spec[i])
    return bad


def commute_case(case):
    """Counting a scaled signal is scaling the count of the signal."""
    sig, f = case
    bad = Mismatch()
    a = {"rlb": 1, "rbw": 2, "mlb": -50, "mbw": 5, "ts": 0, "unit": "MPa", "name": "x"}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x = f * counts.from_signal(sig, a)
        y = counts.from_signal([f * v for v in sig], a)
        bad.close(f"{f} * count: factor", x.stress_concentration_factor, f, rtol=1e-12)
        z = 1.375 * x
        bad.close(f"1.375 * {f} * count: factor", z.stress_concentration_factor, 1.375 * f,
                  rtol=1e-12)
        bad.eq(f"{f} * count: name", counts.named(x), ("x", [counts.fraction(repr(f))]))
        for q in ("count_cycle", "stress_range", "mean_stress", "residuals_sequence",
                  "min_max_sequence", "stress_amplitude", "min_stress", "max_stress"):
            bad.seq(f"{f} * count({sig if len(sig) < 99 else len(sig)}): {q}", counts.floats(getattr(x, q)),
                    counts.floats(getattr(y, q)), rtol=1e-9, atol=1e-12 * f)
    return bad


def check(chk):
    sts = counts.histories(chk)
    chk.replay("histories", replay_history, sts, chunk=100)
    first = {st["cfg"]: st for st in sts}
    chk.replay("refusals", refusal_case, [first[k] for k in sorted(first)], chunk=1)
    cases = []
    while len(cases) < (400 if core.quick else 4000):
        s = rf.random_signal(chk.rng, chk.rng.randint(2, 60))
        if rf.countable(s):
            cases.append((s, chk.rng.choice([2.0, 0.5, 3.0, 0.75, 1.25, 12.0, 0.0625, 1000.0, 1.0,
                                              1.0625, 0.123456, 1.0001, 3e-5, 2e6, 1.999999,
                                              1 / 3, 0.1234567891, 1e-9, 7e11])))
    for n in (700, 1500, 3000):  # widening first, then anything
        s = [(k + 2) * (-1) ** k for k in range(n)] + [chk.rng.randint(-n, n) for _ in range(n)]
        cases += [(s, f) for f in (0.75, 0.1234567891, 1 / 3)]
    chk.replay("counting", commute_case, cases, chunk=50)
    ctrace.validate(
        chk, "C06", ["add", "mul", "mul", "solve", "correct"], ("mul",),
        60 if core.quick else 400,
        ("rows", "drop", "res", "rlb", "rbw", "mlb", "mbw", "scf", "small", "corr", "after"),
    )
