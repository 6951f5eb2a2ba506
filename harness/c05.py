"""C05: bookkeeping, immutability and equality of cycle counts."""

import copy
import warnings

import numpy as np

import core
import counts
import ctrace
from adapt import Mismatch

replay_history = counts.Replay(
    {k: counts.META for k in ("init", "add", "mul", "solve", "correct")}, after=counts.ALL
)


def variants(cc):
    """Copies of a count each differing in one recorded datum."""

    def arr(x, f):
        y = np.array(x, dtype=float)
        f(y)
        return y

    def bump(y):
        y[len(y) // 2] += 1.0

    out = {}

    def put(label, **kw):
        c = copy.deepcopy(cc)
        for k, v in kw.items():
            setattr(c, k, v)
        out[label] = c

    put("ranges", stress_range=arr(cc.stress_range, bump))
    put("means", mean_stress=arr(cc.mean_stress, bump))
    put("counts", count_cycle=arr(cc.count_cycle, bump))
    put("one entry less", stress_range=cc.stress_range[:-1], mean_stress=cc.mean_stress[:-1],
        count_cycle=cc.count_cycle[:-1])
    put("unit", unit=cc.unit + "x")
    put("time stamp", timestamp=cc.timestamp + counts.STEP)
    put("range bins", range_bin_lower_bound=cc.range_bin_lower_bound + 1.0)
    put("range bin width", range_bin_width=cc.range_bin_width + 1.0)
    put("mean bins", mean_bin_lower_bound=cc.mean_bin_lower_bound + 1.0)
    put("mean bin width", mean_bin_width=cc.mean_bin_width + 1.0)
    put("small cycles", nr_small_cycles=cc.nr_small_cycles + 1)
    put("resolved", lffd_solved=not cc.lffd_solved)
    put("label", mean_stress_corrected="other")
    put("factor", stress_concentration_factor=cc.stress_concentration_factor + 1.0)
    put("name", name=str(cc.name) + "x")
    put("no name", name=None)
    if cc.residuals_sequence is not None and len(cc.residuals_sequence):
        put("residuals", residuals_sequence=arr(cc.residuals_sequence, bump))
        put("shorter residuals", residuals_sequence=cc.residuals_sequence[:-1])
        put("no residuals", residuals_sequence=None)
        put("empty residuals", residuals_sequence=np.empty(0))
    return out


def equality_case(st):
    """Equality of all counts of a history with copies and variants."""
    bad = Mismatch()
    counts.calendar((st["cfg"], st["hist"]))
    spec = counts.abstract(st)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pool = [counts.build(o, a) for o, a in zip(counts.ORIGIN[st["cfg"]], spec)]
        for op in st["hist"]:
            if st["stop"] and op is st["hist"][-1]:
                break
            pool.append(counts.apply(pool, op))
        for i, c in enumerate(pool):
            same = copy.deepcopy(c)
            for x, y in ((c, same), (same, c), (c, c)):
                if not x == y or x != y:
                    bad.append(f"count {i + 1} of {list(st['hist'])} differs from its copy")
            for label, v in variants(c).items():
                for x, y in ((c, v), (v, c)):
                    try:
                        if x == y or not x != y:
                            bad.append(f"count {i + 1} of {list(st['hist'])} equals a copy "
                                       f"with other {label}")
                    except Exception as exc:  # pylint: disable=broad-except
                        bad.append(f"comparing count {i + 1} of {list(st['hist'])} with a copy "
                                   f"with other {label}: {type(exc).__name__}: {exc}")
            for other in (0, None, "a", [1], c.__class__, c.stress_range.tolist()):
                if c == other:
                    bad.append(f"count {i + 1} equals {other!r}")
    return bad


def factors_case(fs):
    """Name and factor of a count that is scaled by arbitrary numbers."""
    bad = Mismatch()
    a = {"rlb": 1, "rbw": 2, "mlb": -50, "mbw": 5, "ts": 0, "unit": "ksi", "name": "x"}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cc, product = counts.from_signal([0, 5, 2, 7, 3], a), 1.0
        for f in fs:
            cc = f * cc if len(fs) % 2 else cc * f
            product *= f
        bad.close(f"count times {fs}: factor", cc.stress_concentration_factor, product,
                  rtol=1e-12, atol=0)
        bad.eq(f"count times {fs}: name", counts.named(cc),
               ("x", [counts.fraction(repr(float(f))) for f in fs]))
        bad.eq(f"count times {fs}: unit", cc.unit, "ksi")
    return bad


def many_case(n):
    """The sum of n counts, and what becomes of it."""
    bad = Mismatch()
    base = {"rlb": 1, "rbw": 2, "mlb": -50, "mbw": 5, "unit": "ksi", "name": "x"}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        parts = [counts.from_signal([0, 5, 2, 7, -3, 8], dict(base, ts=k)) for k in range(n)]
        for p in parts:
            p.nr_small_cycles = 3
        cc = parts[0]
        for p in parts[1:]:
            cc = cc + p
        for name, x in (("sum", cc), ("scaled sum", 2 * cc), ("resolved sum", cc.solve_lffd()),
                        ("resolved extremes", cc.solve_lffd(solve_mode="min-max")),
                        ("corrected sum", cc.mean_stress_correction(detail_factor=0.8)),
                        ("Walker sum", cc.mean_stress_correction("walker", gamma=0.4)),
                        ("sum once more", cc + counts.from_signal([0, 3], dict(base, ts=n)))):
            what = f"{name} of {n} counts"
            more = name == "sum once more"
            bad.eq(f"{what}: times", [t for t in np.ravel(x.time_sequence)],
                   [counts.stamp(k) for k in range(n + more)])
            bad.eq(f"{what}: first time", x.timestamp, counts.stamp(0))
            bad.eq(f"{what}: small cycles", x.nr_small_cycles, 3 * n)
            bad.eq(f"{what}: unit", x.unit, "ksi")
    return bad


def check(chk):
    sts = counts.histories(chk)
    chk.replay("histories", replay_history, sts, chunk=100)
    some = sts if len(sts) < 2000 else chk.rng.sample(sts, 600 if core.quick else 3000)
    chk.replay("equality", equality_case, some, chunk=20)
    chk.replay("many", many_case, [2, 15, 40, 130], chunk=1)
    chk.replay("factors", factors_case, [
        [chk.rng.choice([chk.rng.uniform(0, 3), chk.rng.uniform(0, 1e-4), 10 ** chk.rng.uniform(3, 9),
                         chk.rng.randint(1, 2000), 1 / 3, 1.1]) for _ in range(chk.rng.randint(1, 3))]
        for _ in range(100 if core.quick else 1000)], chunk=25)
    ctrace.validate(
        chk, "C05", ["add", "sum", "mul", "solve", "correct"],
        ("add", "sum", "mul", "solve", "correct"), 80 if core.quick else 500,
        ("small", "times", "ts", "unit", "after"), n_obj=5, n_ops=8,
    )
