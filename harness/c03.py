"""C03: piecewise counting plus low-frequency recovery equals one-shot counting."""

import copy
import warnings
import zlib

import core
import counts
import ctrace
import rf
from adapt import Mismatch

P = {"rlb": 1, "rbw": 1, "mlb": -50, "mbw": 1, "unit": "MPa", "name": "s"}
CLAUSES = ("rows", "res")
SCALES = (1.0, 2.0**-20, 0.25, 2.0**20, -1.0)


def piece(sig, k, u=1.0):
    return counts.from_signal([v * u for v in sig], dict(P, ts=k))


def fold_history(hist, u):
    """Pieces and resolutions exactly as in the behaviour."""
    acc, k = None, 0
    for h in hist:
        if h == ("solve",):
            acc = acc.solve_lffd()
        else:
            new = piece(h, k, u)
            acc = new if acc is None else acc + new
            k += 1
    return acc


def replay_case(case):
    from py_fatigue.cycle_count.cycle_count import pbar_sum

    hist, want = case
    counts.calendar(hist)
    want = core.tla_value(want)
    bad = Mismatch()
    u = SCALES[zlib.crc32(repr((core.SEED, case)).encode()) % len(SCALES)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        acc = fold_history(hist, u)
        solved = acc.solve_lffd()
        counts.compare(bad, f"pieces {list(hist)} resolved", solved, want, CLAUSES, u)
        if bad:
            return bad
        again = solved.resolve_residuals()
        counts.compare(bad, f"pieces {list(hist)} resolved twice", again, want, CLAUSES, u)
        if ("solve",) not in hist:
            ps = [piece(h, k, u) for k, h in enumerate(hist)]
            right = ps[-1]
            for p in reversed(ps[:-1]):
                right = p + right
            for how, c in (("right to left", right), ("by sum", sum(ps)),
                           ("by the bulk sum", pbar_sum(ps))):
                counts.compare(bad, f"pieces {list(hist)} added {how} and resolved",
                               c.solve_lffd(), want, CLAUSES, u)
            whole = [v for h in hist for v in h]
            counts.compare(bad, f"uncut signal {whole}", piece(whole, 0, u), want, CLAUSES, u)
    return bad


def long_case(case):
    """A widening signal, whose residual is itself, cut into hundreds of pieces."""
    n, step, u = case
    bad = Mismatch()
    sig = [(k + 2) * (-1) ** k for k in range(n)] + [n - k if k % 2 else k - n for k in range(n)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ps = [piece(sig[i:i + step], k, u) for k, i in enumerate(range(0, len(sig), step))]
        whole = piece(sig, 0, u)
        for how, c in (("by sum", sum(ps)), ("resolved in between",
                       sum(ps[:len(ps) // 2]).solve_lffd() + sum(ps[len(ps) // 2:]))):
            got = c.solve_lffd()
            what = f"{len(ps)} pieces of {step} values {how}"
            bad.eq(f"{what}: residual", [x / u for x in got.residuals_sequence],
                   [x / u for x in whole.residuals_sequence])
            a, b = (sorted(zip(x.stress_range / u, x.mean_stress / u, x.count_cycle))
                    for x in (got, whole))
            bad.eq(f"{what}: number of cycles", len(a), len(b))
            bad.eq(f"{what}: cycles that differ", [p for p in zip(a, b) if p[0] != p[1]][:3], [])
        # nothing of the widening half closes
        half = piece(sig[:n], 0, u)
        bad.seq("residual of a widening signal", half.residuals_sequence,
                [v * u for v in sig[:n]])
    return bad


def assemble(rng, pieces):
    """Add up with random grouping and random resolutions in between."""
    items = list(pieces)
    while len(items) > 1:
        k = rng.randrange(len(items) - 1)
        items[k : k + 2] = [items[k] + items[k + 1]]
        if rng.random() < 0.25:
            items[k] = items[k].solve_lffd()
    return items[0].resolve_residuals()


def random_record(rng, max_len):
    """A random signal counted in random pieces."""
    while True:
        s = rf.random_signal(rng, rng.randint(6, max_len))
        if max(map(abs, s)) > 5000:
            continue
        cuts, i = [], 0
        few = rng.choice([0.1, 1.0])
        while i < len(s):
            j = i + (rng.choice([2, 3, 5, 8, 13, 30]) if rng.random() < few else 2)
            if len(s) - j < 3:
                j = len(s)
            while j < len(s) and not rf.countable(s[i:j]):
                j += 1
            cuts.append((i, j))
            i = j
        if not rf.countable(s[cuts[-1][0]:]):
            if len(cuts) == 1:
                continue
            cuts[-2:] = [(cuts[-2][0], len(s))]
        break
    scale, offset = rng.choice(rf.MAPS)
    ps = []
    for k, (i, j) in enumerate(cuts):
        x = [v * scale + offset for v in s[i:j]]
        ps.append(counts.from_signal(x, dict(P, ts=k)))
    c = assemble(rng, ps)
    a = abs(scale)
    return {
        "sig": s,
        "rows": [
            [rf.as_int(r / a), rf.as_int((m - offset) * 2 / scale), rf.as_int(2 * n)]
            for r, m, n in zip(c.stress_range, c.mean_stress, c.count_cycle)
        ],
        "res": [rf.as_int((v - offset) / scale) for v in c.residuals_sequence],
        "cuts": cuts,
    }


def random_pieces(chk, n, max_len):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        recs = chk.record("pieces", lambda: random_record(chk.rng, max_len), n)

    def corrupt():
        wrong = []
        for field in range(3):
            c = copy.deepcopy(max(recs[:30], key=lambda r: len(r["rows"])))
            c["rows"][chk.rng.randrange(len(c["rows"]))][field] += 1
            wrong.append(c)
        c = copy.deepcopy(recs[0])
        c["res"][-1] += 1
        wrong.append(c)
        c = copy.deepcopy(recs[1])
        c["rows"].pop()
        wrong.append(c)
        return wrong

    chk.validate("random-pieces", "RainflowTrace", recs, corrupt, env_extra={"PROP": "C03"})


def check(chk):
    r = chk.explore("LffdMC", f"LffdMC_{core.TIER}")
    cases = [
        (st["hist"], st["want"])
        for st in core.read_dump(r.dump, ("hist", "piece", "want"), raw=("want", "piece"))
        if st["hist"] and st["piece"].replace(" ", "") == "<<>>"
    ]
    chk.replay("pieces", replay_case, cases, chunk=200)
    chk.replay("long residuals", long_case,
               [(400, 4, 1.0), (500, 8, 0.25), (601, 100, 2.0**-20), (900, 10, 1.0)], chunk=1)
    random_pieces(chk, 120 if core.quick else 800, 120 if core.quick else 300)
    sts = counts.histories(chk)
    chk.replay("histories", counts.Replay({"solve": CLAUSES + ("solved",)}), sts, chunk=100)
    ctrace.validate(chk, "C03", ["add", "sum", "solve", "solve", "mul"], ("solve",),
                    40 if core.quick else 300, ("rows", "drop", "res"))
