"""C04: adding counts loses, invents and alters no cycles."""

import warnings

import core
import counts
import ctrace
from adapt import Mismatch

CLAUSES = ("rows", "res", "mm", "bins", "small", "times")


def on_op(bad, what, pool, op, new, a):
    if op[0] == "add":
        x, y = pool[op[1] - 1], pool[op[2] - 1]
        if not counts.same_rows(counts.cycles(new), counts.cycles(x) + counts.cycles(y)):
            bad.append(f"{what}: entries are not those of the operands in operand order")


replay_history = counts.Replay({"add": CLAUSES}, on_op=on_op)


def neutral_case(st):
    """Zero, None, NaN and foreign operands on every initial and derived count."""
    bad = Mismatch()
    origin = counts.ORIGIN[st["cfg"]]
    counts.calendar(st["cfg"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for o, a in zip(origin, counts.abstract(st)):
            x = counts.build(o, a)
            for z in (0, None, float("nan"), 0.0):
                for name, y in ((f"x + {z}", x + z), (f"{z} + x", z + x)):
                    counts.compare(bad, name, y, a)
                    if not y == x:
                        bad.append(f"{name} is not equal to x")
            for z in (1, "a", [x], 2.5, object(), {"a": 1}, (), True):
                bad.raises(f"x + {z!r}", TypeError, lambda z=z: x + z)
                bad.raises(f"{z!r} + x", TypeError, lambda z=z: z + x)
            counts.compare(bad, "x after all that", x, a)
    return bad


def check(chk):
    sts = counts.histories(chk)
    chk.replay("histories", replay_history, sts, chunk=100)
    first = {st["cfg"]: st for st in sts}
    chk.replay("neutral", neutral_case, [first[k] for k in sorted(first)], chunk=1)
    ctrace.validate(
        chk, "C04", ["add", "sum", "sum", "mul", "solve"], ("add", "sum"),
        60 if core.quick else 400,
        ("rows", "drop", "res", "rlb", "rbw", "mlb", "mbw", "small", "times", "unit", "refuse", "after"),
        n_obj=8,
    )
