"""C16: crack growth block by block."""

import core
import crack


def check(chk):
    crack.explore(chk, "steps")
    crack.ties(chk)
    chk.replay("long lists", crack.long_case,
               [(chk.rng.getrandbits(30), k % 2 == 1, False) for k in range(4)], chunk=1)
    crack.validate(chk, 300 if core.quick else 3000, fast=False)
