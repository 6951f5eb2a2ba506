"""Access to the real code in /repo, through its public API only."""

import math
import os
import time

import core

_loaded = {}


def load():
    """Import py_fatigue from /repo (never from anywhere else)."""
    if _loaded:
        return
    time.sleep = lambda *_: None  # bulk sums pause for their progress bar
    import py_fatigue  # pylint: disable=import-outside-toplevel

    path = os.path.realpath(py_fatigue.__file__)
    if not path.startswith("/repo/"):
        raise core.MachineryError(f"py_fatigue comes from {path}")
    _loaded["pf"] = py_fatigue


class Mismatch(list):
    """Collects mismatch messages."""

    def eq(self, what, got, want):
        if got != want:
            self.append(f"{what}: got {got!r}, specification says {want!r}")

    def close(self, what, got, want, rtol=1e-9, atol=1e-12):
        ok = (
            got == want
            or (got != got and want != want)
            or abs(want) < math.inf and abs(got - want) <= atol + rtol * abs(want)
        )
        if not ok:
            self.append(f"{what}: got {got!r}, specification says {want!r}")

    def seq(self, what, got, want, rtol=1e-9, atol=1e-12):
        got, want = list(got), list(want)
        if len(got) != len(want):
            self.append(f"{what}: {len(got)} values {got[:12]!r}, specification "
                        f"says {len(want)}: {want[:12]!r}")
            return
        for i, (g, w) in enumerate(zip(got, want)):
            n = len(self)
            self.close(f"{what}[{i}]", g, w, rtol, atol)
            if len(self) > n:
                return

    def raises(self, what, exc, fun):
        """fun() has to raise one of exc."""
        try:
            r = fun()
        except exc:
            return None
        except Exception as e:  # pylint: disable=broad-except
            self.append(f"{what}: raised {type(e).__name__} ({e}) instead of {exc}")
            return None
        self.append(f"{what}: accepted, returned {str(r)[:80]!r}")
        return r
