"""What counts show: shared by C22 (numbers) and C23 (plots)."""

import html
import re

import numpy as np

import bins

NAMES = ("es", "view")
PAR = {"rlb": 0, "rbw": 2, "mlb": -40, "mbw": 4}
# Units in which the doubled and halved numbers stay exact.
SCALES = (1.0, 0.25, 2.0**-20, 1000.0)


def scale(case):
    return SCALES[bins.zlib.crc32(repr((bins.core.SEED, case)).encode()) % len(SCALES)]


def count(es, u, **kw):
    from py_fatigue import CycleCount

    cc = CycleCount(
        count_cycle=np.array([e[2] / 2 for e in es]),
        stress_range=np.array([e[0] * u for e in es]),
        mean_stress=np.array([e[1] * u for e in es]),
        timestamp=bins.NOW, range_bin_lower_bound=PAR["rlb"] * u,
        range_bin_width=PAR["rbw"] * u, mean_bin_width=PAR["mbw"] * u, **kw)
    cc.mean_bin_lower_bound = PAR["mlb"] * u
    return cc


def ints(xs, u=1.0):
    return [bins.near_int(x / u) for x in np.ravel(np.asarray(xs, dtype=float)).tolist()]


def summary(cc):
    """The rows of the displayed summary."""
    txt = cc._repr_html_()  # what notebooks display
    rows = re.findall(r"<th>([^<]*)</th>\s*<td>([^<]*)</td>", txt)
    return {html.unescape(k).split(",")[0].strip(): html.unescape(v).strip() for k, v in rows}


def number(txt):
    try:
        return float(txt)
    except (TypeError, ValueError):
        return None


def small_entries(rng, n):
    """Random entries <<range, mean, 2*count>>."""
    return [(rng.randint(1, 14), rng.randint(-12, 12), rng.choice([1, 2, 2, 3, 4, 6]))
            for _ in range(n)]
