"""Entries, dictionaries and bins of spec/Binning.tla as real objects.  Shared
by C07, C08 and C20."""

import datetime as dt
import zlib

import numpy as np

import core

NOW = dt.datetime(2021, 1, 1, tzinfo=dt.timezone.utc)
SCALES = (1.0, 0.25, 0.05, 10.0, 0.0025)
FINE = (1e-6, 4e-9)  # in need of more decimals than usual
NOT_AN_INTEGER = 2**30


def scale_of(case, n=1):
    """The scales at which a case is tried, spread evenly over the cases."""
    k = zlib.crc32(repr((core.SEED, case)).encode())
    all_ = SCALES + FINE
    return [all_[(k + i) % len(all_)] for i in range(n)]


def decimals(u):
    """How exactly to write stresses in units of u."""
    return {"round_decimals": 14} if u in FINE else {}


def near_int(x):
    return round(x) if x == x and abs(x - round(x)) < 1e-6 * max(1, abs(x)) else NOT_AN_INTEGER


def phys(x, u):
    """x units of u as the decimal number a user would write."""
    return round(x * u, 14)


def count(entries, par, u, residuals=()):
    """The count holding entries <<range, mean, 2*count>> (in units of u)."""
    from py_fatigue import CycleCount

    cc = CycleCount(
        count_cycle=np.array([e[2] / 2 for e in entries]),
        stress_range=np.array([phys(e[0], u) for e in entries]),
        mean_stress=np.array([phys(e[1], u) for e in entries]),
        timestamp=NOW,
        range_bin_lower_bound=phys(par["rlb"], u), range_bin_width=phys(par["rbw"], u),
        mean_bin_width=phys(par["mbw"], u), nr_small_cycles=par.get("small", 0),
        residuals_sequence=np.array([phys(v, u) for v in residuals]),
    )
    if par["mlb"] is not None:
        cc.mean_bin_lower_bound = phys(par["mlb"], u)
    return cc


def rows(cc, u):
    return sorted(
        (near_int(r / u), near_int(m / u), near_int(2 * c))
        for r, m, c in zip(np.asarray(cc.stress_range).tolist(),
                           np.asarray(cc.mean_stress).tolist(),
                           np.asarray(cc.count_cycle).tolist())
    )


def cells(hist, flat):
    """<<mean bin, range bin>> of every cycle in the histogram."""
    res = []
    for i, row in enumerate([hist] if flat else hist):
        for j, n in enumerate(row):
            res += [(i, j)] * near_int(n)
    return res


def pairs(values, u, flat):
    if flat:
        return [(0, near_int(v / u)) for v in values]
    return [(near_int(m / u), near_int(r / u)) for m, r in values]


def parts(d, u, flat=False):
    """The abstract content of a dictionary written by the real code."""
    return {
        "small": near_int(d["nr_small_cycles"]),
        "cells": sorted(cells(d["hist"], flat)),
        "lg": sorted(pairs(d["lg_c"], u, flat)),
        "res": sorted(pairs(d["res"], u, flat)),
    }
