"""Writes spec/GeometryTable.tla, the reference factors of spec/Geometry.tla.

The section is described by its boundaries only; area, centroid and moment of
inertia follow from boundary integrals (Green's theorem), without any of the
closed formulas for circular segments.  Lengths are in thousandths of the
outer radius, ratios in hundredths, factors in millionths.

    python3 tools/geometry_table.py > spec/GeometryTable.tla
"""

import math

N = 200


def gauss(n):
    """Nodes and weights of Gauss-Legendre on [-1, 1]."""
    res = []
    for i in range(1, n + 1):
        x = math.cos(math.pi * (i - 0.25) / (n + 0.5))
        for _ in range(100):
            p, q = 1.0, 0.0
            for k in range(1, n + 1):
                p, q = ((2 * k - 1) * x * p - (k - 1) * q) / k, p
            d = n * (x * p - q) / (x * x - 1)
            x -= p / d
        res.append((x, 2 / ((1 - x * x) * d * d)))
    return res


NODES = gauss(N)


def arc(cx, r, t0, t1):
    """Integrals of 1, x and x^2 over the region left of an arc."""
    s0 = s1 = s2 = 0.0
    for u, w in NODES:
        t = (t0 + t1) / 2 + (t1 - t0) / 2 * u
        x, dy = cx + r * math.cos(t), r * math.cos(t) * (t1 - t0) / 2 * w
        s0 += x * dy
        s1 += x * x / 2 * dy
        s2 += x**3 / 3 * dy
    return s0, s1, s2


def factor(depth, thickness, ratio):
    """Outer radius 1; the crack is at x = -1."""
    half = ratio * depth  # half the angle seen from the centre
    cx, cy = -math.cos(half), math.sin(half)  # upper end of the crack
    # the front is the arc through both ends and (-(1 - depth), 0)
    h = cx + (1 - depth)  # negative: the front lies inside the chord
    sag = -h
    r = (cy * cy + sag * sag) / (2 * sag)
    centre = -(1 - depth) - r
    turn = math.atan2(cy, cx - centre)
    ring = [a - b for a, b in zip(arc(0, 1, 0, 2 * math.pi),
                                  arc(0, 1 - thickness, 0, 2 * math.pi))]
    lens = [a + b for a, b in zip(arc(0, 1, math.pi - half, math.pi + half),
                                  arc(centre, r, -turn, turn))]
    area, first, second = (a - b for a, b in zip(ring, lens))
    middle = first / area
    inertia = second - area * middle**2
    # a tenth of the remaining height away from the crack's chord
    at = -math.cos(half) - middle + 0.1 * (1 + math.cos(half))
    return -ring[2] * at / inertia


def shapes():
    for thickness in (20, 60, 150, 400, 800):
        for part in (5, 30, 60, 95):
            depth = thickness * part / 100
            for ratio in (30, 60, 100, 150, 200, 300):
                half = ratio / 100 * depth / 1000
                if depth / 1000 < 1.15 * (1 - math.cos(half)) or half > 1.3:
                    continue
                yield round(depth), thickness, ratio


if __name__ == "__main__":
    rows = [f"{d}, {t}, {q}, {round(1e6 * factor(d / 1000, t / 1000, q / 100))}"
            for d, t, q in shapes()]
    print("--------------------------- MODULE GeometryTable ---------------------------")
    print("(* Written by tools/geometry_table.py: depth and thickness in thousandths   *)")
    print("(* of the outer radius, ratio in hundredths, factor in millionths.          *)")
    print("Table == <<")
    print(",\n".join(f"  <<{r}>>" for r in rows))
    print(">>")
    print("=" * 76)
