------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Cracks on the outside of a hollow cylinder, and the bodies cracks may    *)
(* have.  The cracked section is a ring without a lens: the lens lies       *)
(* between the outer circle and the crack front, an arc through the two     *)
(* ends of the crack and through the point one crack depth below the        *)
(* surface.  Half the crack follows the outer circle over ratio * depth.    *)
(* The factor relates the bending stress of the net section, at a tenth of  *)
(* its height away from the chord of the crack, to that of the whole ring.  *)
(*                                                                         *)
(* Factor integrates the section strip by strip.  Lengths are in units of   *)
(* 1/10000 of the outer radius, depth and thickness in thousandths of it,   *)
(* the ratio in hundredths and the factor in ten thousandths.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, FiniteSetsExt, GeometryTable

Unit == 10000
Strip == 20
Strips == 0..((2 * Unit) \div Strip - 1)
Middle(k) == k * Strip + Strip \div 2 - Unit
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
Root(n) == IF n <= 0 THEN 0 ELSE Newton(n, IF n > 100000000 THEN 46340 ELSE 10000)
Round(n, d) == (n + d \div 2) \div d

\* Alternating series x^s / s! - x^(s+2) / (s+2)! + ...
RECURSIVE Series(_, _, _)
Series(x, term, s) ==
  IF term = 0 THEN 0
  ELSE term - Series(x, Round(Round(term * x, Unit) * x, Unit * (s + 1) * (s + 2)), s + 2)
Sin(x) == Series(x, x, 1)
Cos(x) == Series(x, Unit, 0)

Sum(f) == FoldFunction(LAMBDA a, b : a + b, 0, f)
Disc == [k \in Strips |-> Root(Unit * Unit - Middle(k) * Middle(k))]
Moment0(h) == Sum(h)
Moment1(h) == Sum([k \in Strips |-> Round(Middle(k) * h[k], Unit)])
Moment2(h) == Sum([k \in Strips |-> Round(Round(Middle(k) * Middle(k), Unit) * h[k], Unit)])

Ring(thickness) ==
  LET r == Unit - 10 * thickness
  IN [k \in Strips |-> Disc[k] - Root(r * r - Middle(k) * Middle(k))]
HalfAngle(depth, ratio) == (ratio * depth) \div 10
\* How far the front reaches beyond the chord of the crack.
Sag(depth, ratio) == 10 * depth - (Unit - Cos(HalfAngle(depth, ratio)))
Lens(depth, ratio) ==
  LET x0 == -Cos(HalfAngle(depth, ratio))
      y0 == Sin(HalfAngle(depth, ratio))
      sag == Sag(depth, ratio)
      tip == x0 + sag
      twice == (y0 * y0) \div sag + sag \* the diameter of the front
      height(x) == Root((tip - x) * (twice - (tip - x)))
      \* strips cut by the chord or by the tip count with their part
      part(k) ==
        LET a == Middle(k) - Strip \div 2
            b == Middle(k) + Strip \div 2
            lo == IF a > x0 THEN a ELSE x0
            hi == IF b < tip THEN b ELSE tip
        IN IF hi <= lo THEN 0
           ELSE Round(height((lo + hi) \div 2) * (hi - lo), Strip)
              + (IF a >= x0 THEN 0 ELSE Round(Disc[k] * (x0 - a), Strip))
  IN [k \in Strips |-> IF Middle(k) + Strip \div 2 <= x0 THEN Disc[k] ELSE part(k)]

Factor(depth, thickness, ratio) ==
  LET ring == Ring(thickness)
      lens == Lens(depth, ratio)
      net == [k \in Strips |-> ring[k] - lens[k]]
      area == Moment0(net)
      mid == (Moment1(net) * 100) \div (area \div 100)
      inertia == Moment2(net) - ((area \div 100) * Round(mid * mid, Unit)) \div 100
      c == Cos(HalfAngle(depth, ratio))
      at == c + mid - Round(Unit + c, 10)
  IN ((Moment2(ring) \div 10) * at) \div (inertia \div 10)

\* Cracks the section can have: the front closes below the chord.
Regular(depth, ratio) ==
  LET h == HalfAngle(depth, ratio)
  IN h <= 13000 /\ 100 * 10 * depth >= 114 * (Unit - Cos(h))

(***************************************************************************)
(* The bodies: which sizes are accepted.  NotNumber stands for anything     *)
(* that is no number.  Whether a solid body may be cracked through is left  *)
(* open.                                                                    *)
(***************************************************************************)
NotNumber == 99
Positive(x) == x # NotNumber /\ x > 0
YesNo(x) == IF x THEN "yes" ELSE "no"
Hollow(b) == YesNo(
  /\ Positive(b.depth) /\ Positive(b.diameter) /\ Positive(b.thickness)
  /\ Positive(b.height) /\ Positive(b.ratio)
  /\ 2 * b.thickness < b.diameter
  /\ b.thickness > b.depth
  /\ b.where \in {"internal", "external"})
Solid(b) == IF Positive(b.depth) /\ Positive(b.diameter) /\ Positive(b.height)
            THEN IF b.depth < b.diameter THEN "yes" ELSE "open" ELSE "no"
Surface(b) == YesNo(Positive(b.depth))

(***************************************************************************)
(* The drawing of a crack.  Circles in 1/10000 of the outer radius; points  *)
(* of the crack relative to the middle of its mouth, inwards and along the  *)
(* mouth, in 1/250 of its depth.                                            *)
(***************************************************************************)
Deviation(a, b) == IF a > b THEN a - b ELSE b - a
OnCircle(p, r) == Deviation(p[1] * p[1] + p[2] * p[2], r * r) <= 6 * r
\* A closed curve that goes all the way round.
Round4(ps, r) == \A d \in {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>} :
                   \E i \in DOMAIN ps : 100 * (ps[i][1] * d[1] + ps[i][2] * d[2]) >= 98 * r
CircleOk(ps, r) == (\A i \in DOMAIN ps : OnCircle(ps[i], r)) /\ Round4(ps, r)

EndOf(depth, ratio) ==
  LET h == HalfAngle(depth, ratio)
  IN <<(25 * (Unit - Cos(h))) \div depth, (25 * Sin(h)) \div depth>>
Sq(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
NearPoint(p, q) == Sq(p, q) <= 64
\* On the circle through the tip and the ends, to within about 4 / 250.
OnFront(p, e) ==
  LET t == <<250, 0>>
      a == Sq(p, t)
      b == Sq(e, t)
      s == t[1] - e[1]
      g == t[1] - p[1]
  IN /\ g >= -4 /\ p[1] >= e[1] - 6
     /\ Deviation(a * s, b * g) <= 5 * (2 * Root(a) * s + a + b + 2 * Root(b) * (IF g < 0 THEN 0 ELSE g))
\* On the outer circle, between the ends: distance r from <<r, 0>>.
OnMouth(p, e, depth) ==
  LET r == 250000 \div depth
  IN /\ p[1] <= e[1] + 6
     /\ Deviation(p[1] * p[1] + p[2] * p[2], 2 * r * p[1]) <= 12 * r
CrackBad(ps, depth, ratio) ==
  LET e == EndOf(depth, ratio)
      some(q) == \E i \in DOMAIN ps : NearPoint(ps[i], q)
  IN (IF \A i \in DOMAIN ps : OnFront(ps[i], e) \/ OnMouth(ps[i], e, depth)
      THEN {} ELSE {"crack off its front"})
     \cup (IF \E i \in DOMAIN ps : ps[i][1] >= 246 THEN {} ELSE {"crack depth"})
     \cup (IF some(e) /\ some(<<e[1], -e[2]>>) THEN {} ELSE {"crack ends"})
=============================================================================
