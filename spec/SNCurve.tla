------------------------------ MODULE SNCurve -------------------------------
(***************************************************************************)
(* Stress-life curves in the logarithmic domain.  s is the logarithm of a  *)
(* stress, n that of a number of cycles, both in the same (arbitrary) unit, *)
(* so a segment is the line n = A - m * s with integers A and m.           *)
(* A curve is [m |-> slopes, a |-> intercepts, e |-> endurance or Never].  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
Never == 1000000       \* no endurance; also an infinite number of cycles
Segs(c) == 1..Len(c.m)
Line(c, j, s) == c.a[j] - c.m[j] * s

\* The segment that governs is the one allowing most cycles.
Plain(c, s) == Max({Line(c, j, s) : j \in Segs(c)})
Cycles(c, s) == IF Plain(c, s) > c.e THEN Never ELSE Plain(c, s)
\* Equality with the endurance is a matter of rounding in the real code.
CyclesUnsettled(c, s) == Plain(c, s) = c.e

\* Stresses are fractions <<p, q>>, q > 0.
Less(x, y) == x[1] * y[2] < y[1] * x[2]
Same(x, y) == x[1] * y[2] = y[1] * x[2]
MaxFrac(X) == CHOOSE x \in X : \A y \in X : ~Less(x, y)
At(c, j, n) == <<c.a[j] - n, c.m[j]>>
Stress(c, n) ==
  LET free == MaxFrac({At(c, j, n) : j \in Segs(c)})
      limit == At(c, Len(c.m), c.e)
  IN IF c.e # Never /\ Less(free, limit) THEN limit ELSE free

\* Knee between segments j and j+1: stress and cycles as fractions.
KneeStress(c, j) == <<c.a[j + 1] - c.a[j], c.m[j + 1] - c.m[j]>>
KneeCycles(c, j) ==
  LET k == KneeStress(c, j) IN <<c.a[j] * k[2] - c.m[j] * k[1], k[2]>>
Knees(c) == 1..(Len(c.m) - 1)
\* Slopes increase and so does the number of cycles from knee to knee.
Proper(c) ==
  /\ \A j \in Knees(c) : c.m[j] < c.m[j + 1]
  /\ \A j \in Knees(c) : j + 1 \in Knees(c) => Less(KneeStress(c, j + 1), KneeStress(c, j))
\* An endurance below a knee is refused.
CutsKnee(c) == c.e # Never /\ \E j \in Knees(c) : Less(<<c.e, 1>>, KneeCycles(c, j))
CutUnsettled(c) == \E j \in Knees(c) : Same(<<c.e, 1>>, KneeCycles(c, j))
=============================================================================
