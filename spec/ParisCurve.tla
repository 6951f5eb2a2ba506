----------------------------- MODULE ParisCurve -----------------------------
(***************************************************************************)
(* Crack growth curves in the logarithmic domain.  k is the logarithm of a *)
(* stress intensity, r that of a growth rate, both in the same (arbitrary)  *)
(* unit, so a segment is the line r = A + m * k.                            *)
(* A curve is [m |-> slopes, a |-> intercepts, t |-> threshold, c |->       *)
(* critical] with t = Nil for no threshold and c = Inf for no limit.        *)
(* Unlike stress-life curves the slopes need not be ordered, so a segment   *)
(* governs between its two knees.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Inf == 100000000     \* the logarithm of infinity
Nil == -100000000    \* the logarithm of zero
Segs(c) == 1..Len(c.m)
Knees(c) == 1..(Len(c.m) - 1)
Line(c, j, k) == c.a[j] + c.m[j] * k

\* Fractions <<p, q>> with q > 0.
Frac(p, q) == IF q > 0 THEN <<p, q>> ELSE <<-p, -q>>
Less(x, y) == x[1] * y[2] < y[1] * x[2]
Same(x, y) == x[1] * y[2] = y[1] * x[2]
Whole(x) == <<x, 1>>

\* Knee between segments j and j + 1: intensity and rate.
KneeSif(c, j) == Frac(c.a[j] - c.a[j + 1], c.m[j + 1] - c.m[j])
KneeRate(c, j) ==
  LET k == KneeSif(c, j) IN <<c.a[j] * k[2] + c.m[j] * k[1], k[2]>>

\* A curve whose knees are out of order or outside threshold and critical
\* cannot be evaluated.
Ordered(c) == \A j \in Knees(c) : j + 1 \in Knees(c) => Less(KneeSif(c, j), KneeSif(c, j + 1))
Inside(c) == \A j \in Knees(c) : /\ c.t # Nil => Less(Whole(c.t), KneeSif(c, j))
                                 /\ c.c # Inf => Less(KneeSif(c, j), Whole(c.c))
Usable(c) == Ordered(c) /\ Inside(c)
\* A knee on the threshold or critical value is a matter of rounding.
UsableUnsettled(c) == \E j \in Knees(c) : Same(KneeSif(c, j), Whole(c.t)) \/ Same(KneeSif(c, j), Whole(c.c))

\* The segment governing at the intensity / rate given as a fraction.
SegAt(c, x) ==
  IF c.m = <<>> THEN 0
  ELSE 1 + Cardinality({j \in Knees(c) : ~Less(x, KneeSif(c, j))})
SegAtRate(c, y) == 1 + Cardinality({j \in Knees(c) : ~Less(y, KneeRate(c, j))})

Rate(c, k) ==
  IF k = Nil THEN Nil
  ELSE IF c.t # Nil /\ k < c.t THEN Nil
  ELSE IF k > c.c \/ k = Inf THEN Inf
  ELSE Line(c, SegAt(c, Whole(k)), k)
ThresholdRate(c) == Rate(c, c.t)
CriticalRate(c) == Rate(c, c.c)

\* The intensity for a rate, as a fraction.
Sif(c, r) ==
  IF r = Nil \/ (c.t # Nil /\ r < ThresholdRate(c)) THEN Whole(c.t)
  ELSE IF r = Inf \/ (c.c # Inf /\ r > CriticalRate(c)) THEN Whole(c.c)
  ELSE LET j == SegAtRate(c, Whole(r)) IN <<r - c.a[j], c.m[j]>>
=============================================================================
