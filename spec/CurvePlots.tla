----------------------------- MODULE CurvePlots -----------------------------
(***************************************************************************)
(* Drawn curves.  A drawing is a sequence of vertices <<x, y>> joined by    *)
(* straight lines on logarithmic axes; it is faithful if every vertex lies  *)
(* on the curve and every corner of the curve is a vertex, because then the *)
(* straight lines are on the curve too.  Coordinates are in thousandths of  *)
(* the unit of the curve's logarithms.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
SN == INSTANCE SNCurve
PC == INSTANCE ParisCurve

Fine(c) == [c EXCEPT !.a = [j \in 1..Len(c.a) |-> 1000 * c.a[j]]]
Close(x, f) == LET d == x * f[2] - f[1] IN d <= 3 * f[2] /\ -d <= 3 * f[2]
Beside(x, y) == x - y <= 3 /\ y - x <= 3
Rising(pts) == \A j \in 1..(Len(pts) - 1) : pts[j][1] <= pts[j + 1][1]

\* ------------------------------------------------- stress-life curves
FreeStress(c, x) == SN!MaxFrac({SN!At(Fine(c), j, x) : j \in SN!Segs(c)})
Limit(c) == <<1000 * (c.a[Len(c.a)] - c.e), c.m[Len(c.m)]>>
StressAt(c, x) ==
  IF c.e # SN!Never /\ SN!Less(FreeStress(c, x), Limit(c)) THEN Limit(c) ELSE FreeStress(c, x)
FineKnee(c, j) == LET k == SN!KneeCycles(c, j) IN <<1000 * k[1], k[2]>>
SNBad(c, pts) ==
  (IF \E k \in 1..Len(pts) : ~Close(pts[k][2], StressAt(c, pts[k][1]))
   THEN {"vertex off the curve"} ELSE {})
  \cup (IF \E j \in SN!Knees(c) : \A k \in 1..Len(pts) : ~Close(pts[k][1], FineKnee(c, j))
        THEN {"knee cut"} ELSE {})
  \cup (IF c.e # SN!Never /\ \A k \in 1..Len(pts) : ~Beside(pts[k][1], 1000 * c.e)
        THEN {"endurance cut"} ELSE {})
  \cup (IF c.e # SN!Never /\ pts[Len(pts)][1] <= 1000 * c.e THEN {"no endurance branch"} ELSE {})
  \cup (IF ~Rising(pts) THEN {"order"} ELSE {})

\* ------------------------------------------------- crack growth curves
\* The fine rate between threshold and critical value.
RateAt(c, x) ==
  LET j == 1 + Cardinality({q \in PC!Knees(c) :
                              ~PC!Less(<<x, 1000>>, PC!KneeSif(c, q))})
  IN 1000 * c.a[j] + c.m[j] * x
\* Rounding x moves the rate by up to half the slope.
OnCurve(c, p) == RateAt(c, p[1]) - p[2] \in -30..30
AtThreshold(c, p) == c.t # PC!Nil /\ Beside(p[1], 1000 * c.t)
AtCritical(c, p) == c.c # PC!Inf /\ Beside(p[1], 1000 * c.c)
\* Below the threshold nothing grows, beyond the critical value everything
\* breaks: the line may drop and rise vertically there, nowhere else.
VertexOk(c, p) ==
  \/ OnCurve(c, p)
  \/ AtThreshold(c, p) /\ p[2] # PC!Nil /\ p[2] < RateAt(c, 1000 * c.t)
  \/ AtCritical(c, p) /\ p[2] # PC!Inf /\ p[2] > RateAt(c, 1000 * c.c)
ParisBad(c, pts) ==
  (IF \E k \in 1..Len(pts) : ~VertexOk(c, pts[k]) THEN {"vertex off the curve"} ELSE {})
  \cup (IF \E j \in PC!Knees(c) :
             \A k \in 1..Len(pts) : ~(/\ Close(pts[k][1], <<1000 * PC!KneeSif(c, j)[1], PC!KneeSif(c, j)[2]>>)
                                      /\ OnCurve(c, pts[k]))
        THEN {"knee cut"} ELSE {})
  \cup (IF c.t # PC!Nil /\ \A k \in 1..Len(pts) : ~(AtThreshold(c, pts[k]) /\ OnCurve(c, pts[k]))
        THEN {"threshold cut"} ELSE {})
  \cup (IF c.c # PC!Inf /\ \A k \in 1..Len(pts) : ~(AtCritical(c, pts[k]) /\ OnCurve(c, pts[k]))
        THEN {"critical value cut"} ELSE {})
  \cup (IF ~Rising(pts) THEN {"order"} ELSE {})
=============================================================================
