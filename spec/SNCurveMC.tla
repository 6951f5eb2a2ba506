----------------------------- MODULE SNCurveMC ------------------------------
(* Curves grow segment by segment and are evaluated everywhere.             *)
EXTENDS SNCurve
CONSTANTS Slopes, Firsts, KneesAt, Ends, MaxSegs
VARIABLES c, cyc, str, refused, knees
vars == <<c, cyc, str, refused, knees>>
S == -4..8
N == 0..50
KneeSet == {7, 5, 3, 2, 0, -1}
FewKnees == {6, 3, 1, -1}

Evaluate(cc) ==
  /\ c' = cc
  /\ refused' = CutsKnee(cc)
  /\ cyc' = IF CutsKnee(cc) THEN <<>>
            ELSE [k \in 1..Cardinality(S) |->
                    LET s == k + Min(S) - 1
                    IN <<s, Cycles(cc, s), CyclesUnsettled(cc, s)>>]
  /\ str' = IF CutsKnee(cc) THEN <<>>
            ELSE [k \in 1..Cardinality(N) |-> <<k + Min(N) - 1, Stress(cc, k + Min(N) - 1)>>]
  /\ knees' = [j \in Knees(cc) |-> <<KneeStress(cc, j), KneeCycles(cc, j)>>]
Init == /\ c \in [m : {<<>>}, a : {<<>>}, e : Ends \cup {Never}]
        /\ cyc = <<>> /\ str = <<>> /\ refused = FALSE /\ knees = <<>>
AddFirst == /\ c.m = <<>>
            /\ \E m \in Slopes, a \in Firsts : Evaluate([c EXCEPT !.m = <<m>>, !.a = <<a>>])
AddNext ==
  /\ c.m # <<>> /\ Len(c.m) < MaxSegs
  /\ \E m \in Slopes, s \in KneesAt :
       LET l == Len(c.m)
           cc == [c EXCEPT !.m = Append(@, m), !.a = Append(@, c.a[l] + s * (m - c.m[l]))]
       IN m > c.m[l] /\ Proper(cc) /\ ~CutUnsettled(cc) /\ Evaluate(cc)
Next == AddFirst \/ AddNext
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ invariants
Ready == c.m # <<>> /\ ~refused
Monotone == Ready => \A s, t \in S : s < t => Cycles(c, s) >= Cycles(c, t)
MonotoneStress == Ready => \A n, k \in N : n < k => ~Less(Stress(c, n), Stress(c, k))
\* Cycles at the stress at n are n, up to the endurance.
InverseAtCycles ==
  Ready => \A n \in N : n <= c.e =>
    LET x == Stress(c, n)
    IN \A j \in Segs(c) : \* the line j at x is not above n, and one of them is n
         /\ c.a[j] * x[2] - c.m[j] * x[1] <= n * x[2]
InverseTight ==
  Ready => \A n \in N : n <= c.e =>
    \E j \in Segs(c) : c.a[j] * Stress(c, n)[2] - c.m[j] * Stress(c, n)[1] = n * Stress(c, n)[2]
\* Stress at the cycles at s is s wherever the cycles are finite.
InverseAtStress ==
  Ready => \A s \in S : Cycles(c, s) # Never => Same(Stress(c, Cycles(c, s)), <<s, 1>>)
BeyondEndurance ==
  Ready /\ c.e # Never =>
    \A n \in N : n >= c.e => Same(Stress(c, n), At(c, Len(c.m), c.e))
KneesOnBoth ==
  Ready => \A j \in Knees(c) :
    LET k == KneeStress(c, j)
        n == KneeCycles(c, j)
    IN /\ c.a[j + 1] * k[2] - c.m[j + 1] * k[1] = n[1]
       /\ k[1] % k[2] = 0 => Plain(c, k[1] \div k[2]) * n[2] = n[1]
=============================================================================
