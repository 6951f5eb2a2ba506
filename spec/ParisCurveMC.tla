---------------------------- MODULE ParisCurveMC ----------------------------
(* Curves grow segment by segment and are evaluated everywhere.             *)
EXTENDS ParisCurve, FiniteSetsExt
CONSTANTS Slopes, Firsts, KneesAt, Limits, MaxSegs
VARIABLES c, rates, sifs, usable, knees, ends
vars == <<c, rates, sifs, usable, knees, ends>>
K == -4..9
R == -50..10
LimitSet == {<<Nil, Inf>>, <<-2, Inf>>, <<Nil, 6>>, <<-1, 5>>, <<-3, 8>>}
FewLimits == {<<Nil, Inf>>, <<-2, 6>>, <<0, Inf>>}
KneeSet == {-1, 0, 1, 2, 3, 5}
FewKnees == {-1, 1, 2, 4}
FirstSet == {-20, -33}
OneFirst == {-25}

Evaluate(cc) ==
  /\ c' = cc
  /\ usable' = Usable(cc)
  /\ rates' = IF ~Usable(cc) THEN <<>>
              ELSE [i \in 1..Cardinality(K) |-> <<i + Min(K) - 1, Rate(cc, i + Min(K) - 1)>>]
  /\ sifs' = IF ~Usable(cc) THEN <<>>
             ELSE [i \in 1..Cardinality(R) |-> <<i + Min(R) - 1, Sif(cc, i + Min(R) - 1)>>]
  /\ knees' = [j \in Knees(cc) |-> <<KneeSif(cc, j), KneeRate(cc, j)>>]
  /\ ends' = IF ~Usable(cc) THEN <<>> ELSE <<ThresholdRate(cc), CriticalRate(cc)>>
Init == /\ \E l \in Limits : c = [m |-> <<>>, a |-> <<>>, t |-> l[1], c |-> l[2]]
        /\ rates = <<>> /\ sifs = <<>> /\ usable = FALSE /\ knees = <<>> /\ ends = <<>>
AddFirst == /\ c.m = <<>>
            /\ \E m \in Slopes, a \in Firsts : Evaluate([c EXCEPT !.m = <<m>>, !.a = <<a>>])
\* The line through the present one at intensity k, with another slope.
AddNext ==
  /\ c.m # <<>> /\ Len(c.m) < MaxSegs
  /\ \E m \in Slopes, k \in KneesAt :
       LET l == Len(c.m)
           cc == [c EXCEPT !.m = Append(@, m), !.a = Append(@, c.a[l] - k * (m - c.m[l]))]
       IN /\ m # c.m[l]
          /\ \A j \in Knees(cc) : j + 1 \in Knees(cc) => ~Same(KneeSif(cc, j), KneeSif(cc, j + 1))
          /\ ~UsableUnsettled(cc)
          /\ Evaluate(cc)
Next == AddFirst \/ AddNext
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ invariants
Ready == c.m # <<>> /\ usable
Monotone == Ready => \A k, l \in K : k < l => Rate(c, k) <= Rate(c, l)
MonotoneSif == Ready => \A r, s \in R : r < s => ~Less(Sif(c, s), Sif(c, r))
\* Going to the rate and back, wherever the rate is finite.
InverseAtSif ==
  Ready => \A k \in K : Rate(c, k) \notin {Nil, Inf} => Same(Sif(c, Rate(c, k)), Whole(k))
\* Going to the intensity and back, between threshold and critical.
InverseAtRate ==
  Ready => \A r \in R :
    /\ c.t # Nil => r >= ThresholdRate(c)
    /\ c.c # Inf => r <= CriticalRate(c)
    => LET x == Sif(c, r)
           j == SegAt(c, x)
       IN c.a[j] * x[2] + c.m[j] * x[1] = r * x[2]
Saturates ==
  Ready => \A r \in R :
    /\ c.t # Nil => ~Less(Sif(c, r), Whole(c.t))
    /\ c.c # Inf => ~Less(Whole(c.c), Sif(c, r))
KneesOnBoth ==
  Ready => \A j \in Knees(c) :
    LET k == KneeSif(c, j)
        r == KneeRate(c, j)
    IN c.a[j + 1] * k[2] + c.m[j + 1] * k[1] = r[1] /\ r[2] = k[2]
=============================================================================
