------------------------------ MODULE DamageMC ------------------------------
(* Lists of entries grow one by one; damage and equivalents of each.        *)
EXTENDS Damage
CONSTANTS Stresses, Counts, MaxLen, Curves
VARIABLES k, es, dmg, sums, shift
vars == <<k, es, dmg, sums, shift>>
Table == <<
  [segs |-> <<<<3, 1000>>>>, ne |-> 0],
  [segs |-> <<<<3, 1000>>, <<5, 9000>>>>, ne |-> 0],          \* knee at 3
  [segs |-> <<<<3, 1000>>, <<5, 9000>>>>, ne |-> 200],        \* endless below 3
  [segs |-> <<<<1, 600>>>>, ne |-> 250],                      \* endless below 3
  [segs |-> <<<<2, 500>>, <<3, 2000>>, <<5, 8000>>>>, ne |-> 3000] >>  \* knees at 4 and 2
c == Table[k]
Init == k \in Curves /\ es = <<>> /\ dmg = <<>> /\ sums = <<>> /\ shift = <<>>
Grow(e) ==
  LET e2 == Append(es, e)
  IN /\ es' = e2
     /\ dmg' = EntriesDamage(c, e2)
     /\ sums' = [m \in 1..5 |-> Weighted(e2, m)]
     /\ shift' = IF Largest(e2) = 0 THEN <<>> ELSE [m \in 1..5 |-> Gassner(e2, m)]
     /\ UNCHANGED k
Next == Len(es) < MaxLen /\ \E s \in Stresses, n \in Counts : Grow(<<s, n>>)
Spec == Init /\ [][Next]_vars

Settled == \A s \in Stresses : ~EndlessUnsettled(c, s)
NonNegative == \A i \in 1..Len(dmg) : dmg[i] >= 0
OrderFree == Miner(c, es) = Miner(c, Reverse(es))
Additive == \A i \in 0..Len(es) :
  Miner(c, es) = Miner(c, SubSeq(es, 1, i)) + Miner(c, SubSeq(es, i + 1, Len(es)))
\* More stress never does less damage.
Grows == \A s, t \in Stresses : s < t => EntryDamage(c, <<s, 2>>) <= EntryDamage(c, <<t, 2>>)
\* The equivalent stress does the damage of the list on a single-slope curve.
Equivalent == Len(c.segs) = 1 /\ c.ne = 0 => Miner(c, es) = Weighted(es, c.segs[1][1])
\* The Gassner shift lies in ]0, 1].
ShiftRange == es # <<>> /\ Largest(es) > 0 =>
  \A m \in 1..5 : LET g == Gassner(es, m) IN 0 < g[1] /\ g[1] <= g[2]
=============================================================================
