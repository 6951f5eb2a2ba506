--------------------------- MODULE AggregationMC ----------------------------
(* Tables grow row by row and are aggregated by every window length.        *)
EXTENDS Aggregation
CONSTANTS Gaps, MaxRows, Use, Values
VARIABLES tab, sigs, out
vars == <<tab, sigs, out>>
Widths == <<0, 60, 120, 1440>>
Signals == << <<0, 5, 2, 7, 3>>, <<4, 1, 8, 0, 6, 2>>, <<3, 9>> >>
P(t) == [rlb |-> 1, rbw |-> 1, mlb |-> -50, mbw |-> 1, small |-> 0,
         unit |-> "MPa", ts |-> t, name |-> "s"]

Init == tab = <<>> /\ sigs = <<>> /\ out = <<>>
\* s = 0: the count is missing
Extend(gap, s, v) ==
  LET t == IF tab = <<>> THEN 30 ELSE tab[Len(tab)].t + gap
      new == Append(tab, [t |-> t, v |-> v,
                          cc |-> IF s = 0 THEN NoCount ELSE FromSignal(Signals[s], P(t))])
  IN /\ tab' = new
     /\ sigs' = Append(sigs, s)
     /\ out' = [i \in 1..Len(Widths) |-> Aggregated(new, Widths[i])]
Next == /\ Len(tab) < MaxRows
        /\ \E gap \in Gaps, s \in Use, v \in Values :
             /\ tab = <<>> => gap = Max(Gaps)
             /\ Extend(gap, s, v)
ValueSet == {NoVal, 5}
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ invariants
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = 0 THEN <<>> ELSE Signals[s[1]]) \o Joined(Tail(s))
Some == \E i \in 1..Len(sigs) : sigs[i] # 0
\* One window over everything is the count of the uncut signal.
OneWindow ==
  Some => LET a == out[1][1].cc
              one == FromSignal(Joined(sigs), P(0))
          IN SameCycles(a, one) /\ a.res = one.res /\ out[1][1].res = one.res
\* Every count and every value is in exactly one window.
Partition ==
  \A i \in 1..Len(out) :
    LET n == FoldLeft(LAMBDA s, w : s + (IF w.cc = NoCount THEN 0 ELSE Cardinality(w.cc.times)), 0, out[i])
        m == FoldLeft(LAMBDA s, w : s + w.mean[2], 0, out[i])
    IN /\ n = Len(SelectSeq(sigs, LAMBDA s : s # 0))
       /\ m = Len(SelectSeq(tab, LAMBDA r : r.v # NoVal))
InOrder == \A i \in 1..Len(out) : \A j, k \in 1..Len(out[i]) : j < k => out[i][j].key < out[i][k].key
\* Widening the windows never loses a full cycle.
FullsGrow ==
  \A i, j \in 1..Len(out) : (Widths[j] = 0 \/ (Widths[i] # 0 /\ Widths[i] <= Widths[j])) =>
    LET f(l) == FoldLeft(LAMBDA s, w : s + (IF w.cc = NoCount THEN 0 ELSE Len(Fulls(w.cc))), 0, out[l])
    IN f(i) <= f(j)
=============================================================================
