------------------------------ MODULE Hist2MC -------------------------------
(* Two-dimensional histograms of a growing list of entries.                 *)
EXTENDS Binning
CONSTANTS Ranges, Means, Counts, MaxLen
VARIABLES k, es, hist, at
vars == <<k, es, hist, at>>
Grids == <<[rlb |-> 0, rbw |-> 2, rn |-> 3, mlb |-> -2, mbw |-> 2, mn |-> 2],
           [rlb |-> 2, rbw |-> 4, rn |-> 2, mlb |-> 0, mbw |-> 1, mn |-> 3]>>
SomeMeans == {-3, -2, 0, 1, 2, 3}
g == Grids[k]
Init == k \in 1..2 /\ es = <<>> /\ hist = <<>> /\ at = <<>>
Grow(e) ==
  LET e2 == Append(es, e)
      h == [i \in 1..g.mn |-> [j \in 1..g.rn |-> Hist2(e2, g, i - 1, j - 1)]]
  IN /\ es' = e2
     /\ hist' = h
     /\ at' = [n \in 1..Len(e2) |->   \* the histogram at every entry, -1 outside
                 LET i == CellOf(e2[n][2], g.mlb, g.mbw, g.mn)
                     j == CellOf(e2[n][1], g.rlb, g.rbw, g.rn)
                 IN IF i < 0 \/ j < 0 THEN -1 ELSE h[i + 1][j + 1]]
     /\ UNCHANGED k
Next == Len(es) < MaxLen /\ \E r \in Ranges, m \in Means, c \in Counts : Grow(<<r, m, c>>)
Spec == Init /\ [][Next]_vars
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Total ==
  es # <<>> =>
    SumSeq([i \in 1..g.mn |-> SumSeq(hist[i])])
      = SumSeq([n \in 1..Len(es) |-> IF at[n] = -1 THEN 0 ELSE es[n][3]])
=============================================================================
