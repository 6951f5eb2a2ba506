------------------------------- MODULE BinsMC -------------------------------
(* Values with counts grow one by one; each list is binned.                 *)
EXTENDS Binning
CONSTANTS Values, Counts, MaxLen, Widths, Lowers
VARIABLES w, given, es, lower, edges, centres, full, half, idx, binned
vars == <<w, given, es, lower, edges, centres, full, half, idx, binned>>
None == -99

Pick(s, i) == [j \in 1..Len(s) |-> s[j][i]]
Init ==
  /\ w \in Widths
  /\ given \in Lowers \cup {None}
  /\ es = <<>> /\ lower = 0
  /\ edges = <<>> /\ centres = <<>> /\ full = <<>> /\ half = <<>> /\ idx = <<>> /\ binned = <<>>
Grow(v, c) ==
  LET e2 == Append(es, <<v, 0, c>>)
      lb == IF given = None THEN DefaultLower(Min({e2[i][1] : i \in 1..Len(e2)}), w) ELSE given
      f == Pick(FullCycles(e2), 1)
      top == IF f = <<>> THEN Max({e2[i][1] : i \in 1..Len(e2)})
             ELSE Max({f[i] : i \in 1..Len(f)})
      n == NrBins(top, lb, w)
  IN /\ es' = e2
     /\ lower' = lb
     /\ edges' = Edges(top, lb, w)
     /\ centres' = [i \in 1..n |-> Centre(i - 1, lb, w)]
     /\ full' = f
     /\ half' = Pick(HalfCycles(e2), 1)
     /\ idx' = [i \in 1..Len(f) |-> BinOf(f[i], lb, w)]
     /\ binned' = [i \in 1..Len(f) |-> Centre(BinOf(f[i], lb, w), lb, w)]
     /\ UNCHANGED <<w, given>>
Next == /\ Len(es) < MaxLen
        /\ \E v \in Values, c \in Counts : (given # None => v >= given) /\ Grow(v, c)
Spec == Init /\ [][Next]_vars

Contiguous == \A i \in 1..(Len(edges) - 1) : edges[i + 1] = edges[i] + w
Cover == es # <<>> =>
  /\ edges[1] = lower /\ Len(edges) >= 2
  /\ \A i \in 1..Len(full) : lower <= full[i] /\ full[i] <= edges[Len(edges)]
InBin == \A i \in 1..Len(full) :
  /\ idx[i] + 1 < Len(edges)
  /\ edges[idx[i] + 1] <= full[i] /\ full[i] <= edges[idx[i] + 2]
  /\ Len(full) > 0 => (edges[idx[i] + 1] = full[i] => idx[i] = 0)
  /\ 2 * (binned[i] - full[i]) <= w /\ 2 * (full[i] - binned[i]) <= w
Split == /\ Len(full) = FoldLeft(LAMBDA n, e: n + (e[3] \div 2), 0, es)
         /\ Len(half) = FoldLeft(LAMBDA n, e: n + (e[3] % 2), 0, es)
=============================================================================
