------------------------------ MODULE ExportMC ------------------------------
(* Counts grow entry by entry; each is exported, imported and exported again. *)
EXTENDS Binning
CONSTANTS Ranges, Means, Counts, MaxLen, Pars
VARIABLES k, entries, d, back, d2, leg

vars == <<k, entries, d, back, d2, leg>>

ParTable == <<
  [rlb |-> 2, rbw |-> 2, mlb |-> -4, mbw |-> 4, p |-> 1, q |-> 1000, e |-> 5, gap |-> 32, small |-> 0],
  [rlb |-> 3, rbw |-> 4, mlb |-> -5, mbw |-> 2, p |-> 2003, q |-> 10000, e |-> 3, gap |-> 32, small |-> 7],
  [rlb |-> 1, rbw |-> 2, mlb |-> -4, mbw |-> 2, p |-> 6007, q |-> 10000, e |-> 3, gap |-> 1, small |-> 0],
  [rlb |-> 4, rbw |-> 6, mlb |-> -4, mbw |-> 8, p |-> 40013, q |-> 100000, e |-> 2, gap |-> 0, small |-> 2],
  [rlb |-> 0, rbw |-> 2, mlb |-> -6, mbw |-> 4, p |-> 3, q |-> 1, e |-> 1, gap |-> 2, small |-> 0]
>>
par == ParTable[k]
AllMeans == {-3, -2, 0, 1, 4}
TwoMeans == {-4, 1}

Empty == [small |-> 0, cells |-> <<>>, lg |-> <<>>, res |-> <<>>, unsettled |-> FALSE]
Init == /\ k \in Pars
        /\ entries = <<>>
        /\ d = Empty /\ back = <<>> /\ d2 = Empty /\ leg = Empty

Grow(e) ==
  LET es == Append(entries, e)
      x == Export(es, par)
      b == Import(x, par)
  IN /\ entries' = es
     /\ d' = x
     /\ back' = b
     /\ d2' = IF b = <<>> THEN Empty ELSE Export(b, [par EXCEPT !.small = x.small])
     /\ leg' = LegacyExport(es, par)
     /\ UNCHANGED k
Next == /\ Len(entries) < MaxLen
        /\ \E r \in Ranges, m \in Means, c \in Counts : Grow(<<r, m, c>>)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ invariants
Kept == SelectSeq(entries, LAMBDA e: e[1] >= par.rlb)
\* Every full cycle is either in a cell or a large cycle, every half cycle a
\* residual, everything else small.
Conserved ==
  /\ Len(d.cells) + Len(d.lg) = NrFull(Kept)
  /\ Len(d.res) = NrHalf(Kept)
  /\ d.small = par.small + Len(entries) - Len(Kept) \/ entries = <<>>
  /\ Len(leg.cells) + Len(leg.lg) = NrFull(Kept)
\* Importing gives the cycles back, each within half a bin.
Near(x, y, w) == x - y <= w \div 2 /\ y - x <= w \div 2
RECURSIVE CanMatch(_, _)
CanMatch(s, t) ==   \* s can be matched one to one with t
  IF s = <<>> THEN t = <<>>
  ELSE \E j \in 1..Len(t) :
         /\ Near(s[1][1], t[j][1], par.rbw) /\ Near(s[1][2], t[j][2], par.mbw)
         /\ CanMatch(Tail(s), SubSeq(t, 1, j - 1) \o SubSeq(t, j + 1, Len(t)))
BackInPlace ==
  /\ NrFull(back) = NrFull(Kept)
  /\ NrHalf(back) = NrHalf(Kept)
  /\ Len(FullCycles(Kept)) <= 4 => CanMatch(FullCycles(Kept), FullCycles(back))
  /\ HalfCycles(back) = HalfCycles(Kept)
\* Every cycle that matters is kept exactly.
LargeKept ==
  LET f == FullCycles(Kept)
      top == Max({f[i][1] : i \in 1..Len(f)})
  IN f # <<>> =>
       \A i \in 1..Len(f) :
         Matters(f[i][1], Centre(BinOf(f[i][1], par.rlb, par.rbw), par.rlb, par.rbw), top, par)
           => Contains(d.lg, <<f[i][2], f[i][1]>>)
\* A second round trip keeps all totals and moves no binned cycle.
SecondTrip ==
  /\ Len(d2.cells) + Len(d2.lg) = Len(d.cells) + Len(d.lg)
  /\ d2.res = d.res
  /\ back # <<>> => d2.small = d.small
  /\ \A i \in 1..Len(d.cells) :
       \/ Contains(d2.cells, d.cells[i])
       \/ Contains(d2.lg, <<Centre(d.cells[i][1], par.mlb, par.mbw),
                            Centre(d.cells[i][2], par.rlb, par.rbw)>>)
=============================================================================
