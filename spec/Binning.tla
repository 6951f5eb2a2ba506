------------------------------ MODULE Binning -------------------------------
(***************************************************************************)
(* Bins, histograms, export to and import from rainflow dictionaries.      *)
(*                                                                         *)
(* All stresses are integers in a unit of which bin widths are even        *)
(* multiples, so bin centres are integers too.  An entry of a count is     *)
(* <<range, mean, 2 * count>>.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

\* ------------------------------------------------------------------- bins
\* Bin k (from 0) is ]lb + k*w, lb + (k+1)*w]; the first includes lb.
BinOf(x, lb, w) == IF x <= lb THEN 0 ELSE (x - lb - 1) \div w
NrBins(top, lb, w) == BinOf(top, lb, w) + 1
Edges(top, lb, w) == [k \in 1..(NrBins(top, lb, w) + 1) |-> lb + (k - 1) * w]
Centre(k, lb, w) == lb + k * w + w \div 2

\* Lower bound if none is given: half a width below the multiple of the
\* width that is nearest to the smallest value, ties to the even multiple.
RoundEven(n, d) ==
  LET q == n \div d
      r == n - q * d
  IN IF 2 * r < d THEN q ELSE IF 2 * r > d THEN q + 1
     ELSE IF q % 2 = 0 THEN q ELSE q + 1
DefaultLower(low, w) == RoundEven(low, w) * w - w \div 2

Copies(x, n) == [k \in 1..n |-> x]
\* Full cycles of a list of entries (an entry of n cycles n times) and its
\* half cycles.
FullCycles(es) == FoldLeft(LAMBDA acc, e: acc \o Copies(<<e[1], e[2]>>, e[3] \div 2), <<>>, es)
HalfCycles(es) ==
  LET h == SelectSeq(es, LAMBDA e: e[3] % 2 = 1)
  IN [i \in 1..Len(h) |-> <<h[i][1], h[i][2]>>]

\* ---------------------------------------------------------------- export
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE x * Power(x, n - 1)

\* Replacing the cycle by its bin centre would change the damage by more
\* than the tolerance p/q, and the cycle is not negligible.
Matters(r, centre, top, par) ==
  /\ par.q * Power(r, par.e) > par.p * Power(top, par.e)
  /\ LET d == Power(r, par.e) - Power(centre, par.e)
     IN par.q * (IF d < 0 THEN -d ELSE d) > par.p * Power(r, par.e)
\* The comparison with the tolerance is exactly balanced.
Balanced(r, centre, top, par) ==
  \/ par.q * Power(r, par.e) = par.p * Power(top, par.e)
  \/ LET d == Power(r, par.e) - Power(centre, par.e)
     IN par.q * (IF d < 0 THEN -d ELSE d) = par.p * Power(r, par.e)

Before(x, y) == \* lexicographic order of <<mean bin, range bin, mean, range>>
  \E k \in 1..4 : x[k] < y[k] /\ \A j \in 1..(k - 1) : x[j] = y[j]

Sorted(cycles, par) ==
  SortSeq([i \in 1..Len(cycles) |->
             <<BinOf(cycles[i][2], par.mlb, par.mbw), BinOf(cycles[i][1], par.rlb, par.rbw),
               cycles[i][2], cycles[i][1]>>], Before)

\* par: rlb rbw mlb mbw, tolerance p/q, exponent e, gap (longest run of empty
\* cells), small (cycles discarded earlier).
Export(entries, par) ==
  LET kept == SelectSeq(entries, LAMBDA e: e[1] >= par.rlb)
      full == FullCycles(kept)
      half == HalfCycles(kept)
      small == par.small + Len(entries) - Len(kept)
      srt == Sorted(full, par)
      top == Max({full[i][1] : i \in 1..Len(full)})
      place(acc, s) ==
        IF \/ Matters(s[4], Centre(s[2], par.rlb, par.rbw), top, par)
           \/ s[2] - acc.prev > par.gap
        THEN [acc EXCEPT !.lg = Append(@, <<s[3], s[4]>>)]
        ELSE [acc EXCEPT !.cells = Append(@, <<s[1], s[2]>>), !.prev = s[2]]
  IN IF full = <<>>
     THEN [small |-> small, cells |-> <<>>, lg |-> <<>>,
           res |-> [i \in 1..Len(half) |-> <<half[i][2], half[i][1]>>], unsettled |-> FALSE]
     ELSE LET f == FoldLeft(place, [lg |-> <<>>, cells |-> <<>>, prev |-> srt[1][2]], srt)
          IN [small |-> small, cells |-> f.cells, lg |-> f.lg,
              res |-> [i \in 1..Len(half) |-> <<half[i][2], half[i][1]>>],
              unsettled |-> \E i \in 1..Len(srt) :
                              Balanced(srt[i][4], Centre(srt[i][2], par.rlb, par.rbw), top, par)]

\* Without means every cycle is exported as if its mean were zero.
Meanless(entries) == [i \in 1..Len(entries) |-> <<entries[i][1], 0, entries[i][3]>>]
LegacyExport(entries, par) ==
  Export(Meanless(entries), [par EXCEPT !.mlb = 0, !.mbw = 2])

\* ---------------------------------------------------------------- import
\* cells is a sequence of <<mean bin, range bin>>, one per cycle.
CellSet(cells) == {cells[i] : i \in 1..Len(cells)}
NrIn(cells, c) == Cardinality({i \in 1..Len(cells) : cells[i] = c})
CellRows(cells, par) ==
  LET cs == SetToSortSeq(CellSet(cells), LAMBDA x, y: x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
  IN [i \in 1..Len(cs) |->
        <<Centre(cs[i][2], par.rlb, par.rbw), Centre(cs[i][1], par.mlb, par.mbw),
          2 * NrIn(cells, cs[i])>>]
Import(d, par) ==
  CellRows(d.cells, par)
  \o [i \in 1..Len(d.lg) |-> <<d.lg[i][2], d.lg[i][1], 2>>]
  \o [i \in 1..Len(d.res) |-> <<d.res[i][2], d.res[i][1], 1>>]

NrFull(entries) == FoldLeft(LAMBDA n, e: n + e[3] \div 2, 0, entries)
NrHalf(entries) == Len(HalfCycles(entries))
\* ------------------------------------------------- reading a dictionary
\* A dictionary: flat (no means at all), hist (a row of cells per mean bin;
\* flat: one row), lg, res (<<mean, range>>, flat: mean 0), spelling "short" or
\* "long", wrong: the defect planted in it, or "none".
RowCells(hist) ==
  FoldLeft(LAMBDA acc, i:
             acc \o FoldLeft(LAMBDA a, j: a \o Copies(<<i - 1, j - 1>>, hist[i][j]), <<>>,
                             [j \in 1..Len(hist[i]) |-> j]),
           <<>>, [i \in 1..Len(hist) |-> i])
NoCycles(dict) == dict.hist = <<>> /\ dict.lg = <<>> /\ dict.res = <<>>
Refused(dict) == dict.wrong # "none" \/ NoCycles(dict)
ReadDict(dict, par) ==
  LET rows == Import([cells |-> RowCells(dict.hist), lg |-> dict.lg, res |-> dict.res], par)
  IN IF dict.flat THEN Meanless(rows) ELSE rows

\* --------------------------------------------------------- 2-d histogram
\* Cell of x between edges lb, lb + w, ..., lb + n*w: the lower edge belongs to
\* the cell, the last cell has both edges; -1 outside.
CellOf(x, lb, w, n) ==
  IF x < lb \/ x > lb + n * w THEN -1
  ELSE IF x = lb + n * w THEN n - 1 ELSE (x - lb) \div w
\* Twice the count in cell (i, j) of the entries.
Hist2(entries, g, i, j) ==
  FoldLeft(LAMBDA s, e: s + (IF CellOf(e[2], g.mlb, g.mbw, g.mn) = i
                                /\ CellOf(e[1], g.rlb, g.rbw, g.rn) = j THEN e[3] ELSE 0),
           0, entries)
=============================================================================
