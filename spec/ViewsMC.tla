------------------------------ MODULE ViewsMC -------------------------------
(* What a growing list of entries shows.                                    *)
EXTENDS CountViews
CONSTANTS Ranges, Means, Counts, MaxLen
VARIABLES es, view
vars == <<es, view>>
SomeMeans == {-3, 0, 5}
FewMeans == {-3, 5}

MeanCells == <<-4, 3, 3>>      \* 5 lies on the upper edge
RangeCells == <<1, 3, 2>>
LowCells == <<-12, 6, 4>>
HighCells == <<-8, 8, 3>>

View(s) ==
  LET mr == MeanRange(s)
      mm == MinMax2(s)
  IN [amp2 |-> Amplitude2(s), low2 |-> Lowest2(s), high2 |-> Highest2(s),
      full |-> FullCycles(s), half |-> HalfCycles(s),
      mom |-> Moments(s), sum |-> Summary(s),
      mr |-> mr, mm2 |-> mm, mrc |-> Crowd(mr, MeanCells, RangeCells),
      mmc |-> Crowd(mm, LowCells, HighCells),
      cr |-> CountRange(s), cum |-> Cumulated(s)]

Init == es = <<>> /\ view = View(<<>>)
Next == /\ Len(es) < MaxLen
        /\ \E r \in Ranges, m \in Means, c \in Counts : es' = Append(es, <<r, m, c>>)
        /\ view' = View(es')
Spec == Init /\ [][Next]_vars

\* Half cycles and cycles of the views are those of the entries.
Nothing == es # <<>> =>
  /\ 2 * view.sum.full + view.sum.half = SumOf(es, LAMBDA e : e[3])
  /\ view.mom.n = view.sum.full + view.sum.half
  /\ Last(view.cum)[1] = SumOf(es, LAMBDA e : e[3])
\* No dispersion exactly when all single cycles have the same range; the
\* moments do not depend on the order.
Dispersion == es # <<>> =>
  /\ view.mom.second >= 0
  /\ view.mom.second = 0 <=> Cardinality({c[1] : c \in ToSet(Singles(es))}) = 1
  /\ view.mom = Moments(Reverse(es))
Sides == \A j \in 1..Len(es) : /\ view.high2[j] - view.low2[j] = 2 * es[j][1]
                               /\ view.high2[j] + view.low2[j] = 4 * es[j][2]
Falling == \A j \in 1..(Len(es) - 1) : view.cum[j][2] >= view.cum[j + 1][2]
                                       /\ view.cum[j][1] < view.cum[j + 1][1]
=============================================================================
