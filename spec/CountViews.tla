----------------------------- MODULE CountViews -----------------------------
(***************************************************************************)
(* What a count shows of its entries <<range, mean, 2 * count>>: lowest and *)
(* highest stress, single cycles, moments, summary, and the points of its   *)
(* plots.  Stresses are integers; a name ending in 2 is twice the value.    *)
(***************************************************************************)
EXTENDS Binning

Each(es, F(_)) == [j \in 1..Len(es) |-> F(es[j])]
Amplitude2(es) == Each(es, LAMBDA e : e[1])
Lowest2(es) == Each(es, LAMBDA e : 2 * e[2] - e[1])
Highest2(es) == Each(es, LAMBDA e : 2 * e[2] + e[1])

\* Every full cycle and every half cycle is one value.
Singles(es) == HalfCycles(es) \o FullCycles(es)
SumOf(s, F(_)) == FoldLeft(LAMBDA a, x : a + F(x), 0, s)
\* n, sum and the numerators of the moments about the mean:
\*   mean = sum / n, variance / mean^2 = second / sum^2,
\*   third central moment / mean^3 = third / sum^3.
Moments(es) ==
  LET c == Singles(es)
      n == Len(c)
      s1 == SumOf(c, LAMBDA x : x[1])
      s2 == SumOf(c, LAMBDA x : x[1] * x[1])
      s3 == SumOf(c, LAMBDA x : x[1] * x[1] * x[1])
  IN [n |-> n, sum |-> s1, second |-> n * s2 - s1 * s1,
      third |-> n * n * s3 - 3 * n * s1 * s2 + 2 * s1 * s1 * s1]

Top(s) == IF s = <<>> THEN -1 ELSE Max({s[j][1] : j \in 1..Len(s)})
Summary(es) ==
  [full |-> Len(FullCycles(es)), half |-> Len(HalfCycles(es)),
   top |-> Top(es), topfull |-> Top(FullCycles(es))]

\* ------------------------------------------------------------------ plots
\* Points as bags: a sequence up to its order.
MeanRange(es) == Each(FullCycles(es) \o HalfCycles(es), LAMBDA c : <<c[2], c[1]>>)
MinMax2(es) ==
  Each(FullCycles(es) \o HalfCycles(es), LAMBDA c : <<2 * c[2] - c[1], 2 * c[2] + c[1]>>)
\* <<2 * count, range>> from the largest range down, and with the counts
\* added up on the way.
Higher(x, y) == x[2] > y[2] \/ (x[2] = y[2] /\ x[1] > y[1])
CountRange(es) == SortSeq(Each(es, LAMBDA e : <<e[3], e[1]>>), Higher)
Cumulated(es) ==
  LET s == CountRange(es)
  IN [j \in 1..Len(s) |-> <<SumOf(SubSeq(s, 1, j), LAMBDA p : p[1]), s[j][2]>>]
\* How many of the points lie in the cell of each of them, -1 outside; the
\* cells along an axis are <<lower, width, number>>.
CellsOf(p, gx, gy) == <<CellOf(p[1], gx[1], gx[2], gx[3]), CellOf(p[2], gy[1], gy[2], gy[3])>>
Crowd(points, gx, gy) ==
  LET at == Each(points, LAMBDA p : CellsOf(p, gx, gy))
  IN Each(at, LAMBDA c : IF -1 \in {c[1], c[2]} THEN -1
                         ELSE Cardinality({j \in 1..Len(at) : at[j] = c}))
=============================================================================
