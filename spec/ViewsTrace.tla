----------------------------- MODULE ViewsTrace -----------------------------
(***************************************************************************)
(* Validates what real counts showed.  Kinds of records:                    *)
(*   sides    lowest and highest stress, amplitude, single cycles           *)
(*   moments  decided by cross-multiplication, in parts of 10^6             *)
(*   points   of a plot, in the order plotted, with their colours           *)
(*   residual the two lines of the residual plot                            *)
(***************************************************************************)
EXTENDS CountViews, Json, IOUtils
RF == INSTANCE Rainflow
VARIABLE i

Trace == JsonDeserialize(IOEnv.TRACE_FILE)

\* entries are <<10 * range, 20 * mean, 2 * count>> here, so are the doubles
\* of the ten-fold stresses.
Sides(r) ==
  (IF r.low20 # Each(r.entries, LAMBDA e : e[2] - e[1]) THEN {"lowest stress"} ELSE {})
  \cup (IF r.high20 # Each(r.entries, LAMBDA e : e[2] + e[1]) THEN {"highest stress"} ELSE {})
  \cup (IF r.amp20 # Each(r.entries, LAMBDA e : e[1]) THEN {"amplitude"} ELSE {})
  \cup (IF ~RF!SameBag(r.full, FullCycles(r.entries)) THEN {"full cycles"} ELSE {})
  \cup (IF ~RF!SameBag(r.half, HalfCycles(r.entries)) THEN {"half cycles"} ELSE {})
  \cup (IF r.table # r.entries THEN {"table"} ELSE {})
  \cup (IF r.summary # <<Len(FullCycles(r.entries)), Len(HalfCycles(r.entries)), Top(r.entries)>>
        THEN {"summary"} ELSE {})

\* mom: n * mean, second and third numerator as recovered from the values.
MomentsBad(r) ==
  LET m == Moments(r.entries)
  IN (IF r.sum # m.sum THEN {"mean"} ELSE {})
     \cup (IF r.second # m.second THEN {"variation"} ELSE {})
     \cup (IF r.third # m.third THEN {"third moment"} ELSE {})

Points(r) ==
  CASE r.plot = "min-max" -> MinMax2(r.entries)
    [] r.plot = "mean-range" -> MeanRange(r.entries)
    [] r.plot = "counts-range" -> CountRange(r.entries)
    [] r.plot = "counts-range-cumsum" -> Cumulated(r.entries)
Gridded(r) == r.plot \in {"min-max", "mean-range"}
Coloured(r) ==   \* <<point, colour>>
  LET p == Points(r)
      c == IF Gridded(r) THEN Crowd(p, r.gx, r.gy)
           ELSE Each(CountRange(r.entries), LAMBDA q : q[1])
  IN [j \in 1..Len(p) |-> <<p[j], c[j]>>]
\* Points outside all cells are not drawn.
Drawn(s) == SelectSeq(s, LAMBDA q : q[2] # -1)
PlotBad(r) ==
  LET want == Drawn(Coloured(r))
      got == [j \in 1..Len(r.points) |-> <<r.points[j], r.colours[j]>>]
  IN (IF ~RF!SameBag(Each(got, LAMBDA q : q[1]), Each(want, LAMBDA q : q[1]))
      THEN {"points"} ELSE {})
     \cup (IF ~RF!SameBag(got, want) THEN {"colours"} ELSE {})
     \cup (IF \/ r.mode = "mountain" /\ \E j \in 1..(Len(got) - 1) : got[j][2] > got[j + 1][2]
              \/ r.mode = "valley" /\ \E j \in 1..(Len(got) - 1) : got[j][2] < got[j + 1][2]
              \/ r.mode = "none" /\ got # want
           THEN {"order"} ELSE {})

ResidualBad(r) ==
  LET c == RF!Count(r.res)
  IN (IF r.line # [j \in 1..Len(r.res) |-> <<j - 1, r.res[j]>>] THEN {"residuals"} ELSE {})
     \cup (IF RF!Countable(r.res)
              /\ r.again # [j \in 1..Len(c.res) |-> <<c.res[j][2], c.res[j][1]>>]
           THEN {"residuals of the residuals"} ELSE {})

Bad(r) == CASE r.kind = "sides" -> Sides(r)
            [] r.kind = "moments" -> MomentsBad(r)
            [] r.kind = "points" -> PlotBad(r)
            [] r.kind = "residual" -> ResidualBad(r)

Init == i = 0
Next == /\ i < Len(Trace)
        /\ i' = i + 1
        /\ LET b == Bad(Trace[i + 1])
           IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Trace) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
