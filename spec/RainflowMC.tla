----------------------------- MODULE RainflowMC -----------------------------
(* All signals over Levels up to MaxLen, sample by sample. *)
EXTENDS Rainflow, TLC
CONSTANTS Levels, MaxLen
VARIABLES sig, m, out

vars == <<sig, m, out>>

NoOut == [rows |-> <<>>, res |-> <<>>]
Out(mm) == IF mm.dir # 0 THEN Result(mm) ELSE NoOut

Init == /\ sig = <<>>
        /\ m = Start
        /\ out = NoOut

Sample(v) == /\ Len(sig) < MaxLen
             /\ sig' = Append(sig, v)
             /\ m' = Step(m, v)
             /\ out' = Out(m')

Next == \E v \in Levels : Sample(v)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ invariants
Seen == m.dir # 0
rv == Vals(out.res)

FoldAgrees == m = Run(sig)
Conservation == Seen => Travelled(out.rows) = TotalVariation(sig)
ReversalBudget ==      \* first and last level and all reversals are used up
  Seen => m.rev + 2 = 2 * Len(FullRows(out.rows)) + Len(HalfRows(out.rows)) + 1
PositiveRanges == \A i \in 1..Len(out.rows) : out.rows[i][1] > 0
ResidualIsSignal ==
  Seen => /\ \A i \in 1..Len(out.res) : sig[out.res[i][2] + 1] = out.res[i][1]
          /\ \A i \in 1..(Len(out.res) - 1) : out.res[i][2] < out.res[i+1][2]
          /\ out.res[1][1] = sig[1]
          /\ Last2(out.res)[2] = Len(sig) - 1
ResidualPairsAreHalves ==
  Seen => HalfRows(Bare(out.rows)) =
            [i \in 1..(Len(rv) - 1) |-> <<Abs(rv[i+1] - rv[i]), rv[i] + rv[i+1], 1>>]
RecountResidual ==
  Seen => /\ Bare(Count(rv).rows) = HalfRows(Bare(out.rows))
                           /\ Vals(Count(rv).res) = rv
AgreesWithAstm ==
  Seen => LET tp == TurningPoints(sig)
              pts == [i \in 1..Len(tp) |-> sig[tp[i] + 1]]
              p2 == IF pts[1] = pts[2] THEN Tail(pts) ELSE pts
          IN Bare(out.rows) = Astm(SubSeq(p2, 3, Len(p2)), SubSeq(p2, 1, 2), <<>>)
RowsAreSignalPairs ==
  \A i \in 1..Len(out.rows) :
    LET r == out.rows[i]
        a == sig[r[4] + 1]
        b == sig[r[4] + (r[5] \div 2) + 1]
    IN r[1] = Abs(a - b) /\ r[2] = a + b
CrossingsAlternate ==
  \A lv \in Levels :
    LET c == Crossings(sig, lv)
    IN \A i \in 1..(Len(c) - 1) :
         (sig[c[i]+2] > lv) = (sig[c[i+1]+2] < lv)
ReversalsMatch ==  \* declarative extrema = machine (a flat start adds one)
  sig # <<>> =>
    LET flat == Len(sig) > 1 /\ sig[1] = sig[2] /\ m.dir # 0
    IN Len(Extrema(sig)) = m.rev + (IF flat THEN 1 ELSE 0)
=============================================================================
