----------------------------- MODULE CrossingsMC ----------------------------
(* Level crossings, extrema and turning points of all short signals.  The  *)
(* signal is grown sample by sample and the answers to all queries are     *)
(* part of the state.  Samples are doubled so that levels may lie between  *)
(* samples.                                                                *)
EXTENDS Rainflow, TLC
CONSTANTS Samples, Queries, MaxLen
VARIABLES sig, q, ext, tps

Answers(s) == [lv \in Queries |-> [a |-> Crossings(s, lv),
                                   u |-> UpCrossings(s, lv),
                                   d |-> DownCrossings(s, lv)]]
QSeq == SetToSortSeq(Queries, <)
Ans(s) == [i \in 1..Len(QSeq) |-> <<QSeq[i], Answers(s)[QSeq[i]]>>]

Init == sig = <<>> /\ q = <<>> /\ ext = <<>> /\ tps = <<>>
Next == /\ Len(sig) < MaxLen
        /\ \E v \in Samples : sig' = Append(sig, v)
        /\ q' = Ans(sig')
        /\ ext' = Extrema(sig')
        /\ tps' = TurningPoints(sig')
Spec == Init /\ [][Next]_<<sig, q, ext, tps>>

Alternate == \A i \in 1..Len(q) :
  LET c == q[i][2].a
      lv == q[i][1]
  IN \A j \in 1..(Len(c) - 1) : (sig[c[j]+2] > lv) = (sig[c[j+1]+2] < lv)
Split == \A i \in 1..Len(q) :
  LET x == q[i][2] IN /\ Len(x.u) + Len(x.d) = Len(x.a)
                      /\ \A j \in 1..Len(x.a) : Contains(x.u \o x.d, x.a[j])
\* Extrema are where the differences cross zero.
DiffCrossings ==
  Len(sig) > 1 =>
    LET d == [i \in 1..(Len(sig) - 1) |-> sig[i+1] - sig[i]]
        c == Crossings(d, 0)
    IN ext = [i \in 1..Len(c) |-> c[i] + 1]
Ordered == \A i \in 1..(Len(tps) - 1) : tps[i] < tps[i+1]
=============================================================================
