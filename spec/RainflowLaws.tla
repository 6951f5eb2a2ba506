---------------------------- MODULE RainflowLaws ----------------------------
(***************************************************************************)
(* Laws that carry the count of a short signal over to very long ones.     *)
(*                                                                         *)
(* Stretch: with K-1 samples put on the straight line between every two    *)
(* samples, the count is the same one at K times the positions.            *)
(* Repeat: played again and again, a signal adds the same cycles with      *)
(* every repetition, from the third one on.                                *)
(*                                                                         *)
(* TLC shows both for every short signal and small K and n; the real code  *)
(* is then held to them at lengths no enumeration reaches.                 *)
(***************************************************************************)
EXTENDS Rainflow, TLC
CONSTANTS Levels, MaxLen, Stretches, Reps
VARIABLES sig, out, third, fourth

vars == <<sig, out, third, fourth>>

Times(s, n) == [i \in 1..(n * Len(s)) |-> s[((i - 1) % Len(s)) + 1]]

\* values and positions are both K times as large
Stretch(s, K) ==
  [i \in 1..((Len(s) - 1) * K + 1) |->
     LET j == (i - 1) \div K
         f == (i - 1) % K
     IN IF f = 0 THEN K * s[j + 1] ELSE (K - f) * s[j + 1] + f * s[j + 2]]

NoOut == [rows |-> <<>>, res |-> <<>>]
CountOf(s) == IF s # <<>> /\ Countable(s) THEN Count(s) ELSE NoOut

Results(s) == /\ out = CountOf(s)
              /\ third = CountOf(Times(s, 3))
              /\ fourth = CountOf(Times(s, 4))

Init == sig = <<>> /\ Results(sig)
Next == \E v \in Levels :
          /\ Len(sig) < MaxLen
          /\ sig' = Append(sig, v)
          /\ out' = CountOf(sig')
          /\ third' = CountOf(Times(sig', 3))
          /\ fourth' = CountOf(Times(sig', 4))
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ the laws
Seen == sig # <<>> /\ Countable(sig)

StretchLaw ==
  Seen => \A K \in Stretches :
    LET c == Count(Stretch(sig, K))
    IN /\ c.rows = [i \in 1..Len(out.rows) |->
                      [q \in 1..5 |-> IF q = 3 THEN out.rows[i][q] ELSE K * out.rows[i][q]]]
       /\ c.res = [i \in 1..Len(out.res) |-> <<K * out.res[i][1], K * out.res[i][2]>>]

\* how often a bare row occurs
Often(rows, b) == Len(SelectSeq(rows, LAMBDA r: <<r[1], r[2], r[3]>> = b))
Kinds(rows) == {<<rows[i][1], rows[i][2], rows[i][3]>> : i \in 1..Len(rows)}

\* The residual grows by the same values in the same place.
V3 == Vals(third.res)
V4 == Vals(fourth.res)
More == Len(V4) - Len(V3)
Grown(p, k) == SubSeq(V3, 1, p)
               \o (IF More > 0 THEN Times(SubSeq(V4, p + 1, p + More), k) ELSE <<>>)
               \o SubSeq(V3, p + 1, Len(V3))
Splits == {p \in 0..Len(V3) : More >= 0 /\ Grown(p, 1) = V4}

RepeatLaw ==
  Seen => \A n \in Reps :
    LET c == Count(Times(sig, n))
    IN /\ Kinds(c.rows) \subseteq Kinds(fourth.rows)
       /\ \A b \in Kinds(fourth.rows) :
            Often(c.rows, b) =
              Often(third.rows, b) + (n - 3) * (Often(fourth.rows, b) - Often(third.rows, b))
       /\ Splits # {}
       /\ \A p \in Splits : Vals(c.res) = Grown(p, n - 3)
=============================================================================
