------------------------------- MODULE LffdMC -------------------------------
(***************************************************************************)
(* A signal is produced sample by sample and cut into pieces at arbitrary  *)
(* places.  Every finished piece is counted on its own and added to the    *)
(* total, which may be resolved at any time in between.                    *)
(***************************************************************************)
EXTENDS CycleCounts, TLC
CONSTANTS Levels, MaxLen, MaxPieces
VARIABLES whole, piece, acc, hist,
          want   \* the count of the uncut signal, once no sample is pending

vars == <<whole, piece, acc, hist, want>>
P(t) == [rlb |-> 1, rbw |-> 1, mlb |-> -50, mbw |-> 1, small |-> 0,
         unit |-> "MPa", ts |-> t, name |-> "s"]
None == [rows |-> <<>>]
Pieces == Len(SelectSeq(hist, LAMBDA h: h # <<"solve">>))

Init == whole = <<>> /\ piece = <<>> /\ acc = None /\ hist = <<>> /\ want = None

Sample(v) == /\ Len(whole) < MaxLen
             /\ Pieces < MaxPieces
             /\ whole' = Append(whole, v)
             /\ piece' = Append(piece, v)
             /\ want' = None
             /\ UNCHANGED <<acc, hist>>

Cut == /\ Countable(piece)
       /\ Pieces < MaxPieces
       /\ LET c == FromSignal(piece, P(Pieces))
          IN acc' = IF acc = None THEN c ELSE Add(acc, c)
       /\ hist' = Append(hist, piece)
       /\ piece' = <<>>
       /\ want' = FromSignal(whole, P(0))
       /\ UNCHANGED whole

Resolve == /\ acc # None
           /\ piece = <<>>
           /\ ~Unsolvable(acc, "res")
           /\ acc' = Solve(acc, "res")
           /\ hist' = Append(hist, <<"solve">>)
           /\ UNCHANGED <<whole, piece, want>>

Next == Cut \/ Resolve \/ \E v \in Levels : Sample(v)
Spec == Init /\ [][Next]_vars

\* The claim: resolving the total gives the count of the uncut signal.
Complete == acc # None /\ piece = <<>>
OneShot == want
LffdExact ==
  Complete =>
    LET s == Solve(acc, "res")
    IN /\ SameCycles(s, OneShot)
       /\ s.res = OneShot.res
       /\ Halves(s) = Halves(OneShot)
\* Resolving a resolved total changes nothing.
SolveIdempotent == Complete => Solve(Solve(acc, "res"), "res") = Solve(acc, "res")
FullNeverLost == \* adding never removes full cycles
  Complete => Len(Fulls(acc)) <= Len(Fulls(OneShot))
=============================================================================
