----------------------------- MODULE RequestsMC -----------------------------
(* Short histories of requests of one family, put to the same objects.      *)
EXTENDS Requests, TLC
CONSTANTS MaxOps, Asked
VARIABLES family, hist, out
vars == <<family, hist, out>>

Init == family \in Asked /\ hist = <<>> /\ out = <<>>
\* A refused request is followed by one that is not; nothing else is learnt
\* from asking two wrong things in a row, or the same thing twice.
May(r) == IF hist = <<>> THEN TRUE ELSE out[Len(out)] # Refused(family, r)
Ask(r) == /\ hist' = Append(hist, r)
          /\ out' = Append(out, Refused(family, r))
          /\ UNCHANGED family
Next == /\ Len(hist) < MaxOps
        /\ \E r \in Settled(family) : May(r) /\ Ask(r)
Spec == Init /\ [][Next]_vars

\* Every family has requests of both kinds.
Both == hist = <<>> => \E r, s \in Settled(family) : Refused(family, r) /\ ~Refused(family, s)
\* Removing all faults makes a request acceptable, each alone makes it not.
Single ==
  hist # <<>> =>
    LET r == hist[Len(hist)]
    IN /\ out[Len(out)] = (Faults(family, r) # {})
       /\ family = "table" /\ Faults(family, r) = {} =>
            \A c \in Columns : Refused(family, <<r[1], r[2] \ {c}, r[3], r[4]>>)
\* The answer to a request depends on nothing but the request.
Alone == \A k \in DOMAIN hist : out[k] = Refused(family, hist[k])
=============================================================================
