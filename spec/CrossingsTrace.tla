--------------------------- MODULE CrossingsTrace ---------------------------
(* Crossings, extrema and turning points recorded from the real code.      *)
EXTENDS Rainflow, TLC, Json, IOUtils
VARIABLES r

Recs == JsonDeserialize(IOEnv.TRACE_FILE)

Clauses(x) ==
  (IF x.all # Crossings(x.sig, x.level) THEN {"crossings"} ELSE {})
  \cup (IF x.up # UpCrossings(x.sig, x.level) THEN {"up-crossings"} ELSE {})
  \cup (IF x.down # DownCrossings(x.sig, x.level) THEN {"down-crossings"} ELSE {})
  \cup (IF x.ext # Extrema(x.sig) THEN {"extrema"} ELSE {})
  \cup (IF x.tp # TurningPoints(x.sig) THEN {"turning-points"} ELSE {})

Init == r = 1
Next == /\ r <= Len(Recs)
        /\ LET c == Clauses(Recs[r])
           IN IF c = {} THEN TRUE ELSE PrintT(<<"REJECT", r, c>>)
        /\ IF r = Len(Recs) THEN PrintT(<<"DONE", r>>) ELSE TRUE
        /\ r' = r + 1
Spec == Init /\ [][Next]_r
=============================================================================
