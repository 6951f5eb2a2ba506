---------------------------- MODULE RequestsTrace ---------------------------
(* Random sequences of requests of all families put to the same objects:    *)
(* what came of each, and whether an answer was the one fresh objects give. *)
EXTENDS Requests, Json, IOUtils, TLC
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
Tuple(s) == IF s.f = "table" THEN [s.r EXCEPT ![2] = {@[k] : k \in DOMAIN @}] ELSE s.r
Bad(rec) ==
  UNION {LET s == rec.steps[k] IN
           IF Refused(s.f, Tuple(s))
           THEN IF s.came = "refused" THEN {} ELSE {<<s.f, "answered">>}
           ELSE IF s.came = "same" THEN {} ELSE {<<s.f, s.came>>} : k \in DOMAIN rec.steps}
    \cup IF rec.after = "same" THEN {} ELSE {<<"objects", "changed">>}
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Bad(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
