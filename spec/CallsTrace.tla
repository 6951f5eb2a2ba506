----------------------------- MODULE CallsTrace -----------------------------
(* Long random histories of calls.  Values are numbered by what they are:   *)
(* number o is the value operation o has in a process of its own.           *)
EXTENDS Calls, Json, IOUtils, TLC
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
Bad(r) ==
  (IF Functional(r.calls) THEN {} ELSE {"depends on the past or on the form"})
  \cup (IF Untouched(r.calls) THEN {} ELSE {"touches its arguments"})
  \cup (IF Agrees(r.calls) THEN {} ELSE {"value"})
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Bad(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
