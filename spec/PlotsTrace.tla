----------------------------- MODULE PlotsTrace -----------------------------
(***************************************************************************)
(* Validates drawings recorded from the real code.  Kinds of records:       *)
(*   sn, paris  the drawn curve, and the points of a given data set         *)
(*   miner      <<log range, log count>> of every entry, colour the log of  *)
(*              the damage (Nil: none)                                      *)
(*   lines      lines given and drawn, by label                             *)
(***************************************************************************)
EXTENDS CurvePlots, Json, IOUtils, TLC
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)

DataBad(r) == IF r.data # r.drawn THEN {"data set"} ELSE {}
Damage(c, e) == LET n == SN!Cycles(c, e[1]) IN IF n = SN!Never THEN PC!Nil ELSE e[2] - n
MinerBad(r) ==
  (IF r.points # [k \in 1..Len(r.entries) |-> r.entries[k]] THEN {"points"} ELSE {})
  \cup (IF \E k \in 1..Len(r.entries) :
             /\ r.colours[k] # Damage(r.c, r.entries[k])
             /\ ~(SN!CyclesUnsettled(r.c, r.entries[k][1]) /\ r.colours[k] = PC!Nil)
        THEN {"colours"} ELSE {})
Bad(r) == CASE r.kind = "sn" -> SNBad(r.c, r.pts) \cup DataBad(r)
            [] r.kind = "paris" -> ParisBad(r.c, r.pts) \cup DataBad(r)
            [] r.kind = "miner" -> MinerBad(r)
            [] r.kind = "lines" -> DataBad(r)

Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Bad(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
