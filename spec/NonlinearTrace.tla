--------------------------- MODULE NonlinearTrace ---------------------------
(* Nonlinear damage of long load sequences recorded from the real code:     *)
(* finals[j] is the damage reported for the first j loads, before[j] the    *)
(* damage between loads j and j + 1 that the counts were made for.          *)
EXTENDS NonlinearRules, Json, IOUtils, TLC
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
Clauses(r) ==
  LET h == History(Table[r.k], r.loads)
      n == Len(r.loads)
  IN (IF r.before # h THEN {"history"} ELSE {})
     \cup (IF Len(r.finals) # n
           THEN {"length"}
           ELSE IF \E j \in 1..n : r.finals[j] # Final(Table[r.k], SubSeq(r.loads, 1, j))
           THEN {"damage"} ELSE {})
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Clauses(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
