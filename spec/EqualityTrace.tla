--------------------------- MODULE EqualityTrace ----------------------------
(* Counts met in random histories and which of them the code called equal:  *)
(* eq[i][j] for every ordered pair.                                         *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
Bad(r) ==
  (IF \E x, y \in 1..Len(r.objs) : r.objs[x] = r.objs[y] /\ ~r.eq[x][y]
   THEN {"equal ones told apart"} ELSE {})
  \cup (IF \E x, y \in 1..Len(r.objs) : r.objs[x] # r.objs[y] /\ r.eq[x][y]
        THEN {"different ones taken for equal"} ELSE {})
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Bad(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
