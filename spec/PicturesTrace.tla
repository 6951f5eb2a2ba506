---------------------------- MODULE PicturesTrace ---------------------------
(* Pictures that curves draw of themselves.  marks: the knees and the ends   *)
(* of the curve as it reports them, seen: those written in the picture, both *)
(* <<name, <<x, y>>>> in hundredths of a decade; lines: lines of the name    *)
(* that the picture lacks; left: figures opened and not closed; changed:     *)
(* fields of the curve that drawing changed.                                 *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
Near(a, b) == a - b \in -1..1
Bad(r) ==
  (IF Len(r.marks) # Len(r.seen) THEN {"other points written"}
   ELSE IF \E x \in DOMAIN r.marks :
             \/ r.marks[x][1] # r.seen[x][1]
             \/ ~Near(r.marks[x][2][1], r.seen[x][2][1])
             \/ ~Near(r.marks[x][2][2], r.seen[x][2][2])
        THEN {"a point written wrongly"} ELSE {})
  \cup (IF r.lines # 0 THEN {"name not written"} ELSE {})
  \cup (IF r.left # 0 THEN {"figure left open"} ELSE {})
  \cup (IF r.changed # 0 THEN {"curve changed"} ELSE {})
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Bad(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
