----------------------------- MODULE LabelsTrace ----------------------------
(* Random curves: names they show and numbers and colours they got, colours *)
(* told apart by numbers of their own.  Names are compared as texts.         *)
EXTENDS Labels, Json, IOUtils
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
Bad(r) ==
  (IF \E x \in DOMAIN r.names : r.names[x] # Name(r.words[x], r.html[x])
   THEN {"name"} ELSE {})
  \cup (IF r.names # r.texts THEN {"text"} ELSE {})
  \cup (IF ~Rising(r.colours) THEN {"numbers do not rise"} ELSE {})
  \cup (IF ~InTurn(r.colours) THEN {"colours not in turn"} ELSE {})
  \cup (IF \E x \in DOMAIN r.given : r.given[x] /\ r.colours[x][1] # 0
        THEN {"number in spite of a given colour"} ELSE {})
  \cup (IF \E x \in DOMAIN r.given : ~r.given[x] /\ r.colours[x][1] = 0
        THEN {"no number"} ELSE {})
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Bad(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
