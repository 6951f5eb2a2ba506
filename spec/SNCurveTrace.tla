--------------------------- MODULE SNCurveTrace -----------------------------
(* Evaluations of random curves recorded from the real code.  cyc holds     *)
(* <<s, n>> (n = Never: infinite), str holds <<n, x>> with x a thousand     *)
(* times the logarithm of the stress, rounded; knees likewise.              *)
EXTENDS SNCurve, Json, IOUtils, TLC
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
NearFrac(x, f) == \* x / 1000 is the fraction f to rounding
  LET d == x * f[2] - 1000 * f[1] IN d <= f[2] /\ -d <= f[2]
Clauses(r) ==
  (IF \E k \in 1..Len(r.cyc) : /\ r.cyc[k][2] # Cycles(r.c, r.cyc[k][1])
                               /\ ~(CyclesUnsettled(r.c, r.cyc[k][1]) /\ r.cyc[k][2] = Never)
   THEN {"cycles"} ELSE {})
  \cup (IF \E k \in 1..Len(r.str) : ~NearFrac(r.str[k][2], Stress(r.c, r.str[k][1]))
        THEN {"stress"} ELSE {})
  \cup (IF Len(r.knees) # Len(r.c.m) - 1 THEN {"knees"}
        ELSE IF \E j \in Knees(r.c) : \/ ~NearFrac(r.knees[j][1], KneeStress(r.c, j))
                                      \/ ~NearFrac(r.knees[j][2], KneeCycles(r.c, j))
        THEN {"knees"} ELSE {})
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Clauses(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
