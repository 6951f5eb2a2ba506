-------------------------- MODULE ParisCurveTrace ---------------------------
(* Evaluations of random curves recorded from the real code.  rates holds   *)
(* <<k, r>>; sifs holds <<r, x>> with x a thousand times the logarithm of   *)
(* the intensity, rounded; knees likewise.                                  *)
EXTENDS ParisCurve, Json, IOUtils, TLC
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
NearFrac(x, f) == \* x / 1000 is the fraction f to rounding
  IF f = Whole(Nil) THEN x = Nil ELSE IF f = Whole(Inf) THEN x = Inf
  ELSE LET d == x * f[2] - 1000 * f[1] IN d <= f[2] /\ -d <= f[2]
Clauses(r) ==
  IF ~Usable(r.c) THEN {"curve"} ELSE
  (IF \E k \in 1..Len(r.rates) : r.rates[k][2] # Rate(r.c, r.rates[k][1])
   THEN {"rate"} ELSE {})
  \cup (IF \E k \in 1..Len(r.sifs) : ~NearFrac(r.sifs[k][2], Sif(r.c, r.sifs[k][1]))
        THEN {"sif"} ELSE {})
  \cup (IF Len(r.knees) # Len(r.c.m) - 1 THEN {"knees"}
        ELSE IF \E j \in Knees(r.c) : \/ ~NearFrac(r.knees[j][1], KneeSif(r.c, j))
                                      \/ ~NearFrac(r.knees[j][2], KneeRate(r.c, j))
        THEN {"knees"} ELSE {})
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Clauses(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
