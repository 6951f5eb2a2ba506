-------------------------- MODULE MeanStressTrace ---------------------------
(* Corrections recorded from the real code.  kind "dnv": out holds ten      *)
(* times the corrected ranges.  kind "swt": out holds the corrected ranges  *)
(* in hundredths, rounded, which the square root has to lie next to.        *)
EXTENDS MeanStress, Json, IOUtils, TLC
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)

SwtOk(c, x) ==
  LET top == c[2] + c[1]
  IN IF top < 0 THEN x = 0
     ELSE LET q == 2500 * top * c[1]    \* (100 * sqrt(max * amplitude))^2
          IN x >= 0 /\ (IF x <= 1 THEN 0 ELSE (x - 1) * (x - 1)) <= q /\ q <= (x + 1) * (x + 1)
Clauses(r) ==
  (IF Len(r.out) # Len(r.cycles) THEN {"length"}
   ELSE IF r.kind = "dnv"
   THEN IF \E k \in 1..Len(r.out) : /\ r.out[k] # DnvTenths(r.cycles[k], r.p)
                                    /\ ~(DnvUnsettled(r.cycles[k], r.p) /\ r.out[k] = 0)
        THEN {"range"} ELSE {}
   ELSE IF \E k \in 1..Len(r.out) : ~SwtOk(r.cycles[k], r.out[k]) THEN {"range"} ELSE {})

Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Clauses(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
