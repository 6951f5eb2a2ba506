---------------------------- MODULE DamageTrace -----------------------------
(* Damage of long random lists recorded from the real code.  dmg holds the  *)
(* damage of every entry times 2 * Base, sum twice the reference cycles     *)
(* times the equivalent stress to the power m, shift the Gassner shift of   *)
(* every entry times its denominator.                                       *)
EXTENDS Damage, Json, IOUtils, TLC
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
Clauses(r) ==
  (IF r.dmg # EntriesDamage(r.c, r.es) THEN {"damage"} ELSE {})
  \cup (IF r.sum # Weighted(r.es, r.m) THEN {"equivalent"} ELSE {})
  \cup (IF r.shift # [k \in 1..Len(r.es) |-> r.es[k][2] * Pow(r.es[k][1], r.m)]
        THEN {"gassner"} ELSE {})
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Clauses(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
