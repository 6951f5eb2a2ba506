---------------------------- MODULE HelpersTrace ----------------------------
(* Random signals: n values wanted and got, lowest, highest and sum in       *)
(* ticks, and whether the same seed gave the same again, another seed gave   *)
(* others, and the values follow the wanted span; long sampled times, shares *)
(* and chunks by what they add up to.                                        *)
EXTENDS Helpers, Json, IOUtils
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
Signal(r) ==
  (IF r.n # r.got THEN {"number of values"} ELSE {})
  \cup (IF r.low # r.min THEN {"lowest value"} ELSE {})
  \cup (IF r.high # r.min + r.range THEN {"highest value"} ELSE {})
  \cup (IF ~r.again THEN {"not reproducible"} ELSE {})
  \cup (IF ~r.others THEN {"other seeds give the same"} ELSE {})
  \cup (IF ~r.affine THEN {"does not follow the span"} ELSE {})
  \cup (IF ~r.times THEN {"depends on the times"} ELSE {})
  \cup (IF ~r.alone THEN {"disturbs other random numbers"} ELSE {})
Sampling(r) ==
  LET n == NTimes(r.step, r.duration)
  IN (IF r.n # n THEN {"number of times"} ELSE {})
     \cup (IF r.warned # Warned(r.step, r.duration) THEN {"warning"} ELSE {})
     \cup (IF \E x \in DOMAIN r.picks :
                r.picks[x][2] # r.start + r.picks[x][1] * r.step THEN {"times"} ELSE {})
Sharing(r) ==
  (IF r.shares # Share(r.what, r.by) THEN {"shares"} ELSE {})
Bad(r) == CASE r.kind = "signal" -> Signal(r)
            [] r.kind = "times" -> Sampling(r)
            [] r.kind = "share" -> Sharing(r)
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Bad(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
