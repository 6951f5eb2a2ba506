------------------------------ MODULE TextsTrace ----------------------------
(* Texts and axis labels of random objects.                                 *)
EXTENDS Texts, Json, IOUtils
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
ToSet(s) == {s[k] : k \in DOMAIN s}
Label(s, ws) == InOrder(s, ws) /\ EndsWith(s, ws[Len(ws)])
Bad(r) ==
  (IF r.kind # "count" \/ InOrder(r.text, CountText(r.name, ToSet(r.times)))
   THEN {} ELSE {"text"})
  \cup (IF r.kind # "count" \/ r.years = Stamps(ToSet(r.times)) THEN {} ELSE {"times"})
  \cup (IF r.kind # "crack" \/ /\ InOrder(r.text, <<Outcome(r.failed)>>)
                               /\ ~InOrder(r.text, <<Outcome(~r.failed)>>)
        THEN {} ELSE {"outcome"})
  \cup (IF r.kind # "geometry" \/ \A k \in DOMAIN r.sizes :
             InOrder(r.text, <<r.sizes[k][1] \o "=" \o r.sizes[k][2]>>)
        THEN {} ELSE {"sizes"})
  \cup (IF r.kind # "picture" \/ InOrder(r.text, Limits(r.unit \o " sqrt " \o r.len))
        THEN {} ELSE {"limits"})
  \cup UNION {LET a == r.axes[k]
                  w == Axes(a.plot, r.unit, r.len)
              IN IF Label(a.x, w[1]) /\ Label(a.y, w[2]) THEN {} ELSE {a.plot} :
              k \in DOMAIN r.axes}
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Bad(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
