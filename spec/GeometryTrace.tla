--------------------------- MODULE GeometryTrace ----------------------------
(* Factors met on hollow cylinders of random sizes, at the start and along   *)
(* the growth of the crack, and drawings of cracks.                          *)
EXTENDS Geometry, Json, IOUtils, TLC
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
\* A factor observed at a depth that is rounded to a thousandth.
FactorBad(r) ==
  IF \E k \in 1..Len(r.seen) :
       LET x == r.seen[k]
       IN /\ Regular(x[1], r.ratio)
          /\ Deviation(Factor(x[1], r.thickness, r.ratio), x[2])
             > (IF k = 1 THEN 12 + x[2] \div 2000 ELSE 20 + x[2] \div 500)
  THEN {"factor"} ELSE {}
PlotBad(r) ==
  (IF CircleOk(r.outer, Unit) THEN {} ELSE {"outer circle"})
  \cup (IF CircleOk(r.inner, Unit - 10 * r.thickness) THEN {} ELSE {"inner circle"})
  \cup CrackBad(r.crack, r.depth, r.ratio)
Bad(r) == IF r.kind = "factor" THEN FactorBad(r) ELSE PlotBad(r)
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Bad(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
