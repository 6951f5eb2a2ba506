----------------------------- MODULE NoticesTrace ---------------------------
(* Random histories of counts: the operands of every operation and whether  *)
(* it warned.  Names are recorded as they are, with all factors.            *)
EXTENDS Notices, Json, IOUtils, TLC
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
Count0(c) == [c EXCEPT !.times = ToSet(@)]
Reasons(s) ==
  LET a == Count0(s.a)
      b == Count0(s.b)
  IN CASE s.kind = "add" -> AddReasons(a, b)
       [] s.kind = "nothing" -> AddNothing
       [] s.kind = "from nothing" -> {}
       [] s.kind = "mul" -> MulReasons(a)
       [] s.kind = "solve" -> SolveReasons(a, s.mode)
       [] s.kind = "correct" -> CorrectReasons(a, s.corr, s.given)
Open(s) ==
  /\ Reasons(s) = {}
  /\ CASE s.kind = "add" -> AddOpen(s.a, s.b)
       [] s.kind = "solve" -> SolveOpen(s.a, s.mode)
       [] s.kind = "correct" -> ~s.a.solved /\ SolveOpen(s.a, "res")
       [] OTHER -> FALSE
Wrong(s) == ~Open(s) /\ s.warned # (Reasons(s) # {})
Bad(r) ==
  UNION {IF Wrong(r.steps[k])
         THEN {IF r.steps[k].warned THEN "needless warning" ELSE "no warning"} ELSE {} :
         k \in DOMAIN r.steps}
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Bad(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
