---------------------------- MODULE CountsTrace -----------------------------
(***************************************************************************)
(* Validates recorded histories of real cycle counts.  A record holds the  *)
(* initial counts, the operations performed, the outcome of each and all   *)
(* counts as they are after the whole history.  Every step has to be the   *)
(* specified one from the recorded operands.                               *)
(***************************************************************************)
EXTENDS CycleCounts, Json, IOUtils, TLC
VARIABLE i

Trace == JsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

Obj(r) == [rows |-> r.rows, res |-> r.res, mm |-> r.mm, rlb |-> r.rlb, rbw |-> r.rbw,
           mlb |-> r.mlb, mbw |-> r.mbw, small |-> r.small, solved |-> r.solved,
           corr |-> r.corr, scf |-> r.scf, den |-> r.den, unit |-> r.unit, ts |-> r.ts,
           times |-> ToSet(r.times), name |-> r.name, by |-> r.by]

\* The counts available before step k.
PoolAt(r, k) ==
  r.objs \o [j \in 1..Len(SelectSeq(SubSeq(r.out, 1, k - 1), LAMBDA o: ~o.err)) |->
               SelectSeq(SubSeq(r.out, 1, k - 1), LAMBDA o: ~o.err)[j].val]

SumError(s) == \E k \in 2..Len(s) :
                 AddError(FoldLeft(Add, s[1], SubSeq(s, 2, k - 1)), s[k])
Sum(s) == FoldLeft(Add, s[1], Tail(s))

Err(op, p) ==
  CASE op.kind = "add" -> AddError(Obj(p[op.i]), Obj(p[op.j]))
    [] op.kind = "sum" -> SumError([k \in 1..Len(op.of) |-> Obj(p[op.of[k]])])
    [] op.kind = "correct" -> CorrectError(Obj(p[op.i]), op.enforce)
    [] OTHER -> FALSE
Val(op, p) ==
  CASE op.kind = "add" -> Add(Obj(p[op.i]), Obj(p[op.j]))
    [] op.kind = "sum" -> Sum([k \in 1..Len(op.of) |-> Obj(p[op.of[k]])])
    [] op.kind = "mul" -> Mul(Obj(p[op.i]), <<op.n, op.d>>)
    [] op.kind = "solve" -> Solve(Obj(p[op.i]), op.mode)
    [] op.kind = "correct" -> Correct(Obj(p[op.i]), op.p, op.enforce)

Ordered(op) == op.kind \in {"add", "sum", "mul"}
Relevant(op) ==
  CASE Prop = "C03" -> op.kind = "solve"
    [] Prop = "C04" -> op.kind \in {"add", "sum"}
    [] Prop = "C05" -> TRUE
    [] Prop = "C06" -> op.kind = "mul"
    [] Prop = "C10" -> op.kind = "correct"
Cycles == Prop # "C05"
Books == Prop # "C03"

Clauses(op, w, g) ==
  (IF Cycles THEN
    (IF Ordered(op) /\ g.rows # w.rows THEN {"cycles"} ELSE {})
    \cup (IF ~Ordered(op) /\ ~SameBag(g.rows, w.rows) THEN {"cycles"} ELSE {})
    \cup (IF g.res # w.res THEN {"residuals"} ELSE {})
    \cup (IF g.solved # w.solved THEN {"resolved"} ELSE {})
   ELSE {})
  \cup
  (IF Cycles /\ Books THEN
    (IF MinMax(g) # MinMax(w) THEN {"minmax"} ELSE {})
    \cup (IF <<g.rlb, g.rbw, g.mlb, g.mbw>> # <<w.rlb, w.rbw, w.mlb, w.mbw>>
          THEN {"bins"} ELSE {})
   ELSE {})
  \cup
  (IF Books THEN
    (IF g.small # w.small THEN {"small cycles"} ELSE {})
    \cup (IF g.times # w.times \/ g.ts # w.ts THEN {"times"} ELSE {})
    \cup (IF g.unit # w.unit THEN {"unit"} ELSE {})
    \cup (IF w.scf # Unknown /\ g.scf * w.den # w.scf * g.den THEN {"factor"} ELSE {})
    \cup (IF g.name # w.name \/ g.by # w.by THEN {"name"} ELSE {})
    \cup (IF w.corr # "?" /\ g.corr # w.corr THEN {"label"} ELSE {})
   ELSE {})

StepBad(r, k) ==
  LET op == r.ops[k]
      p == PoolAt(r, k)
      o == r.out[k]
      e == Err(op, p)
  IN IF ~Relevant(op) THEN {}
     ELSE IF e # o.err THEN {IF e THEN "accepted" ELSE "refused"}
     ELSE IF e THEN {}
     ELSE Clauses(op, Val(op, p), Obj(o.val))

Bad(r) ==
  UNION {StepBad(r, k) : k \in 1..Len(r.ops)}
  \cup (IF r.after # PoolAt(r, Len(r.ops) + 1) THEN {"operand changed"} ELSE {})

Init == i = 0
Next == /\ i < Len(Trace)
        /\ i' = i + 1
        /\ LET b == Bad(Trace[i + 1])
           IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Trace) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
