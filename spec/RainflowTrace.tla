--------------------------- MODULE RainflowTrace ---------------------------
(***************************************************************************)
(* Counts recorded from the real code, checked against the online machine. *)
(* Every record is replayed sample by sample with the machine's own Step   *)
(* and then judged; a rejected record is printed with the failing clauses. *)
(***************************************************************************)
EXTENDS Rainflow, TLC, Json, IOUtils
VARIABLES r, k, m

Recs == JsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

\* clauses of property C01
RowClauses(rec, o) ==
  (IF Bare(rec.rows) # Bare(o.rows)
   THEN IF SameBag(Bare(rec.rows), Bare(o.rows)) THEN {"order-of-closing"}
        ELSE {"cycles"}
   ELSE IF rec.rows # o.rows THEN {"position-or-period"} ELSE {})
  \cup (IF Travelled(rec.rows) # TotalVariation(rec.sig) THEN {"total-variation"} ELSE {})

\* clauses of property C02, on what the code itself reported
ResClauses(rec, o) ==
  LET v == Vals(rec.res)
      h == HalfRows(Bare(rec.rows))
  IN (IF v # Vals(o.res) THEN {"residual-values"} ELSE {})
     \cup (IF Idxs(rec.res) # Idxs(o.res) THEN {"residual-indices"} ELSE {})
     \cup (IF rec.times # Idxs(rec.res) THEN {"residual-times"} ELSE {})
     \cup (IF \E i \in 1..3 : rec.nres[i] # Len(rec.res) THEN {"residual-lengths"} ELSE {})
     \cup (IF \E i \in 1..Len(rec.res) :
                \/ rec.res[i][2] \notin 0..(Len(rec.sig) - 1)
                \/ rec.sig[rec.res[i][2] + 1] # rec.res[i][1]
           THEN {"residual-not-a-sample"} ELSE {})
     \cup (IF h # [i \in 1..(Len(v) - 1) |-> <<Abs(v[i+1] - v[i]), v[i] + v[i+1], 1>>]
           THEN {"residual-pairs-are-half-cycles"} ELSE {})
     \cup (IF rec.again.rows # h THEN {"recount-rows"} ELSE {})
     \cup (IF rec.again.res # v THEN {"recount-residual"} ELSE {})

\* clauses of property C03: the count was put together from pieces
PieceClauses(rec, o) ==
  (IF ~SameBag(rec.rows, Bare(o.rows)) THEN {"cycles"} ELSE {})
  \cup (IF rec.res # Vals(o.res) THEN {"residuals"} ELSE {})

Clauses(rec, mm) ==
  LET o == Result(mm)
  IN CASE Prop = "C01" -> RowClauses(rec, o)
       [] Prop = "C02" -> ResClauses(rec, o)
       [] Prop = "C03" -> PieceClauses(rec, o)

Init == r = 1 /\ k = 0 /\ m = Start

Consume == /\ r <= Len(Recs)
           /\ k < Len(Recs[r].sig)
           /\ m' = Step(m, Recs[r].sig[k+1])
           /\ k' = k + 1
           /\ r' = r

Judge == /\ r <= Len(Recs)
         /\ k = Len(Recs[r].sig)
         /\ LET c == Clauses(Recs[r], m)
            IN IF c = {} THEN TRUE ELSE PrintT(<<"REJECT", r, c>>)
         /\ IF r = Len(Recs) THEN PrintT(<<"DONE", r>>) ELSE TRUE
         /\ r' = r + 1 /\ k' = 0 /\ m' = Start

Next == Consume \/ Judge
Spec == Init /\ [][Next]_<<r, k, m>>
=============================================================================
