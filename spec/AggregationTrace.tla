-------------------------- MODULE AggregationTrace --------------------------
(* Aggregations recorded from the real code.  A record is a table with      *)
(* several columns of counts and one of numbers, the window length, and     *)
(* for every column the aggregated counts, residuals and damages; mean is   *)
(* <<sum of the numbers, how many>>.                                        *)
EXTENDS Aggregation, Json, IOUtils
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
Obj(r) == IF "ts" \notin DOMAIN r THEN NoCount
          ELSE [rows |-> r.rows, res |-> r.res, mm |-> r.mm, rlb |-> r.rlb, rbw |-> r.rbw,
           mlb |-> r.mlb, mbw |-> r.mbw, small |-> r.small, solved |-> r.solved,
           corr |-> r.corr, scf |-> r.scf, den |-> r.den, unit |-> r.unit, ts |-> r.ts,
           times |-> ToSet(r.times), name |-> r.name, by |-> r.by]
Table(r, c) == [k \in 1..Len(r.t) |-> [t |-> r.t[k], cc |-> Obj(r.cols[c][k]), v |-> r.v[k]]]
CountWrong(g, w) ==
  IF w = NoCount \/ g = NoCount THEN g # w
  ELSE \/ ~SameBag(g.rows, w.rows) \/ g.res # w.res \/ g.solved # w.solved
       \/ g.times # w.times \/ g.unit # w.unit \/ g.small # w.small
       \/ <<g.rlb, g.rbw, g.mlb, g.mbw>> # <<w.rlb, w.rbw, w.mlb, w.mbw>>
Mine(c, cc) == IF cc = NoCount THEN 0 ELSE D!Miner(c, Entries(cc))
ColumnBad(r, c) ==
  LET w == Aggregated(Table(r, c), r.w)
      g == r.out[c]
  IN IF Len(g.cc) # Len(w) THEN {"windows"}
     ELSE (IF r.keys # [k \in 1..Len(w) |-> w[k].key] THEN {"keys"} ELSE {})
          \cup (IF \E k \in 1..Len(w) : CountWrong(Obj(g.cc[k]), w[k].cc) THEN {"count"} ELSE {})
          \cup (IF \E k \in 1..Len(w) : LET m == w[k].mean IN
                     IF m[2] = 0 THEN r.mean[k][2] # 0
                     ELSE r.mean[k][2] = 0 \/ r.mean[k][1] * m[2] # r.mean[k][2] * m[1]
                THEN {"mean"} ELSE {})
          \cup (IF g.res # FoldLeft(LAMBDA s, x : s \o x.res, <<>>, w) THEN {"residuals"} ELSE {})
          \cup (IF \E k \in 1..(Len(g.idx) - 1) : g.idx[k + 1] < g.idx[k] THEN {"order"} ELSE {})
          \cup (IF g.dmg # [j \in 1..2 |-> [k \in 1..Len(w) |-> w[k].dmg[j]]] THEN {"damage"} ELSE {})
Clauses(r) == UNION {ColumnBad(r, c) : c \in 1..Len(r.cols)}
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Clauses(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
