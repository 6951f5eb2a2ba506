---------------------------- MODULE BinningTrace ----------------------------
(* Exports, imports and bins recorded from the real code.                   *)
EXTENDS Binning, Json, IOUtils
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)

Nr(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : Nr(s, s[j]) = Nr(t, s[j])

ExportClauses(r) ==
  LET x == IF r.legacy THEN LegacyExport(r.entries, r.par) ELSE Export(r.entries, r.par)
      b == Import([cells |-> r.cells, lg |-> r.lg, res |-> r.res],
                  IF r.legacy THEN [r.par EXCEPT !.mlb = 0, !.mbw = 2] ELSE r.par)
      back == IF r.legacy THEN Meanless(b) ELSE b
  IN (IF r.small # x.small THEN {"small"} ELSE {})
     \cup (IF ~x.unsettled /\ ~SameBag(r.cells, x.cells) THEN {"cells"} ELSE {})
     \cup (IF ~x.unsettled /\ ~SameBag(r.lg, x.lg) THEN {"large"} ELSE {})
     \cup (IF Len(r.cells) + Len(r.lg) # Len(x.cells) + Len(x.lg) THEN {"full"} ELSE {})
     \cup (IF ~SameBag(r.res, x.res) THEN {"residuals"} ELSE {})
     \cup (IF r.imported /\ ~SameBag(r.back, back) THEN {"import"} ELSE {})

BinClauses(r) ==
  LET fc == FullCycles(r.entries)
      hc == HalfCycles(r.entries)
      full == [j \in 1..Len(fc) |-> fc[j][1]]
      half == [j \in 1..Len(hc) |-> hc[j][1]]
      lows == {r.entries[j][1] : j \in 1..Len(r.entries)}
      lb == IF r.given THEN r.lower ELSE DefaultLower(Min(lows), r.w)
      top == Max({full[j] : j \in 1..Len(full)})
      edges == Edges(top, lb, r.w)
  IN (IF r.lower # lb THEN {"lower"} ELSE {})
     \cup (IF r.full # full THEN {"full"} ELSE {})
     \cup (IF r.half # half THEN {"half"} ELSE {})
     \cup (IF \/ Len(r.edges) < Len(edges)
              \/ Len(r.edges) > Len(edges) + (IF r.exact THEN 0 ELSE 2)
              \/ \E j \in 1..Len(r.edges) : r.edges[j] # lb + (j - 1) * r.w THEN {"edges"} ELSE {})
     \cup (IF r.idx # [j \in 1..Len(full) |-> BinOf(full[j], lb, r.w)] THEN {"index"} ELSE {})
     \cup (IF r.binned # [j \in 1..Len(full) |-> Centre(BinOf(full[j], lb, r.w), lb, r.w)]
           THEN {"binned"} ELSE {})

ImportClauses(r) ==
  IF SameBag(r.back, ReadDict([flat |-> r.flat, hist |-> r.hist, lg |-> r.lg, res |-> r.res], r.par))
  THEN {} ELSE {"import"}

\* Numbers as they were and as they were written with so many decimals, in
\* millionths.
Written(v, w, step) == w % step = 0 /\ 2 * (w - v) <= step /\ 2 * (v - w) <= step
DigitClauses(r) ==
  LET step == IF r.decimals >= 6 THEN 1 ELSE Power(10, 6 - r.decimals)
      part(p) == \A j \in 1..Len(p) : Written(p[j][1], p[j][2], step)
  IN (IF ~part(r.residuals) THEN {"residuals"} ELSE {})
     \cup (IF ~part(r.large) THEN {"large cycles"} ELSE {})
     \cup (IF ~part(r.halves) THEN {"half cycles"} ELSE {})

Clauses(r) == CASE r.kind = "export" -> ExportClauses(r)
                [] r.kind = "import" -> ImportClauses(r)
                [] r.kind = "bins" -> BinClauses(r)
                [] r.kind = "digits" -> DigitClauses(r)

Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Clauses(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
