----------------------------- MODULE CrackTrace -----------------------------
(***************************************************************************)
(* Crack growth recorded from the real code, in the logarithmic domain, on  *)
(* any curve and both geometries.  A record holds the curve c (see          *)
(* ParisCurve), the blocks <<log stress, log cycles>> with Nil for none,    *)
(* and for every block gone through the logarithms of depth, intensity,     *)
(* geometry factor and growth (Nil: none).  last is the same for the state  *)
(* the last block leaves behind or, after a failure, the failing block      *)
(* meets; through tells that the geometry factor vanished there.            *)
(* All logarithms are integers, rounded; Eps covers the rounding.           *)
(***************************************************************************)
EXTENDS ParisCurve, Json, IOUtils, TLC, FiniteSetsExt, SequencesExt
VARIABLE i
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
Eps == 20
HalfLogPi == 248575         \* log10(pi) / 2, in units of 1e-6
LogNine == 954243
Near(x, y) == x = y \/ (x - y <= Eps /\ y - x <= Eps)
CG == INSTANCE CrackGrowth

Intensity(s, a, y) == IF s = Nil \/ y = Nil THEN Nil ELSE s + HalfLogPi + (a \div 2) + y
StepWrong(r, k) ==
  LET b == r.blocks[k]
      st == r.steps[k]
      x == st.sif
  IN \/ ~Near(x, Intensity(b[1], st.a, st.y))
     \/ st.y = Nil                                    \* should have stopped
     \/ r.surface /\ st.y # 0
     \/ r.c.c # Inf /\ x > r.c.c + Eps                \* should have stopped
     \/ /\ r.c.t # Nil /\ x # Nil /\ x < r.c.t - Eps  \* below the threshold
        /\ st.grown # Nil
     \/ x = Nil /\ st.grown # Nil
     \/ /\ x # Nil /\ (r.c.t = Nil \/ x > r.c.t + Eps)
        /\ st.visible
        /\ (st.grown = Nil \/ ~Near(st.grown, Line(r.c, SegAt(r.c, Whole(x)), x) + b[2]))
     \/ /\ st.grown # Nil                             \* more than ninefold growth
        /\ st.grown > st.a + LogNine + Eps

EndWrong(r) ==
  LET n == Len(r.steps)
      x == Intensity(r.blocks[n + 1][1], r.last.a, r.last.y)
      g == IF x = Nil THEN Nil ELSE Line(r.c, SegAt(r.c, Whole(x)), x) + r.blocks[n + 1][2]
  IN IF ~r.failed
     THEN n # Len(r.blocks)
     ELSE \/ n >= Len(r.blocks)
          \/ ~( \/ r.last.y = Nil                     \* through
                \/ r.c.c # Inf /\ x # Nil /\ x >= r.c.c - Eps
                \/ x # Nil /\ (r.c.t = Nil \/ x >= r.c.t - Eps)
                   /\ g >= r.last.a + LogNine - Eps )

\* The table has the values met by the last block of every entry that was
\* gone through (Inf: none), and the cycles up to there.
TableWrong(r) ==
  LET ends == CG!Ends(r.entries, r.fast, [depth |-> r.steps])
      t == r.table
  IN \/ t.cycles # r.cycles
     \/ Len(t.rows) # Len(r.entries)
     \/ \E k \in 1..Len(t.rows) :
          IF k > Len(ends) THEN t.rows[k] # <<Inf, Inf, Inf, -1>>
          ELSE LET st == r.steps[ends[k]] w == t.rows[k]
               IN \/ ~Near(w[1], st.a) \/ ~Near(w[2], st.sif) \/ ~Near(w[3], st.y)
                  \/ w[4] # CG!Cycles2(SubSeq(r.entries, 1, k))

Clauses(r) ==
  (IF ~Usable(r.c) THEN {"curve"} ELSE {})
  \cup (IF r.lengths # <<Len(r.steps), Len(r.steps), Len(r.steps)>> THEN {"lengths"} ELSE {})
  \cup (IF r.steps # <<>> /\ r.steps[1].a # r.a0 THEN {"initial"} ELSE {})
  \cup (IF Len(r.steps) > Len(r.blocks) THEN {"too-long"}
        ELSE (IF \E k \in 1..Len(r.steps) : StepWrong(r, k) THEN {"step"} ELSE {})
             \cup (IF EndWrong(r) THEN {"end"} ELSE {}))
  \* the crack is through exactly when it is as deep as the wall
  \cup (IF ~r.surface /\ \E k \in 1..Len(r.steps) : r.steps[k].a > r.wall + Eps
        THEN {"wall"} ELSE {})
  \cup (IF ~r.surface /\ r.last.y = Nil /\ r.last.a < r.wall - Eps THEN {"not-through"} ELSE {})
  \* the blocks are those of the entries, and all of them are accounted for
  \cup (IF r.announced # CG!Blocks(r.entries, r.fast) THEN {"blocks"} ELSE {})
  \cup (IF TableWrong(r) THEN {"table"} ELSE {})
  \cup (IF r.cycles # CG!Cycles2(SubSeq(r.announced, 1, Len(r.steps))) THEN {"cycles"} ELSE {})
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET b == Clauses(Recs[i + 1]) IN b # {} => PrintT(<<"REJECT", i + 1, b>>)
        /\ i' = Len(Recs) => PrintT(<<"DONE", i'>>)
Spec == Init /\ [][Next]_i
=============================================================================
