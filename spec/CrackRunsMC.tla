---------------------------- MODULE CrackRunsMC -----------------------------
(* Entries of very many cycles.  The blocks of an entry are written as runs *)
(* <<stress, twice the cycles of a block, number of blocks>>, and the law    *)
(* that runs are the blocks is shown for all entries small enough.          *)
EXTENDS CrackGrowth
CONSTANTS Stresses, Counts2, Small2, MaxLen
VARIABLES es, fast, runs, total2
vars == <<es, fast, runs, total2>>
NonEmpty(q) == SelectSeq(q, LAMBDA r : r[3] > 0)
RunsOf(e, quick) ==
  LET w == e[2] \div 2
      by == IF quick THEN PowerOfTen(w) ELSE w
  IN NonEmpty(<<<<e[1], IF w = 0 THEN 0 ELSE 2 * ((w \div by) + 1), IF w = 0 THEN 0 ELSE w % by>>,
                <<e[1], IF w = 0 THEN 0 ELSE 2 * (w \div by), IF w = 0 THEN 0 ELSE by - (w % by)>>,
                <<e[1], 1, e[2] % 2>> >>)
Expanded(q) == FoldLeft(LAMBDA b, r : b \o [j \in 1..r[3] |-> <<r[1], r[2]>>], <<>>, q)
ASSUME \A n \in Small2 : \A quick \in BOOLEAN :
         Expanded(RunsOf(<<1, n>>, quick)) = Split(<<1, n>>, quick)

Init == es = <<>> /\ fast \in BOOLEAN /\ runs = <<>> /\ total2 = 0
Next == /\ Len(es) < MaxLen
        /\ \E s \in Stresses, n \in Counts2 :
             /\ es' = Append(es, <<s, n>>)
             /\ runs' = runs \o RunsOf(<<s, n>>, fast)
             /\ total2' = total2 + n
        /\ UNCHANGED fast
Spec == Init /\ [][Next]_vars
AddsUp == FoldLeft(LAMBDA x, r : x + r[2] * r[3], 0, runs) = total2
=============================================================================
