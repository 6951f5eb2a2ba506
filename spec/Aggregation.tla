---------------------------- MODULE Aggregation -----------------------------
(***************************************************************************)
(* Tables of cycle counts over time and their aggregation by windows.       *)
(* A row is [t |-> minutes, cc |-> count or NoCount, v |-> number or NoVal].*)
(* Windows are intervals of w minutes; w = 0 is one window over everything. *)
(***************************************************************************)
EXTENDS CycleCounts, TLC
D == INSTANCE Damage
NoCount == [rows |-> <<>>]
NoVal == -1

Key(t, w) == IF w = 0 THEN 0 ELSE t \div w
Keys(tab, w) == {Key(tab[i].t, w) : i \in 1..Len(tab)}
Window(tab, w, k) == SelectSeq(tab, LAMBDA r : Key(r.t, w) = k)
CountsOf(tab) == LET some == SelectSeq(tab, LAMBDA r : r.cc # NoCount)
                 IN [i \in 1..Len(some) |-> some[i].cc]
SumCounts(ccs) == IF ccs = <<>> THEN NoCount ELSE FoldLeft(Add, ccs[1], Tail(ccs))
\* Low-frequency dynamics are resolved once several counts are involved.
Aggregate(cc) == IF cc = NoCount THEN NoCount
                 ELSE IF Cardinality(cc.times) > 1 THEN Solve(cc, "res") ELSE cc
\* The mean as a fraction; nothing to average is <<0, 0>>.
Mean(tab) ==
  LET some == SelectSeq(tab, LAMBDA r : r.v # NoVal)
  IN <<FoldLeft(LAMBDA s, r : s + r.v, 0, some), Len(some)>>
\* Residuals of a window: those of the residual sequence of its counts.
Residuals(cc) == IF cc = NoCount \/ cc.res = <<>> THEN <<>> ELSE Vals(Count(cc.res).res)

Entries(cc) == [i \in 1..Len(cc.rows) |-> <<cc.rows[i][1] \div 10, cc.rows[i][3]>>]
CurveA == [segs |-> <<<<3, 1000>>, <<5, 9000>>>>, ne |-> 0]
CurveB == [segs |-> <<<<3, 1000>>, <<5, 9000>>>>, ne |-> 200]
DamageOf(c, cc) == IF cc = NoCount THEN 0 ELSE D!Miner(c, Entries(cc))

Aggregated(tab, w) ==
  LET ks == SetToSortSeq(Keys(tab, w), <)
      one(k) == LET win == Window(tab, w, k)
                    s == SumCounts(CountsOf(win))
                    a == Aggregate(s)
                IN [key |-> k, cc |-> a, mean |-> Mean(win), res |-> Residuals(s),
                    dmg |-> <<DamageOf(CurveA, a), DamageOf(CurveB, a)>>]
  IN [i \in 1..Len(ks) |-> one(ks[i])]
=============================================================================
