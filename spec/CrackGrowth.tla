---------------------------- MODULE CrackGrowth -----------------------------
(***************************************************************************)
(* Growth of a crack under blocks of cycles on an infinite surface.         *)
(* The square of the stress intensity at stress s and depth a is, in        *)
(* suitable units, X = s^2 * a.  A growth curve is                          *)
(*   [e |-> exponents, g |-> factors, knee |-> knees, t |-> threshold,      *)
(*    c |-> critical]                                                       *)
(* with growth rate g * X^e (e is half the slope, 1 or 2), all over X.      *)
(* Depths are dyadic fractions <<p, q>>, reduced, and all else is exact.    *)
(* A block is <<s, n2>>: stress and twice the number of cycles.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Red(p, q) == LET d == Gcd(p, q) IN <<p \div d, q \div d>>
Sum2(x, y) == \* the larger denominator is a multiple of the other one
  IF x[2] >= y[2] THEN Red(x[1] + y[1] * (x[2] \div y[2]), x[2])
  ELSE Red(x[1] * (y[2] \div x[2]) + y[1], y[2])
NoLimit == <<0, 0>>

Square(s, a) == Red(s * s * a[1], a[2])
Seg(c, x) == 1 + Cardinality({j \in DOMAIN c.knee : x[1] > c.knee[j] * x[2]})
Rate(c, x) ==
  LET j == Seg(c, x)
      y == IF c.e[j] = 1 THEN x ELSE <<x[1] * x[1], x[2] * x[2]>>
  IN Red(y[1] * c.g[j][1], y[2] * c.g[j][2])
\* Keeps all numbers within the range of the model checker.
Fits(c, x, a) == /\ a[1] <= 100000 /\ a[2] <= 256
                 /\ c.e[Seg(c, x)] = 2 => x[1] <= 8000

Below(c, x) == x[1] * c.t[2] < c.t[1] * x[2]
Above(c, x) == c.c # NoLimit /\ x[1] * c.c[2] >= c.c[1] * x[2]
\* 10 * a compared with the new depth b: 1 beyond, 0 equal, -1 less
Tenfold(a, b) ==
  LET l == 10 * a[1] * b[2]
      r == b[1] * a[2]
  IN IF r > l THEN 1 ELSE IF r = l THEN 0 ELSE -1

(* The state of growth: present depth a, the histories of depth and of     *)
(* squared intensity (one value per block gone through, taken before the    *)
(* block), whether it has failed, and ok = FALSE once a number no longer    *)
(* fits or the depth would become exactly ten times as large.               *)
Start(a) == [a |-> a, depth |-> <<>>, sif |-> <<>>, failed |-> FALSE, ok |-> TRUE]
GrowBlock(c, st, b) ==
  IF st.failed \/ ~st.ok THEN st
  ELSE LET x == Square(b[1], st.a)
           kept(a) == [st EXCEPT !.a = a, !.depth = Append(@, st.a), !.sif = Append(@, x)]
       IN IF Above(c, x) THEN [st EXCEPT !.failed = TRUE]
          ELSE IF Below(c, x) THEN kept(st.a)
          ELSE IF ~Fits(c, x, st.a) THEN [st EXCEPT !.ok = FALSE]
          ELSE LET r == Rate(c, x)
                   new == Sum2(st.a, Red(r[1] * b[2], r[2] * 2))
                   f == IF new[1] > 8000000 \/ new[2] > 256 THEN 0 ELSE Tenfold(st.a, new)
               IN IF f = 0 THEN [st EXCEPT !.ok = FALSE]
                  ELSE IF f = 1 THEN [st EXCEPT !.failed = TRUE]
                  ELSE kept(new)
Grow(c, a, blocks) == FoldLeft(LAMBDA st, b : GrowBlock(c, st, b), Start(a), blocks)

(* Blocks of an entry <<s, n2>>: single cycles, or in the fast mode as     *)
(* many equal parts as the largest power of ten in the count, the larger    *)
(* ones first; what is left of a cycle is a block of its own.               *)
RECURSIVE PowerOfTen(_)
PowerOfTen(n) == IF n < 10 THEN 1 ELSE 10 * PowerOfTen(n \div 10)
Parts(w, by) == [j \in 1..by |-> (w \div by) + (IF j <= w % by THEN 1 ELSE 0)]
Split(e, fast) ==
  LET w == e[2] \div 2
      sizes == IF w = 0 THEN <<>> ELSE Parts(w, IF fast THEN PowerOfTen(w) ELSE w)
      whole == [j \in 1..Len(sizes) |-> <<e[1], 2 * sizes[j]>>]
  IN IF e[2] % 2 = 1 THEN Append(whole, <<e[1], 1>>) ELSE whole
Blocks(es, fast) == FoldLeft(LAMBDA q, e : q \o Split(e, fast), <<>>, es)
Cycles2(blocks) == FoldLeft(LAMBDA s, b : s + b[2], 0, blocks)
\* Twice the cycles gone through.
Done2(st, blocks) == Cycles2(SubSeq(blocks, 1, Len(st.depth)))
\* Index of the last block of every entry that has been gone through.
Ends(es, fast, st) ==
  LET at(k) == Len(Blocks(SubSeq(es, 1, k), fast))
      all == [k \in 1..Len(es) |-> at(k)]
  IN SelectSeq(all, LAMBDA j : j <= Len(st.depth))

Curves == <<
  [e |-> <<1>>, g |-> <<<<1, 4>>>>, knee |-> <<>>, t |-> <<0, 1>>, c |-> NoLimit],
  [e |-> <<1>>, g |-> <<<<1, 2>>>>, knee |-> <<>>, t |-> <<16, 7>>, c |-> <<300, 7>>],
  [e |-> <<1, 2>>, g |-> <<<<1, 8>>, <<1, 64>>>>, knee |-> <<8>>, t |-> <<0, 1>>, c |-> <<500, 7>>],
  [e |-> <<2, 1>>, g |-> <<<<1, 16>>, <<1, 4>>>>, knee |-> <<4>>, t |-> <<10, 7>>, c |-> NoLimit],
  [e |-> <<1, 2, 1>>, g |-> <<<<1, 8>>, <<1, 16>>, <<1, 1>>>>, knee |-> <<2, 16>>,
   t |-> <<5, 7>>, c |-> <<1000, 7>>],
  [e |-> <<1>>, g |-> <<<<1, 1>>>>, knee |-> <<>>, t |-> <<6, 7>>, c |-> <<9000, 7>>],
  [e |-> <<1>>, g |-> <<<<1, 1>>>>, knee |-> <<>>, t |-> <<24, 7>>, c |-> NoLimit] >>
=============================================================================
