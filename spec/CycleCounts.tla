----------------------------- MODULE CycleCounts ----------------------------
(***************************************************************************)
(* Cycle counts as abstract objects and the operations on them.            *)
(*                                                                         *)
(* A count is a record                                                     *)
(*   rows   <<10 * range, 20 * mean, 2 * count>> of every entry            *)
(*   res    residual sequence                                              *)
(*   mm     stored min/max sequence (may be empty, see MinMax)             *)
(*   rlb rbw mlb mbw   binning of ranges and means                         *)
(*   small  number of discarded small cycles                               *)
(*   solved corr       low-frequency dynamics recovered, correction label  *)
(*   scf    stress factor                                                  *)
(*   unit ts times name                                                    *)
(*   by     the factors that were appended to the name, <<num, den>>         *)
(* Tenths make the DNV mean stress correction exact in integers.           *)
(***************************************************************************)
EXTENDS Rainflow, FiniteSets, FiniteSetsExt

Tenths(rows) == [i \in 1..Len(rows) |-> <<10 * rows[i][1], 10 * rows[i][2], rows[i][3]>>]
SeqMin(s) == Min(ToSet(s))
SeqMax(s) == Max(ToSet(s))

MinMax(a) == IF a.mm = <<>> /\ Len(a.res) >= 2
             THEN <<SeqMin(a.res), SeqMax(a.res)>>
             ELSE a.mm

\* A count not derived from any other; p gives everything but cycles and residuals.
Fresh(rows, res, p) ==
  [rows |-> rows, res |-> res, mm |-> <<>>,
   rlb |-> p.rlb, rbw |-> p.rbw, mlb |-> p.mlb, mbw |-> p.mbw,
   small |-> p.small, solved |-> FALSE, corr |-> "No", scf |-> 1, den |-> 1,
   unit |-> p.unit, ts |-> p.ts, times |-> {p.ts}, name |-> p.name, by |-> <<>>]
FromSignal(sig, p) == LET c == Count(sig) IN Fresh(Tenths(c.rows), Vals(c.res), p)

\* Counts of different factors get the average of the factors when they are
\* added; beyond what numbers of TLC hold the factor is left open.
Unknown == -1
Average(a, b) ==
  IF Unknown \in {a.scf, b.scf} \/ a.den * b.den > 1024 THEN <<Unknown, 1>>
  ELSE IF a.scf * b.den = b.scf * a.den THEN <<a.scf, a.den>>
  ELSE <<a.scf * b.den + b.scf * a.den, 2 * a.den * b.den>>

\* ------------------------------------------------------------- addition
AddError(a, b) == \/ a.unit # b.unit
                  \/ Max(a.times) > Min(b.times)
Lo(x, y) == IF x < y THEN x ELSE y
Hi(x, y) == IF x > y THEN x ELSE y
Add(a, b) ==
  [rows |-> a.rows \o b.rows,
   res |-> a.res \o b.res,
   mm |-> MinMax(a) \o MinMax(b),
   rlb |-> Lo(a.rlb, b.rlb), rbw |-> Hi(a.rbw, b.rbw),
   mlb |-> Lo(a.mlb, b.mlb), mbw |-> Hi(a.mbw, b.mbw),
   small |-> a.small + b.small, solved |-> FALSE,
   corr |-> IF a.corr = "No" /\ b.corr = "No" THEN "No" ELSE "?",
   scf |-> Average(a, b)[1], den |-> Average(a, b)[2],
   unit |-> a.unit, ts |-> Lo(a.ts, b.ts), times |-> a.times \cup b.times,
   name |-> a.name, by |-> a.by]

\* -------------------------------------------------------------- scaling
\* Multiplication by n/d (the models keep all stresses divisible).
Times(x, f) == (x * f[1]) \div f[2]
Scaled(s, f) == [i \in 1..Len(s) |-> Times(s[i], f)]
ScaledRows(rows, f) ==
  [i \in 1..Len(rows) |-> <<Times(rows[i][1], f), Times(rows[i][2], f), rows[i][3]>>]
Divisible(a, f) ==
  /\ \A i \in 1..Len(a.rows) : (a.rows[i][1] % f[2] = 0 /\ a.rows[i][2] % f[2] = 0)
  /\ \A i \in 1..Len(a.res) : a.res[i] % f[2] = 0
  /\ \A i \in 1..Len(a.mm) : a.mm[i] % f[2] = 0
  /\ \A x \in {a.rlb, a.rbw, a.mlb, a.mbw} : x % f[2] = 0
Mul(a, f) ==
  [a EXCEPT !.rows = ScaledRows(@, f), !.res = Scaled(@, f),
            !.mm = Scaled(MinMax(a), f),
            !.scf = IF @ = Unknown THEN Unknown ELSE f[1] * @,
            !.den = f[2] * @, !.by = Append(@, f),
            !.rlb = Times(@, f), !.rbw = Times(@, f),
            !.mlb = Times(@, f), !.mbw = Times(@, f)]

\* ------------------------------------------- low-frequency recovery
LffdSeq(a, mode) == IF mode = "res" THEN a.res ELSE MinMax(a)
Unsolvable(a, mode) == a.solved \/ Len(LffdSeq(a, mode)) < 3
Solve(a, mode) ==
  IF Unsolvable(a, mode) THEN a
  ELSE LET c == Count(LffdSeq(a, mode))
           rv == Vals(c.res)
       IN [a EXCEPT !.rows = Tenths(c.rows) \o SelectSeq(@, LAMBDA x: x[3] > 1),
                    !.res = rv,
                    !.mm = IF mode = "res" THEN MinMax(a)
                           ELSE <<SeqMin(rv), SeqMax(rv)>>,
                    !.solved = TRUE]

\* ------------------------------------------------ mean stress correction
\* DNV correction of a row given in tenths; p is 5 * detail factor (3 or 4).
\* Before any correction ranges and doubled means are multiples of ten.
DnvRange(row, p) ==
  LET r == row[1] \div 10
      m2 == row[2] \div 10
      top == m2 + r           \* 2 * maximum
      bot == m2 - r           \* 2 * minimum
  IN IF bot > 0 THEN 10 * r
     ELSE IF top < 0 THEN (IF p = 4 THEN 8 * r ELSE 0)
     ELSE 5 * top + p * (-bot)
Dnv(rows, p) ==
  [i \in 1..Len(rows) |-> LET x == DnvRange(rows[i], p) IN <<x, x, rows[i][3]>>]

NoMeans(a) == \A i \in 1..Len(a.rows) : a.rows[i][2] = 0
Pulsating(rows) == [i \in 1..Len(rows) |-> <<rows[i][1], rows[i][1], rows[i][3]>>]
CorrectError(a, enforce) ==
  a.corr = "No" /\ NoMeans(Solve(a, "res")) /\ ~enforce
Correct(a, p, enforce) ==
  IF a.corr # "No" THEN a
  ELSE LET s == Solve(a, "res")
           raw == IF NoMeans(s) THEN Pulsating(s.rows) ELSE s.rows
       IN [s EXCEPT !.rows = Dnv(raw, p), !.mm = MinMax(s),
                    !.corr = IF p = 4 THEN "DNV8" ELSE "DNV6"]

\* ---------------------------------------------------- comparing counts
SameCycles(a, b) == SameBag(a.rows, b.rows)
Fulls(a) == SelectSeq(a.rows, LAMBDA x: x[3] > 1)
Halves(a) == SelectSeq(a.rows, LAMBDA x: x[3] = 1)
=============================================================================
