------------------------------ MODULE Rainflow ------------------------------
(***************************************************************************)
(* Rainflow counting as an online machine.                                 *)
(*                                                                         *)
(* Samples arrive one by one.  Runs of equal samples count as one level,   *)
(* represented by the last sample of the run.  A level becomes a reversal  *)
(* once the signal turns away from it.  Reversals are fed to the counter,  *)
(* which keeps the open reversals and closes loops following ASTM E1049.   *)
(* At any moment the count of the signal seen so far is obtained by        *)
(* feeding the present level and flushing what is open as half cycles.     *)
(*                                                                         *)
(* All numbers are integers: rows hold <<range, 2*mean, 2*count, begin,    *)
(* 2*period-distance>> with 0-based sample indices.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Last2(s) == s[Len(s)]

\* ------------------------------------------------------------ the counter
\* A point is <<value, index>>.
Row(p, q, c2) == <<Abs(p[1] - q[1]), p[1] + q[1], c2, p[2], 2 * (q[2] - p[2])>>

EmptyCounter == [stk |-> <<>>, rows |-> <<>>, gone |-> <<>>]

RECURSIVE Close(_)
Close(c) ==
  LET s == c.stk
      n == Len(s)
  IN IF n < 3 THEN c
     ELSE LET X == Abs(s[n][1] - s[n-1][1])
              Y == Abs(s[n-1][1] - s[n-2][1])
          IN IF X < Y THEN c
             ELSE IF n = 3    \* Y starts at the very first open reversal
                  THEN Close([stk  |-> Tail(s),
                              rows |-> Append(c.rows, Row(s[1], s[2], 1)),
                              gone |-> Append(c.gone, s[1])])
                  ELSE Close([c EXCEPT
                              !.stk  = Append(SubSeq(s, 1, n - 3), s[n]),
                              !.rows = Append(@, Row(s[n-2], s[n-1], 2))])

FeedPoint(c, p) == Close([c EXCEPT !.stk = Append(@, p)])

Flush(c) == c.rows \o [i \in 1..(Len(c.stk) - 1) |-> Row(c.stk[i], c.stk[i+1], 1)]

\* The residual: reversals dropped from the front, then the open ones.
Residual(c) == c.gone \o c.stk

\* ---------------------------------------------------- the online machine
\* m.n samples seen, m.run the present level, m.dir its direction (0 while
\* only one level was seen), m.rev the number of reversals found.
Start == [n |-> 0, run |-> <<>>, dir |-> 0, rev |-> 0, ctr |-> EmptyCounter]

Step(m, v) ==
  IF m.n = 0
  THEN [m EXCEPT !.n = 1, !.run = <<v, 0>>]
  ELSE LET d == Sgn(v - m.run[1])
           at == <<v, m.n>>
       IN IF d = 0
          THEN [m EXCEPT !.n = @ + 1, !.run = at]
          ELSE IF d = m.dir
          THEN [m EXCEPT !.n = @ + 1, !.run = at]
          ELSE [n |-> m.n + 1, run |-> at, dir |-> d,
                rev |-> IF m.dir = 0 THEN 0 ELSE m.rev + 1,
                ctr |-> FeedPoint(m.ctr, m.run)]

Result(m) ==
  LET c == FeedPoint(m.ctr, m.run)
  IN [rows |-> Flush(c), res |-> Residual(c)]

Run(sig) == FoldLeft(Step, Start, sig)
Countable(sig) == Run(sig).dir # 0      \* at least two levels
Count(sig) == Result(Run(sig))

Vals(points) == [i \in 1..Len(points) |-> points[i][1]]
Idxs(points) == [i \in 1..Len(points) |-> points[i][2]]

\* Rows without their position in the signal.
Bare(rows) == [i \in 1..Len(rows) |-> <<rows[i][1], rows[i][2], rows[i][3]>>]
FullRows(rows) == SelectSeq(rows, LAMBDA r: r[3] = 2)
HalfRows(rows) == SelectSeq(rows, LAMBDA r: r[3] = 1)

\* Equality of sequences as bags.
RECURSIVE SameBag(_, _)
SameBag(a, b) ==
  IF Len(a) # Len(b) THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE LET I == {i \in 1..Len(b) : b[i] = Head(a)}
       IN IF I = {} THEN FALSE
          ELSE LET k == CHOOSE i \in I : TRUE
               IN SameBag(Tail(a), SubSeq(b, 1, k-1) \o SubSeq(b, k+1, Len(b)))

\* -------------------------------------- declarative view of the signal
TotalVariation(sig) ==
  FoldLeft(LAMBDA a, i: a + Abs(sig[i+1] - sig[i]), 0,
           [i \in 1..(Len(sig) - 1) |-> i])

\* Sum over rows of range * (2 for full, 1 for half).
Travelled(rows) == FoldLeft(LAMBDA a, r: a + r[1] * r[3], 0, rows)

\* Level crossings (0-based): the signal is strictly beyond the level at
\* i+1, not at i, and was not on that side when it last left the level.
LastSide(s, i) ==   \* last non-zero sign among s[1..i], 0 if none
  LET I == {k \in 1..i : s[k] # 0}
  IN IF I = {} THEN 0 ELSE s[CHOOSE k \in I : \A j \in I : j <= k]
Crossings(sig, level) ==
  LET s == [i \in 1..Len(sig) |-> Sgn(sig[i] - level)]
      I == {i \in 1..(Len(sig) - 1) :
              s[i+1] # 0 /\ s[i] # s[i+1] /\ LastSide(s, i) # s[i+1]}
  IN [i \in 1..Len(SetToSortSeq(I, <)) |-> SetToSortSeq(I, <)[i] - 1]
UpCrossings(sig, level) ==
  SelectSeq(Crossings(sig, level), LAMBDA i: sig[i+2] > level)
DownCrossings(sig, level) ==
  SelectSeq(Crossings(sig, level), LAMBDA i: sig[i+2] < level)

\* Extrema (0-based): ends of the runs at which the direction changes, a
\* flat start being such a run.
Extrema(sig) ==
  LET d == [i \in 1..(Len(sig) - 1) |-> sig[i+1] - sig[i]]
      Dir(i) == Sgn(d[i])
      Before(i) == LET I == {k \in 1..(i-1) : d[k] # 0}
                   IN IF I = {} THEN 0 ELSE Dir(CHOOSE k \in I : \A j \in I : j <= k)
      E == {i \in 2..(Len(sig) - 1) : Dir(i) # 0 /\ Dir(i) # Before(i)}
  IN [i \in 1..Len(SetToSortSeq(E, <)) |-> SetToSortSeq(E, <)[i] - 1]
TurningPoints(sig) ==
  IF Len(sig) < 2 THEN <<>>
  ELSE <<0>> \o Extrema(sig) \o <<Len(sig) - 1>>

\* ------------------------------------------ ASTM E1049 5.4.4, literally
\* An independent formulation used to cross-check the machine: list of
\* values p, S the index of the starting point, i the point read last.
RECURSIVE Astm(_, _, _)
Astm(todo, pts, out) ==   \* pts[1] is always S
  LET n == Len(pts)
      X == Abs(pts[n] - pts[n-1])
      Y == Abs(pts[n-1] - pts[n-2])
      HalfsLeft == [i \in 1..(n-1) |-> <<Abs(pts[i+1]-pts[i]), pts[i]+pts[i+1], 1>>]
  IN IF n < 3
     THEN IF todo = <<>> THEN out \o HalfsLeft
          ELSE Astm(Tail(todo), Append(pts, Head(todo)), out)
     ELSE IF X < Y
     THEN IF todo = <<>> THEN out \o HalfsLeft
          ELSE Astm(Tail(todo), Append(pts, Head(todo)), out)
     ELSE IF n > 3
     THEN Astm(todo, Append(SubSeq(pts, 1, n-3), pts[n]),
               Append(out, <<Y, pts[n-1] + pts[n-2], 2>>))
     ELSE Astm(todo, Tail(pts), Append(out, <<Y, pts[1] + pts[2], 1>>))
=============================================================================
