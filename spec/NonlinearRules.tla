--------------------------- MODULE NonlinearRules ---------------------------
(***************************************************************************)
(* Sequential nonlinear damage in the logarithmic domain: damage is         *)
(* B^d for some B > 1, stress 2^s.  A load <<s, z>> raises the damage       *)
(* accumulated so far, B^d (or nothing), to B^z by its n/N and then to the  *)
(* power of the rule, which is 2^x:                                         *)
(*   leve    the same exponent everywhere, <<p, q>>                         *)
(*   manson  (N of this load / N of the next)^b                             *)
(*   pavlou  (next stress / this stress)^b                                  *)
(*   sijian  next stress / this stress                                      *)
(* with exponent one after the last load for the last three.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Nothing == -100000

\* rule, exponent <<p, q>>, curve (log2 lines a - m * s); loads below h are
\* under the endurance limit: they do no damage of their own, but the damage
\* present is raised to the exponent all the same.
Table == <<
  [rule |-> "leve", p |-> 2, q |-> 1, m |-> <<3>>, a |-> <<20>>, h |-> -99],
  [rule |-> "leve", p |-> 1, q |-> 1, m |-> <<3, 5>>, a |-> <<20, 24>>, h |-> -99],
  [rule |-> "leve", p |-> 1, q |-> 2, m |-> <<4>>, a |-> <<15>>, h |-> -99],
  [rule |-> "manson", p |-> 2, q |-> 5, m |-> <<5>>, a |-> <<30>>, h |-> -99],
  [rule |-> "manson", p |-> 1, q |-> 5, m |-> <<5>>, a |-> <<30>>, h |-> -99],
  [rule |-> "manson", p |-> 1, q |-> 1, m |-> <<1, 2>>, a |-> <<12, 14>>, h |-> -99],
  [rule |-> "pavlou", p |-> -3, q |-> 4, m |-> <<3>>, a |-> <<40>>, h |-> -99],
  [rule |-> "pavlou", p |-> -1, q |-> 1, m |-> <<3, 5>>, a |-> <<20, 24>>, h |-> -99],
  [rule |-> "pavlou", p |-> -1, q |-> 2, m |-> <<4>>, a |-> <<20>>, h |-> -99],
  [rule |-> "sijian", p |-> 1, q |-> 1, m |-> <<3, 5>>, a |-> <<20, 24>>, h |-> -99],
  [rule |-> "leve", p |-> 2, q |-> 1, m |-> <<3, 5>>, a |-> <<20, 24>>, h |-> 1],
  [rule |-> "leve", p |-> 1, q |-> 2, m |-> <<4>>, a |-> <<15>>, h |-> 2],
  [rule |-> "pavlou", p |-> -1, q |-> 1, m |-> <<3>>, a |-> <<20>>, h |-> 1],
  [rule |-> "sijian", p |-> 1, q |-> 1, m |-> <<3, 5>>, a |-> <<20, 24>>, h |-> 2] >>

Life(r, s) == Max({r.a[j] - r.m[j] * s : j \in 1..Len(r.m)})
Log2Exp(r, s, t) == \* numerator over r.q of log2 of the exponent between s and t
  IF r.rule = "manson" THEN r.p * (Life(r, s) - Life(r, t)) ELSE r.p * (t - s)
Exact(r, s, t) == Log2Exp(r, s, t) % r.q = 0
Harmless(r, s) == s < r.h
Raise(z, x) == IF z = Nothing THEN z ELSE IF x >= 0 THEN z * 2^x ELSE z \div 2^(-x)
CanRaise(z, x) == x <= 3 /\ x >= -4 /\ (x < 0 /\ z # Nothing => z % 2^(-x) = 0)
LeveRaise(r, z) == IF z = Nothing THEN z ELSE (z * r.p) \div r.q

\* Damage after each load of a whole sequence.
History(r, loads) ==
  [j \in 1..Len(loads) |->
     IF r.rule = "leve" THEN LeveRaise(r, loads[j][2])
     ELSE IF j = Len(loads) THEN loads[j][2]
     ELSE Raise(loads[j][2], Log2Exp(r, loads[j][1], loads[j + 1][1]) \div r.q)]
Final(r, loads) == History(r, loads)[Len(loads)]
=============================================================================
