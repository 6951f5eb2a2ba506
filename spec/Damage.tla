------------------------------- MODULE Damage -------------------------------
(***************************************************************************)
(* Damage of a list of entries <<stress range, 2 * count>> (integers) on a  *)
(* curve whose segments <<m, K>> allow K / S^m cycles at stress S; ne is    *)
(* the endurance (0: none).                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)

\* The segment that allows most cycles at S > 0.
Governs(c, S) ==
  CHOOSE j \in 1..Len(c.segs) : \A i \in 1..Len(c.segs) :
    c.segs[j][2] * Pow(S, c.segs[i][1]) >= c.segs[i][2] * Pow(S, c.segs[j][1])
\* Infinite life: no stress, or more cycles than the endurance.
Endless(c, S) ==
  \/ S = 0
  \/ LET g == c.segs[Governs(c, S)] IN c.ne > 0 /\ g[2] > c.ne * Pow(S, g[1])
EndlessUnsettled(c, S) ==
  S > 0 /\ c.ne > 0 /\ LET g == c.segs[Governs(c, S)] IN g[2] = c.ne * Pow(S, g[1])

\* Damage of one entry, n / N, as a fraction over 2 * Base(c).
Base(c) == c.segs[Len(c.segs)][2]
EntryDamage(c, e) ==
  IF Endless(c, e[1]) THEN 0
  ELSE LET g == c.segs[Governs(c, e[1])] IN e[2] * Pow(e[1], g[1]) * (Base(c) \div g[2])
EntriesDamage(c, es) == [i \in 1..Len(es) |-> EntryDamage(c, es[i])]
Sum(s) == FoldLeft(LAMBDA a, b: a + b, 0, s)
Miner(c, es) == Sum(EntriesDamage(c, es))

\* Sum of 2 * n * S^m: twice the reference cycles times the equivalent stress
\* to the power m.
Weighted(es, m) == Sum([i \in 1..Len(es) |-> es[i][2] * Pow(es[i][1], m)])
Largest(es) == Max({es[i][1] : i \in 1..Len(es)})
CountTotal(es) == Sum([i \in 1..Len(es) |-> es[i][2]])
\* Gassner shift on slope m as a fraction <<p, q>>.
Gassner(es, m) == <<Weighted(es, m), CountTotal(es) * Pow(Largest(es), m)>>
\* Section modulus of a tube over pi/4, as a fraction.
Modulus(ro, ri) == <<Pow(ro, 4) - Pow(ri, 4), ro>>
=============================================================================
