----------------------------- MODULE MeanStress -----------------------------
(***************************************************************************)
(* Mean stress corrections of single cycles in exact arithmetic.           *)
(*                                                                         *)
(* DNV: a cycle is <<range, 2 * mean>>; corrected ranges are in tenths.    *)
(* Walker with exponent a/b: a cycle is given by its maximum and amplitude *)
(* as signed b-th powers, <<u, v>> with maximum sgn(u) * |u|^b and         *)
(* amplitude v^b, which makes the corrected range the integer              *)
(* u^(b-a) * v^a.  Smith-Watson-Topper is a/b = 1/2.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* p is five times the detail factor: 4 (welded) or 3 (base material)
DnvTenths(c, p) ==
  LET top == c[2] + c[1]      \* 2 * maximum
      bot == c[2] - c[1]      \* 2 * minimum
  IN IF bot > 0 THEN 10 * c[1]
     ELSE IF top < 0 THEN (IF p = 4 THEN 8 * c[1] ELSE 0)
     ELSE 5 * top + p * (-bot)
\* A base material cycle touching zero from below may be seen as fully
\* compressive or as the limit of partly compressive cycles.
DnvUnsettled(c, p) == p = 3 /\ c[2] + c[1] = 0

\* The formula as it is usually written, cross-multiplied: for the cycles it
\* applies to, corrected * (max + |min|) = range * (max + p * |min|).
Formula(c, p) ==
  LET top == c[2] + c[1]
      bot == c[2] - c[1]
      mag == IF bot < 0 THEN -bot ELSE bot
  IN (bot <= 0 /\ top >= 0) => DnvTenths(c, p) * (top + mag) = c[1] * (10 * top + 2 * p * mag)

RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Walker(c, g) == IF c[1] < 0 THEN 0 ELSE Pow(c[1], g[2] - g[1]) * Pow(c[2], g[1])
=============================================================================
