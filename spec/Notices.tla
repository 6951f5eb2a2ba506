------------------------------- MODULE Notices ------------------------------
(***************************************************************************)
(* Reasons for which an operation warns its caller.  An operation warns     *)
(* exactly when there is a reason.                                          *)
(***************************************************************************)
EXTENDS CycleCounts

\* How a factor is written behind the name of a count multiplied by it.
FactorText(f) == CASE f = <<2, 1>> -> "2.0"
                   [] f = <<3, 1>> -> "3.0"
                   [] f = <<1, 2>> -> "0.5"
                   [] f = <<5, 4>> -> "1.25"
RECURSIVE Suffixed(_, _)
Suffixed(name, by) ==
  IF by = <<>> THEN name
  ELSE Suffixed(name \o ", SCF=" \o FactorText(Head(by)), Tail(by))
FullName(a) == Suffixed(a.name, a.by)

If(cond, reason) == IF cond THEN {reason} ELSE {}
SameFactor(a, b) == a.scf * b.den = b.scf * a.den

\* The operation on a count and something that is no count: nothing happens.
AddNothing == {"nothing"}
AddReasons(a, b) ==
  If(FullName(a) # FullName(b), "names")
    \cup If(a.rbw # b.rbw, "range widths")
    \cup If(a.mbw # b.mbw, "mean widths")
    \cup If(~SameFactor(a, b), "factors")
\* A count without any residuals may or may not be worth a warning when added.
AddOpen(a, b) == a.res = <<>> \/ b.res = <<>>
MulReasons(a) == If(a.scf # a.den, "factor")
SolveReasons(a, mode) ==
  If(a.solved, "resolved") \cup If(Len(LffdSeq(a, mode)) < 3, "short")
\* A sequence that only rises or only falls may be worth a warning, too.
SolveOpen(a, mode) == Extrema(LffdSeq(a, mode)) = <<>>
\* Corrections: kind is what it is called, given whether its parameter is given.
Parametric == {"dnv", "walker"}
CorrectReasons(a, kind, given) ==
  IF a.corr # "No" THEN {"corrected"}
  ELSE If(Cardinality(a.times) = 1, "single")
         \cup If(kind \in Parametric /\ ~given, "default")
         \cup (IF a.solved THEN {} ELSE SolveReasons(a, "res"))

\* Nonlinear damage rules: the parameters they need.
RuleNeeds(rule) ==
  CASE rule = "pavlou" -> {"base_exponent", "ultimate_stress"}
    [] rule \in {"manson", "leve"} -> {"base_exponent"}
    [] rule = "si jian" -> {}
RuleReasons(rule, given) == RuleNeeds(rule) \ given

\* Outdated names of the curve's functions.
CallReasons(fun) == If(fun \in {"n", "sigma"}, "outdated")
=============================================================================
