-------------------------------- MODULE Texts -------------------------------
(* What the texts of objects and the axes of plots tell: the words that     *)
(* have to appear, in this order.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ------------------------------------------------------------- calendar
\* Times are minutes since the first of January 2020.
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28
              ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE Date(_, _, _)
Date(d, y, m) == IF d < Days(y, m) THEN <<y, m, d + 1>>
                 ELSE IF m = 12 THEN Date(d - 31, y + 1, 1)
                 ELSE Date(d - Days(y, m), y, m + 1)
Month == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun",
           "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Stamp(t) ==
  LET d == Date(t \div 1440, 2020, 1)
  IN Two(d[3]) \o " " \o Month[d[2]] \o " " \o ToString(d[1]) \o ", "
     \o Two((t % 1440) \div 60) \o ":" \o Two(t % 60)

\* ---------------------------------------------------------------- texts
First(ts) == CHOOSE t \in ts : \A u \in ts : t <= u
Final(ts) == CHOOSE t \in ts : \A u \in ts : t >= u
\* A count tells its name and its time, or its first and its last time.
CountText(name, ts) ==
  IF Cardinality(ts) = 1 THEN <<name, Stamp(First(ts))>>
  ELSE <<name, Stamp(First(ts)), Stamp(Final(ts))>>
\* Nothing else in it looks like a time: "20" starts every year.
Stamps(ts) == IF Cardinality(ts) = 1 THEN 1 ELSE 2
\* The picture of a crack growth curve gives both limits in its own unit.
Limits(unit) == <<"Slope", "Threshold:", unit, "Critical:", unit>>
Outcome(failed) == IF failed THEN "to failure" ELSE "no failure"

\* ----------------------------------------------------------------- axes
\* <<words of the horizontal axis, words of the vertical axis>>.
Axes(plot, unit, len) ==
  CASE plot = "min-max" -> <<<<"min", unit>>, <<"max", unit>>>>
    [] plot = "mean-range" -> <<<<"mean", unit>>, <<"range", unit>>>>
    [] plot \in {"counts-range", "counts-range-cumsum", "counts-range-2D"} ->
         <<<<"cycles">>, <<"range", unit>>>>
    [] plot \in {"damage", "sn"} -> <<<<"cycles">>, <<"range", unit>>>>
    [] plot = "paris" -> <<<<"sif", unit \o " sqrt " \o len>>,
                           <<"growth rate", len \o "/cycle">>>>
Plots == {"min-max", "mean-range", "counts-range", "counts-range-cumsum",
          "counts-range-2D", "damage", "sn", "paris"}

\* ------------------------------------------------------------- judgement
\* The words appear in the text one behind the other.
RECURSIVE InOrder(_, _)
InOrder(s, ws) ==
  IF ws = <<>> THEN TRUE
  ELSE LET w == ws[1]
           ks == {k \in 1..(Len(s) - Len(w) + 1) : SubSeq(s, k, k + Len(w) - 1) = w}
       IN /\ ks # {}
          /\ LET k == First(ks) IN InOrder(SubSeq(s, k + Len(w), Len(s)), Tail(ws))
EndsWith(s, w) == Len(s) >= Len(w) /\ SubSeq(s, Len(s) - Len(w) + 1, Len(s)) = w
=============================================================================
