------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Requests and what is wrong with them.  A request names what is asked    *)
(* (its family) and the features on which an answer depends.  A request    *)
(* with a fault is refused, every other one is answered, and a refusal      *)
(* leaves everything as it was: later answers do not depend on it.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

If(cond, fault) == IF cond THEN {fault} ELSE {}

\* Words known to the functions that are told by a word what to do.  Case
\* does not matter for the words of Loose.
Modes == {"min-max", "min/max", "min max", "residuals"}
Corrections == {"dnvgl-rp-c203", "walker", "swt", "smith-watson-topper"}
Rules == {"pavlou", "manson", "manson and halford", "manson halford", "manson-halford",
          "leve", "si jian", "si jian et al", "si-jian"}
Pictures == {"min-max", "mean-range", "counts-range", "counts-range-cumsum"}
Orders == {"mountain", "valley"}
Crossings == {"du", "all", "u", "d"}
Known(topic) ==
  CASE topic = "mode" -> Modes
    [] topic = "correction" -> Corrections
    [] topic = "rule" -> Rules
    [] topic = "picture" -> Pictures
    [] topic = "order" -> Orders
    [] topic = "crossing" -> Crossings
Loose == {"mode", "correction", "rule"}
Topics == Loose \cup {"picture", "order", "crossing"}

Columns == {"count_cycle", "mean_stress", "stress_range"}
Analyses == {"miner", "gassner", "growth"}

\* What may be wrong with a request, family by family.
Faults(f, r) ==
  CASE f = "signal" ->      \* <<route, holder, time, missing sample>>
         If(r[2] \notin {"list", "array"}, "holder")
           \cup If(r[3] \notin {"no", "list", "array"}, "time")
           \cup If(r[4] # "no", "missing sample")
    [] f = "word" ->        \* <<topic, word, all in lower case>>
         If(r[2] \notin Known(r[1]) \/ (r[1] \notin Loose /\ ~r[3]), "word")
    [] f = "table" ->       \* <<analysis, columns, analysed before, same unit>>
         If(~(Columns \subseteq r[2]), "columns")
           \cup If(r[3], "done before")
           \cup If(~r[4] /\ r[1] # "gassner", "unit")
    [] f = "pair" ->        \* <<route, number of one, number of the other>>
         If(r[2] # r[3], "lengths")
           \cup If(r[1] \in {"ranges", "means"} /\ (r[2] = 0 \/ r[3] = 0), "nothing")
    [] f = "factor" ->      \* <<what the count is multiplied by, from the left>>
         If(r[1] \notin {"integer", "number"}, "factor")
    [] f = "summand" ->     \* <<what is added to the count, from the left>>
         If(r[1] \notin {"count", "none", "zero", "nan"}, "summand")
    [] f = "curve" ->       \* <<kind, number of slopes, number of intercepts>>
         If(r[2] # r[3], "lengths")
    [] f = "knees" ->       \* <<kind, number of slopes, number of knees given>>
         If(r[3] # r[2] - 1, "knees")
    [] f = "body" ->        \* <<route, body, same unit>>
         If(r[2] \notin {"plate", "outer"}, "body") \cup If(~r[3], "unit")
    [] f = "windows" ->     \* <<holder, index, order>>
         If(r[1] # "table", "holder")
           \cup If(r[2] # "times", "index")
           \cup If(r[3] # "ascending", "order")
    [] f = "curves" ->      \* <<how the curves are handed over>>
         If(r[1] \notin {"curve", "list", "dictionary"}, "curves")
    [] f = "unit" ->        \* <<route, one unit, another unit>>
         If(r[2] # r[3], "unit")
    [] f = "tube" ->        \* <<route, outer radius, inner radius>>
         If(r[2] <= r[3], "tube")
    [] f = "figure" ->      \* <<what is drawn into>>
         If(r[1] \notin {"none", "figure", "axes"}, "figure")
Refused(f, r) == Faults(f, r) # {}

\* ------------------------------------------------- the requests considered
Holders == {"list", "array", "tuple", "text", "none", "number"}
Clocks == {"no", "list", "array", "text", "short", "long", "empty"}
Missing == {"no", "first", "inner", "last"}
Wrong(topic) ==
  CASE topic = "mode" -> {"", "residual", "minmax", "min-max ", "all"}
    [] topic = "correction" -> {"", "dnv", "goodman", "dnvgl", "swt ", "no"}
    [] topic = "rule" -> {"", "miner", "si", "manson-", "leve et al", "pavlou et al"}
    [] topic = "picture" -> {"", "max-min", "mean", "counts"}
    [] topic = "order" -> {"", "hill", "none", "valleys"}
    [] topic = "crossing" -> {"", "x", "ud", "up", "down"}
Sizes == {0, 1, 2, 5}
Families == {"signal", "word", "table", "pair", "factor", "summand", "curve", "knees", "body",
             "windows", "curves", "unit", "tube", "figure"}
All(f) ==
  CASE f = "signal" -> {"rainflow", "count"} \X Holders \X Clocks \X Missing
    [] f = "word" -> UNION {{t} \X (Known(t) \cup Wrong(t)) \X BOOLEAN : t \in Topics}
    [] f = "table" -> Analyses \X (SUBSET Columns) \X BOOLEAN \X BOOLEAN
    [] f = "pair" -> {"damage", "stress", "moment", "pavlou", "leve", "manson", "ranges",
                      "means", "histogram", "picture"} \X Sizes \X Sizes
    [] f = "factor" -> {"integer", "number", "text", "none", "list", "count", "complex",
                        "dictionary"} \X BOOLEAN
    [] f = "summand" -> {"count", "none", "zero", "nan", "one", "text", "list",
                         "dictionary"} \X BOOLEAN
    [] f = "curve" -> {"life", "growth"} \X {1, 2, 3} \X {1, 2, 3}
    [] f = "knees" -> {"cycles", "stress", "rate", "intensity"} \X {1, 2, 3} \X {0, 1, 2, 3}
    [] f = "body" -> {"count", "table"} \X {"plate", "outer", "inner", "full"} \X BOOLEAN
    [] f = "windows" -> {"table", "list", "series"} \X {"times", "numbers", "text"}
                          \X {"ascending", "descending", "repeated"}
    [] f = "curves" -> {"curve", "list", "dictionary", "list with text", "list with nothing"}
                         \X {0}
    [] f = "unit" -> {"damage", "table", "windows", "nonlinear", "sum"}
                       \X {"MPa", "kPa", "ksi", "mPa"} \X {"MPa", "kPa", "ksi", "mPa"}
    [] f = "tube" -> {"arrays", "count", "table"} \X (1..3) \X (0..4)
    [] f = "figure" -> {"none", "figure", "axes", "text", "number"} \X {0}
\* Some are settled neither way: nothing at all as data of a damage, no knees
\* given for a curve without any, data that are no times in no order, texts
\* the case of which cannot differ.
Open(f, r) ==
  \/ f = "pair" /\ r[2] = 0 /\ r[3] = 0 /\ r[1] \notin {"ranges", "means"}
  \/ f = "knees" /\ r[2] = 1 /\ r[3] = 0
  \/ f = "windows" /\ (r[1] # "table" \/ r[2] # "times") /\ r[3] # "ascending"
  \/ f = "table" /\ r[1] = "gassner" /\ ~r[4]
  \/ f = "word" /\ r[2] = "" /\ ~r[3]
Settled(f) == {r \in All(f) : ~Open(f, r)}
=============================================================================
