----------------------------- MODULE GeometryMC -----------------------------
(***************************************************************************)
(* Shapes of the reference table under changes of size and stress, and      *)
(* bodies under single changes of their sizes.                              *)
(***************************************************************************)
EXTENDS Geometry, TLC
CONSTANTS MaxScale, MaxStress, MaxChanges
VARIABLES kind, row, size, stress, body, n, factor, square, ok
vars == <<kind, row, size, stress, body, n, factor, square, ok>>

NoBody == [depth |-> 0]
Hollow0 == [depth |-> 2, diameter |-> 12, thickness |-> 4, height |-> 3, ratio |-> 2,
            where |-> "external"]
Values == [depth |-> {-1, 0, 1, 2, 3, 4, 5, NotNumber},
           diameter |-> {-1, 0, 3, 8, 9, 12, NotNumber},
           thickness |-> {-1, 0, 1, 2, 3, 4, 5, 6, NotNumber},
           height |-> {-1, 0, 3, NotNumber}, ratio |-> {-1, 0, 1, 2, NotNumber}, where |-> {"external", "internal", "External", ""}]
Accepted(k, b) == IF k = "hollow" THEN Hollow(b)
                  ELSE IF k = "solid" THEN Solid(b) ELSE Surface(b)

\* The squared intensity over that of unit stress and unit outer radius / 1000.
Square(s, j, d) == s * s * j * d

Init ==
  \/ /\ kind = "factor"
     /\ row \in DOMAIN Table
     /\ size = 1 /\ stress = 1 /\ body = NoBody /\ n = 0
     /\ factor = Table[row][4] /\ square = Square(1, 1, Table[row][1]) /\ ok = "yes"
  \/ /\ kind \in {"hollow", "solid", "surface"}
     /\ row = 0 /\ size = 0 /\ stress = 0 /\ body = Hollow0 /\ n = 0
     /\ factor = 0 /\ square = 0 /\ ok = "yes"
Larger == /\ kind = "factor" /\ size < MaxScale /\ size' = size + 1
          /\ UNCHANGED <<kind, row, stress, body, n, factor, ok>>
          /\ square' = Square(stress, size', Table[row][1])
Stronger == /\ kind = "factor" /\ stress < MaxStress /\ stress' = stress + 1
            /\ UNCHANGED <<kind, row, size, body, n, factor, ok>>
            /\ square' = Square(stress', size, Table[row][1])
Change == /\ kind # "factor" /\ n < MaxChanges /\ n' = n + 1
          /\ \E f \in DOMAIN body : \E v \in Values[f] :
               body[f] # v /\ body' = [body EXCEPT ![f] = v]
          /\ ok' = Accepted(kind, body')
          /\ UNCHANGED <<kind, row, size, stress, factor, square>>
Next == Larger \/ Stronger \/ Change
Spec == Init /\ [][Next]_vars

Near(a, b, e) == a - b <= e /\ b - a <= e
\* The reference table agrees with the integration of the section.
TableHolds == kind = "factor" /\ size = 1 /\ stress = 1 =>
  LET t == Table[row]
  IN /\ Regular(t[1], t[3])
     /\ Near(Factor(t[1], t[2], t[3]), Round(t[4], 100), 12)
\* Deeper cracks of one shape weaken more, and less in thicker walls.
Monotone == kind = "factor" =>
  /\ Table[row][4] > 800000
  /\ \A i \in DOMAIN Table :
       LET t == Table[row]
           u == Table[i]
       IN /\ u[2] = t[2] /\ u[3] = t[3] /\ u[1] > t[1] => u[4] > t[4]
          /\ u[1] = t[1] /\ u[3] = t[3] /\ u[2] > t[2] => u[4] < t[4]
Refused == kind # "factor" /\ ok = "no" =>
  \/ \E f \in DOMAIN body : f # "where" /\ ~Positive(body[f])
  \/ kind = "hollow" /\ (body.where \notin {"internal", "external"}
                         \/ 2 * body.thickness >= body.diameter
                         \/ body.depth >= body.thickness)
\* Larger sizes are refused only by what they are compared with.
Enlarged == kind = "hollow" /\ ok = "yes" =>
  \A f \in {"diameter", "height", "ratio"} : Hollow([body EXCEPT ![f] = @ + 1]) = "yes"
=============================================================================
