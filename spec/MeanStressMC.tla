---------------------------- MODULE MeanStressMC ----------------------------
(* Lists of cycles grow one cycle at a time; so does the list of results.  *)
EXTENDS MeanStress, TLC
CONSTANTS Ranges, MeanMax, MaxDnv, Roots, MaxWalker
VARIABLES kind, cycles, out

vars == <<kind, cycles, out>>
Gammas == {<<1, 2>>, <<1, 3>>, <<2, 3>>, <<1, 4>>, <<3, 4>>,
            <<2, 5>>, <<4, 5>>, <<1, 1>>, <<0, 1>>}
Kinds == {<<"dnv", 3, 5>>, <<"dnv", 4, 5>>} \cup {<<"walker", g[1], g[2]>> : g \in Gammas}
Init == kind \in Kinds /\ cycles = <<>> /\ out = <<>>

AddDnv(c) == /\ kind[1] = "dnv"
             /\ Len(cycles) < MaxDnv
             /\ cycles' = Append(cycles, c)
             /\ out' = Append(out, DnvTenths(c, kind[2]))
             /\ UNCHANGED kind
\* A compressive cycle has a negative maximum.  With the extreme exponents
\* only cycles with positive maximum are settled.
AddWalker(c) == /\ kind[1] = "walker"
                /\ Len(cycles) < MaxWalker
                /\ kind[3] = 1 => c[1] > 0
                /\ cycles' = Append(cycles, c)
                /\ out' = Append(out, Walker(c, <<kind[2], kind[3]>>))
                /\ UNCHANGED kind
Next == \/ \E r \in Ranges : \E m \in (-MeanMax)..MeanMax : AddDnv(<<r, m>>)
        \/ \E u \in (Roots \cup {-x : x \in Roots} \cup {0}) : \E v \in Roots : AddWalker(<<u, v>>)
Spec == Init /\ [][Next]_vars

\* Corrected ranges never exceed the range, never are negative, and follow
\* the quotient formula.
DnvBounds ==
  kind[1] = "dnv" =>
    \A i \in 1..Len(cycles) :
      /\ 0 <= out[i] /\ out[i] <= 10 * cycles[i][1]
      /\ Formula(cycles[i], kind[2])
      /\ out[i] >= 2 * kind[2] * cycles[i][1] \/ (kind[2] = 3 /\ out[i] = 0)
\* More mean stress never gives a smaller corrected range.
DnvMonotone ==
  kind[1] = "dnv" =>
    \A i, j \in 1..Len(cycles) :
      (cycles[i][1] = cycles[j][1] /\ cycles[i][2] <= cycles[j][2]) => out[i] <= out[j]
DnvScales ==
  kind[1] = "dnv" =>
    \A i \in 1..Len(cycles) :
      DnvTenths(<<3 * cycles[i][1], 3 * cycles[i][2]>>, kind[2]) = 3 * out[i]
=============================================================================
