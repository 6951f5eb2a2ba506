---------------------------- MODULE CrackTiesMC -----------------------------
(* Limits of the curve just below, exactly at and just above the intensity  *)
(* of the first block; the second block has no stress and shows the depth   *)
(* that the first one left.                                                 *)
EXTENDS CrackGrowth
CONSTANTS Stresses, Counts2
VARIABLES s, n, lower, upper, out
vars == <<s, n, lower, upper, out>>
A0 == <<2, 1>>
Sides == {-1, 0, 1}
None == 9
\* The limit on a side of the squared intensity of the first block.
Limit(side) == <<2 * (s * s * A0[1]) + side, 2>>
Curve == [e |-> <<1>>, g |-> <<<<1, 64>>>>, knee |-> <<>>,
          t |-> IF lower = None THEN <<0, 1>> ELSE Limit(lower),
          c |-> IF upper = None THEN NoLimit ELSE Limit(upper)]
Init == /\ s \in Stresses /\ n \in Counts2
        /\ lower \in Sides \cup {None} /\ upper \in Sides \cup {None}
        /\ lower = None \/ upper = None \/ lower < upper
        /\ out = Start(A0)
Next == out = Start(A0) /\ out' = Grow(Curve, A0, << <<s, n>>, <<0, 2>> >>)
        /\ UNCHANGED <<s, n, lower, upper>>
Spec == Init /\ [][Next]_vars
Ties ==
  out # Start(A0) =>
    /\ out.ok
    /\ out.failed <=> upper \in {-1, 0}
    /\ out.depth # <<>> => (out.a = A0 <=> lower = 1)
=============================================================================
