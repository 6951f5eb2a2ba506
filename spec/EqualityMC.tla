----------------------------- MODULE EqualityMC -----------------------------
(***************************************************************************)
(* Two objects of one kind, equal at first, and single changes of what they *)
(* hold.  They are equal exactly when they hold the same, whatever was      *)
(* changed and changed back on the way.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxChanges
VARIABLES kind, a, b, n, equal
vars == <<kind, a, b, n, equal>>

\* The number of fields of each kind and of values of each field, 0 the
\* value that both have at first.
Fields == [count |-> 14, sn |-> 8, paris |-> 9, cylinder |-> 5]
Values == 0..3
Zero(k) == [f \in 1..Fields[k] |-> 0]

Equal(x, y) == \A f \in DOMAIN x : x[f] = y[f]
Differ(x, y) == {f \in DOMAIN x : x[f] # y[f]}

Init == /\ kind \in DOMAIN Fields
        /\ a = Zero(kind) /\ b = Zero(kind) /\ n = 0 /\ equal = TRUE
Next == /\ n < MaxChanges
        /\ n' = n + 1
        /\ \E f \in DOMAIN a, v \in Values :
             \/ a[f] # v /\ a' = [a EXCEPT ![f] = v] /\ b' = b
             \/ b[f] # v /\ b' = [b EXCEPT ![f] = v] /\ a' = a
        /\ equal' = Equal(a', b')
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

\* Equality is an equivalence, and undone by exactly one more change.
Laws == /\ Equal(a, a) /\ (equal <=> Equal(b, a)) /\ (equal <=> a = b)
        /\ Equal(a, Zero(kind)) /\ Equal(Zero(kind), b) => equal
        /\ Cardinality(Differ(a, b)) <= n
=============================================================================
