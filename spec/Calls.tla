-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Calls on shared objects.  Every operation o has Forms[o] ways of passing *)
(* the same numbers.  A call has a value, and may find or leave the world   *)
(* (all shared objects and its own arguments) in some condition.  What the  *)
(* library promises: the value is a function of the operation alone, and    *)
(* the world stays in condition 0.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
\* A call: [op |-> , form |-> , value |-> , world |-> ].
Value(o) == o
Functional(calls) ==
  \A i, j \in 1..Len(calls) : calls[i].op = calls[j].op => calls[i].value = calls[j].value
Untouched(calls) == \A i \in 1..Len(calls) : calls[i].world = 0
Agrees(calls) == \A i \in 1..Len(calls) : calls[i].value = Value(calls[i].op)
=============================================================================
