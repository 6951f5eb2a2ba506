------------------------------ MODULE CallsMC -------------------------------
(* Short histories of calls: all single calls in every form, and sequences  *)
(* in which the form goes round with the operations - after every first     *)
(* call or, unless Every holds, after one form of each.  A third call comes *)
(* after two calls on shared objects.                                       *)
EXTENDS Calls
CONSTANTS Own, Numeric, Many, MaxLen, Every
VARIABLES calls
\* Operations 1..Own work on shared objects, the next Numeric ones on numbers.
Ops == 1..(Own + Numeric)
Forms(o) == IF o <= Own THEN 0..0 ELSE 0..(Many - 1)
Call(o, f) == [op |-> o, form |-> f, value |-> Value(o), world |-> 0]
Init == \E o \in Ops : \E f \in Forms(o) : calls = <<Call(o, f)>>
Next == /\ Len(calls) < MaxLen
        /\ Every \/ calls[1].op <= Own \/ calls[1].form = calls[1].op % Many
        /\ Len(calls) = 1 \/ \A k \in 1..Len(calls) : calls[k].op <= Own
        /\ \E o \in Ops :
             calls' = Append(calls, Call(o, IF o <= Own THEN 0
                                            ELSE (calls[Len(calls)].op + o) % Many))
Spec == Init /\ [][Next]_calls
\* The order of the calls makes no difference.
Promise == Functional(calls) /\ Untouched(calls) /\ Agrees(calls)
Commute == \A i, j \in 1..Len(calls) :
  LET swapped == [calls EXCEPT ![i] = calls[j], ![j] = calls[i]]
  IN Functional(swapped) /\ Untouched(swapped) /\ Agrees(swapped)
=============================================================================
