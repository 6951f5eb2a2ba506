------------------------------ MODULE LabelsMC ------------------------------
(***************************************************************************)
(* Curves, how they are called and coloured.  A curve is called by its     *)
(* norm, its curve and its environment, in lines or for HTML; a colour that *)
(* is given stays, the others come from a palette in turn, each curve with  *)
(* a number of its own.                                                     *)
(***************************************************************************)
EXTENDS Labels
CONSTANTS MaxOps, MaxCurves
VARIABLES ops, curves, shown
vars == <<ops, curves, shown>>

Kinds == {"sn", "paris"}
Words == {<<"", "", "">>, <<"X", "B1", "Air">>, <<"", "W 3", "">>}
Colours == {"", "#123456"}

New == /\ Len(curves) < MaxCurves
       /\ \E k \in Kinds, w \in Words, c \in Colours :
            /\ ops' = Append(ops, [op |-> "new", kind |-> k, words |-> w, colour |-> c])
            /\ curves' = Append(curves, [words |-> w, colour |-> c, html |-> FALSE])
Format == \E x \in DOMAIN curves, h \in BOOLEAN :
            /\ ops' = Append(ops, [op |-> "format", curve |-> x, html |-> h])
            /\ curves' = [curves EXCEPT ![x].html = h]
Init == ops = <<>> /\ curves = <<>> /\ shown = <<>>
Next == /\ Len(ops) < MaxOps
        /\ New \/ Format
        /\ shown' = [x \in DOMAIN curves' |->
                       [name |-> Name(curves'[x].words, curves'[x].html),
                        auto |-> curves'[x].colour = ""]]
Spec == Init /\ [][Next]_vars

\* A name is that of the words alone once the curve is asked for that form.
Laws == \A x \in DOMAIN curves :
          /\ shown[x].name = Name(curves[x].words, curves[x].html)
          /\ \A y \in DOMAIN curves :
               curves[x].words = curves[y].words /\ curves[x].html = curves[y].html
                 => shown[x].name = shown[y].name
          /\ \A y \in DOMAIN curves :
               curves[x].html = curves[y].html /\ shown[x].name = shown[y].name
                 => curves[x].words = curves[y].words
=============================================================================
