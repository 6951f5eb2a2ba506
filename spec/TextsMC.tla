------------------------------- MODULE TextsMC ------------------------------
(* Counts are added to, scaled, resolved and shown; every showing tells     *)
(* about the count as it is then, and changes nothing.                      *)
EXTENDS Texts
CONSTANTS Minutes, Units, Lens, Names, Depth
VARIABLES ts, unit, name, hist, shown
vars == <<ts, unit, name, hist, shown>>
Nothing == [what |-> "nothing", words |-> <<>>]

Init == /\ ts \in {{t} : t \in Minutes}
        /\ unit \in Units /\ name \in Names
        /\ hist = <<>> /\ shown = Nothing
Can == Len(hist) < Depth
Add(t) == /\ Can /\ t >= Final(ts)
          /\ ts' = ts \cup {t}
          /\ hist' = Append(hist, <<"add", t>>) /\ shown' = Nothing
Same(op) == /\ Can
            /\ hist' = Append(hist, <<op, 0>>) /\ shown' = Nothing
            /\ UNCHANGED ts
Text == /\ Can /\ hist' = Append(hist, <<"text", 0>>)
        /\ shown' = [what |-> "text", words |-> CountText(name, ts)]
        /\ UNCHANGED ts
Plot(p, l) == /\ Can /\ hist' = Append(hist, <<p, 0>>)
              /\ shown' = [what |-> p, words |-> Axes(p, unit, l), len |-> l]
              /\ UNCHANGED ts
Next == /\ \/ \E t \in Minutes : Add(t)
           \/ \E op \in {"solve", "correct"} : Same(op)
           \/ Text
           \/ \E p \in Plots \ {"paris"} : Plot(p, "")
           \/ \E l \in Lens : Plot("paris", l)
        /\ UNCHANGED <<unit, name>>
Spec == Init /\ [][Next]_vars

\* A later minute never reads like an earlier one, and every day is a day of
\* its month.
Readable == \A t, u \in ts : t # u => Stamp(t) # Stamp(u)
Calendar == \A t \in ts : LET d == Date(t \div 1440, 2020, 1)
                          IN d[3] \in 1..Days(d[1], d[2]) /\ d[2] \in 1..12
\* The text of a count says nothing about how it came about.
Stateless == shown.what = "text" => shown.words = CountText(name, ts)
\* Every plot names the unit on each axis that shows stresses.
Named == shown.what \in Plots \ {"paris"} => unit \in {w[Len(w)] : w \in
           {shown.words[1], shown.words[2]}}
=============================================================================
