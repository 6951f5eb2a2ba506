------------------------------- MODULE DictMC -------------------------------
(* All small rainflow dictionaries and what reading them gives.             *)
EXTENDS Binning
CONSTANTS Rows, Larges, Residuals, MaxRows, MaxLg, MaxRes
VARIABLES k, dict, sig, phase, refused, rows
vars == <<k, dict, sig, phase, refused, rows>>

Wrongs == {"none", "unknown", "both"}
ParTable == <<[rlb |-> 4, rbw |-> 2, mlb |-> -8, mbw |-> 6],
              [rlb |-> 0, rbw |-> 6, mlb |-> 3, mbw |-> 20]>>
RowSet == {<<>>, <<0>>, <<2>>, <<0, 3>>, <<1, 0, 2>>, <<0, 0, 1, 5>>}
FewRows == {<<>>, <<0, 3>>, <<1, 0, 2>>, <<7>>}
LgSet == {<<-3, 11>>, <<5, 9>>}
ResSet == {<<2, 13>>, <<-7, 4>>}
Flat(p) == <<0, p[2]>>

Judge(dd) ==
  /\ dict' = dd
  /\ refused' = Refused(dd)
  /\ rows' = IF Refused(dd) THEN <<>> ELSE ReadDict(dd, ParTable[k])
Init ==
  /\ k \in 1..2
  /\ sig \in BOOLEAN
  /\ phase = 1
  /\ dict \in [flat : BOOLEAN, hist : {<<>>}, lg : {<<>>}, res : {<<>>},
               spelling : {"short", "long"}, wrong : Wrongs, nohist : BOOLEAN]
  /\ refused = TRUE
  /\ rows = <<>>
AddRow ==
  /\ phase = 1 /\ ~dict.nohist
  /\ Len(dict.hist) < (IF dict.flat THEN 1 ELSE MaxRows)
  /\ \E r \in Rows : (dict.flat => r # <<>>) /\ Judge([dict EXCEPT !.hist = Append(@, r)])
  /\ UNCHANGED phase
AddLg ==
  /\ phase <= 2 /\ Len(dict.lg) < MaxLg
  /\ \E p \in Larges : Judge([dict EXCEPT !.lg = Append(@, IF dict.flat THEN Flat(p) ELSE p)])
  /\ phase' = 2
AddRes ==
  /\ Len(dict.res) < MaxRes
  /\ \E p \in Residuals : Judge([dict EXCEPT !.res = Append(@, IF dict.flat THEN Flat(p) ELSE p)])
  /\ phase' = 3
Next == (AddRow \/ AddLg \/ AddRes) /\ UNCHANGED <<k, sig>>
Spec == Init /\ [][Next]_vars

\* Nothing is lost and nothing invented.
Literal ==
  ~refused =>
    /\ NrFull(rows) = Len(dict.lg)
         + FoldLeft(LAMBDA n, r: n + FoldLeft(LAMBDA a, b: a + b, 0, r), 0, dict.hist)
    /\ NrHalf(rows) = Len(dict.res)
FlatSame == ~refused => \* forgetting the means changes neither ranges nor counts
  \A i \in 1..Len(rows) : dict.flat => rows[i][2] = 0
=============================================================================
