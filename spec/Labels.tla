------------------------------- MODULE Labels -------------------------------
(* What curves are called and the colours they get.                         *)
EXTENDS Integers, Sequences, TLC

\* words = <<norm, curve, environment>>, empty where none is given.
Break(html) == IF html THEN "<br> " ELSE "\n"
Name(words, html) ==
  "Norm: " \o words[1] \o "," \o Break(html) \o "Curve: " \o words[2] \o ","
  \o Break(html) \o "Environment: " \o words[3]

\* Colours that were not given come from a palette of Palette different ones
\* in turn.  cs: <<number, colour>> of the curves in the order of making,
\* number 0 where the colour was given.
Palette == 26
Autos(cs) == SelectSeq(cs, LAMBDA c : c[1] # 0)
Rising(cs) == \A x, y \in DOMAIN Autos(cs) : x < y => Autos(cs)[x][1] < Autos(cs)[y][1]
InTurn(cs) == \A x, y \in DOMAIN Autos(cs) :
                LET a == Autos(cs)[x]
                    b == Autos(cs)[y]
                IN (a[2] = b[2]) <=> (a[1] - b[1]) % Palette = 0
=============================================================================
