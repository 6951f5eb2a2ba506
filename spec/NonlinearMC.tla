---------------------------- MODULE NonlinearMC -----------------------------
(* Load sequences grow load by load; only steps with exact exponents are    *)
(* taken.                                                                   *)
EXTENDS NonlinearRules, TLC
CONSTANTS Rules, Levels, Targets, MaxLen
VARIABLES k, loads, d, exps, final
vars == <<k, loads, d, exps, final>>
r == Table[k]
LevelSet == {0, 1, 2, 4}
TargetSet == {-96, -48, -16, 16, 48}

\* What is there already, for loads that add nothing.
Kept == {Nothing} \cup {Raise(loads[j][2], x) : j \in DOMAIN loads,
                        x \in {y \in -4..3 : \A l \in DOMAIN loads : CanRaise(loads[l][2], y)}}
        \cup (IF d = <<>> THEN {} ELSE {d[Len(d)]})
Init == k \in Rules /\ loads = <<>> /\ d = <<>> /\ exps = <<>> /\ final = Nothing
Before == IF d = <<>> THEN Nothing ELSE d[Len(d)]

\* d[i] is the damage after load i; the last entry is not final under manson,
\* pavlou and sijian because the next load decides its exponent.
Add(s, z) ==
  IF r.rule = "leve"
  THEN /\ IF Harmless(r, s) THEN z = Before ELSE z > Before
       /\ z # Nothing => (z * r.p) % r.q = 0
       /\ d' = Append(d, LeveRaise(r, z))
       /\ exps' = Append(exps, <<r.p, r.q>>)
       /\ final' = d'[Len(d')]
  ELSE LET l == Len(loads)
           x == IF l = 0 THEN 0 ELSE Log2Exp(r, loads[l][1], s) \div r.q
           closed == IF l = 0 THEN <<>>
                     ELSE [d EXCEPT ![l] = Raise(loads[l][2], x)]
       IN /\ l > 0 => Exact(r, loads[l][1], s) /\ CanRaise(loads[l][2], x)
          /\ LET now == IF l = 0 THEN Nothing ELSE closed[l]
             IN IF Harmless(r, s) THEN z = now ELSE z > now
          /\ d' = Append(closed, z)
          /\ exps' = Append(IF l = 0 THEN <<>> ELSE [exps EXCEPT ![l] = <<x, 0>>], <<0, 0>>)
          /\ final' = z
Next == /\ Len(loads) < MaxLen
        /\ \E s \in Levels : \E z \in IF Harmless(r, s) THEN Kept ELSE Targets :
             Add(s, z) /\ loads' = Append(loads, <<s, z>>)
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

\* With all exponents one, the result is the sum of all n/N: B^z of the last.
AllOne == /\ loads # <<>>
          /\ \A i \in 1..Len(exps) : exps[i] = IF r.rule = "leve" THEN <<1, 1>> ELSE <<0, 0>>
\* Growing step by step is the same as the whole sequence at once.
Whole == loads # <<>> => d = History(r, loads) /\ final = Final(r, loads)
MinerCase == AllOne => final = loads[Len(loads)][2]
LastFree == loads # <<>> /\ r.rule # "leve" => final = loads[Len(loads)][2]
=============================================================================
