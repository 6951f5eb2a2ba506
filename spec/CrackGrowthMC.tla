--------------------------- MODULE CrackGrowthMC ----------------------------
(* Load histories grow entry by entry, in both modes.                       *)
EXTENDS CrackGrowth
CONSTANTS Use, Stresses, Counts2, Modes, Initial, MaxLen
VARIABLES k, fast, a0, es, out, done2, ends
vars == <<k, fast, a0, es, out, done2, ends>>
c == Curves[k]
Depths == {<<1, 1>>, <<3, 2>>}
Init == /\ k \in Use /\ fast \in Modes /\ a0 \in Initial
        /\ es = <<>> /\ out = Start(a0) /\ done2 = 0 /\ ends = <<>>
Next == /\ Len(es) < MaxLen
        /\ ~out.failed \/ Len(es) < 2
        /\ \E s \in Stresses, n \in Counts2 :
             LET e2 == Append(es, <<s, n>>)
                 b == Blocks(e2, fast)
                 o == Grow(c, a0, b)
             IN /\ o.ok
                /\ es' = e2 /\ out' = o
                /\ done2' = Done2(o, b)
                /\ ends' = Ends(e2, fast, o)
        /\ UNCHANGED <<k, fast, a0>>
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ invariants
B == Blocks(es, fast)
SameLength == Len(out.depth) = Len(out.sif) /\ Len(out.depth) <= Len(B)
Less(x, y) == x[1] * y[2] < y[1] * x[2]
NeverShrinks == \A i \in 1..(Len(out.depth) - 1) : ~Less(out.depth[i + 1], out.depth[i])
StartsAtInitial == out.depth # <<>> => out.depth[1] = a0
AllCycles == ~out.failed => done2 = Cycles2(es) /\ Len(out.depth) = Len(B)
FailsEarly == out.failed => Len(out.depth) < Len(B)
SplitAddsUp == \A i \in DOMAIN es : Cycles2(Split(es[i], fast)) = es[i][2]
SplitEven == \A i \in DOMAIN es :
  LET p == Split(es[i], fast)
  IN \A j, l \in DOMAIN p : p[j][2] > 1 /\ p[l][2] > 1 => p[j][2] - p[l][2] \in {-2, 0, 2}
\* Growing single cycles is growing the same cycles one entry each.
Unclustered == ~fast => Grow(c, a0, Blocks(B, TRUE)) = out
\* Every stop has its reason, and nothing else stops.
Reason ==
  out.failed =>
    LET b == B[Len(out.depth) + 1]
        x == Square(b[1], out.a)
    IN Above(c, x) \/ (~Below(c, x) /\ LET r == Rate(c, x)
         IN Tenfold(out.a, Sum2(out.a, Red(r[1] * b[2], r[2] * 2))) = 1)
=============================================================================
