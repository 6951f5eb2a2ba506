----------------------------- MODULE NoticesMC ------------------------------
(***************************************************************************)
(* Histories of operations on counts which differ from each other in one   *)
(* respect at a time, with the reasons each operation has to warn; and the  *)
(* calls of the damage rules and of outdated names with theirs.             *)
(***************************************************************************)
EXTENDS Notices, TLC
CONSTANTS MaxOps, Configs
VARIABLES cfg, pool, hist, said, stop
vars == <<cfg, pool, hist, said, stop>>

M(name, ts, bins) ==
  [rlb |-> bins[1], rbw |-> bins[2], mlb |-> bins[3], mbw |-> bins[4],
   small |-> 0, unit |-> "MPa", ts |-> ts, name |-> name]
B1 == <<4, 8, -200, 16>>
BR == <<4, 16, -200, 16>>      \* other width of ranges
BM == <<4, 8, -200, 40>>       \* other width of means
BL == <<12, 8, -184, 16>>      \* other lower bounds only
B2 == <<8, 16, -400, 32>>      \* twice B1
B3 == <<5, 10, -250, 20>>      \* five quarters of B1

SA == <<0, 16, -8, 24, -16>>
SB == <<8, -32, 16, 0, 8, 40>>
SE == <<8, 16>>                \* two residuals only
D1 == << <<80, 320, 6>>, <<240, -320, 2>>, <<160, 0, 1>> >>

Solved(a) == [a EXCEPT !.solved = TRUE]
Corrected(a) == [a EXCEPT !.corr = "own"]
Pools == <<
  << FromSignal(SA, M("n", 0, B1)), FromSignal(SB, M("n", 1, B1)),
     FromSignal(SB, M("n", 2, BR)), FromSignal(SA, M("n", 3, BM)),
     FromSignal(SA, M("o", 4, B1)), FromSignal(SB, M("n", 5, BL)),
     FromSignal(SA, M("n, SCF=2.0", 6, B2)), FromSignal(SB, M("n, SCF=1.25", 7, B3)) >>,
  << FromSignal(SE, M("e", 0, B1)), FromSignal(SE, M("e", 1, B1)),
     FromSignal(SA, M("e", 2, B1)) >>,
  << Solved(Fresh(D1, <<0, 16, -8, 24>>, M("s", 0, B1))),
     Solved(Fresh(D1, <<8, -8>>, M("s", 1, B1))),
     Corrected(Fresh(D1, <<0, 16, -8, 24>>, M("s", 2, B1))),
     Fresh(D1, <<>>, M("s", 3, B1)) >>,
  << FromSignal(SA, M("d", 0, B1)) >>
>>
\* The last pool stands for the calls which involve no counts.
Calls == Len(Pools)

Init == /\ cfg \in Configs
        /\ pool = Pools[cfg]
        /\ hist = <<>> /\ said = <<>>
        /\ stop = FALSE
Do(op, why, value) ==
  /\ hist' = Append(hist, op)
  /\ said' = Append(said, why)
  /\ pool' = Append(pool, value)
  /\ stop' = FALSE
  /\ UNCHANGED cfg
OrOpen(why, open) == IF why = {} /\ open THEN {"open"} ELSE why
\* After the first operation one must involve the newest count.
Counts ==
  \E i \in 1..Len(pool) :
    LET a == pool[i]
        on == hist = <<>> \/ i = Len(pool)
    IN \/ \E j \in 1..Len(pool) :
            /\ on \/ j = Len(pool)
            /\ ~AddError(a, pool[j])
            /\ Do(<<"add", i, j>>, OrOpen(AddReasons(a, pool[j]), AddOpen(a, pool[j])),
                  Add(a, pool[j]))
       \/ on /\ Do(<<"nothing", i>>, AddNothing, a)
       \/ on /\ Do(<<"from nothing", i>>, {}, a)
       \/ /\ on
          /\ \E f \in {<<2, 1>>, <<1, 2>>, <<5, 4>>} :
               /\ Divisible(a, f)
               /\ Do(<<"mul", i, f[1], f[2]>>, MulReasons(a), Mul(a, f))
       \/ /\ on /\ a.corr # "?"
          /\ \E m \in {"res", "minmax"} :
               Do(<<"solve", i, m>>, OrOpen(SolveReasons(a, m), SolveOpen(a, m)), Solve(a, m))
       \/ /\ on /\ a.corr # "?"
          /\ ~CorrectError(a, FALSE)
          /\ \E kind \in Parametric \cup {"swt"}, given \in BOOLEAN :
               /\ kind \in Parametric \/ ~given
               /\ Do(<<"correct", i, kind, given>>,
                     OrOpen(CorrectReasons(a, kind, given), ~a.solved /\ SolveOpen(a, "res")),
                     IF a.corr # "No" THEN a
                     ELSE [Solve(a, "res") EXCEPT !.corr = "own"])
Others ==
  \/ \E rule \in {"pavlou", "manson", "leve", "si jian"},
        exponent \in BOOLEAN, ultimate \in BOOLEAN :
       Do(<<"rule", rule, exponent, ultimate>>,
          RuleReasons(rule, If(exponent, "base_exponent")
                              \cup If(ultimate, "ultimate_stress")), pool[1])
  \/ \E fun \in {"n", "sigma", "get_cycles", "get_stress"} :
       Do(<<"call", fun>>, CallReasons(fun), pool[1])
Next == /\ Len(hist) < MaxOps
        /\ IF cfg = Calls THEN hist = <<>> /\ Others ELSE Counts
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ invariants
Latest == Len(hist)
New == pool[Len(pool)]
\* Doing a thing twice has a reason the second time.
Twice ==
  hist # <<>> =>
    /\ hist[Latest][1] = "correct" => CorrectReasons(New, "swt", FALSE) # {}
    /\ hist[Latest][1] = "solve" => SolveReasons(New, hist[Latest][3]) # {}
    /\ hist[Latest][1] = "mul" /\ New.scf # New.den => MulReasons(New) # {}
\* An operation on counts that does nothing but give its operand back warns.
Idle ==
  (hist # <<>> /\ hist[Latest][1] \in {"solve", "correct"} /\ New = pool[hist[Latest][2]])
    => said[Latest] # {}
\* Adding a count to a sum made of counts like it has no reason to warn.
Alike ==
  hist # <<>> /\ hist[Latest][1] = "add" /\ said[Latest] = {} =>
    AddReasons(New, pool[hist[Latest][3]]) = {}
=============================================================================
