------------------------------ MODULE CountsMC ------------------------------
(***************************************************************************)
(* Histories of operations on a pool of cycle counts.  Every operation     *)
(* appends its result to the pool or is refused; nothing in the pool ever  *)
(* changes.                                                                *)
(***************************************************************************)
EXTENDS CycleCounts, TLC
CONSTANTS MaxOps, Free, Configs
VARIABLES cfg, pool, hist, stop

vars == <<cfg, pool, hist, stop>>

M(unit, ts, name, small, bins) ==
  [rlb |-> bins[1], rbw |-> bins[2], mlb |-> bins[3], mbw |-> bins[4],
   small |-> small, unit |-> unit, ts |-> ts, name |-> name]
B1 == <<4, 8, -200, 16>>
B2 == <<8, 4, -160, 40>>

\* signals (multiples of 8 so that they can be halved)
SA == <<0, 16, -8, 24, -16>>
SB == <<8, -32, 16, 0, 8, 40>>
SC == <<16, 32, 8, 24, -24, -8, -40>>
SD == <<-16, -32, -24, -48, -8>>         \* never in tension
SE == <<8, 16>>                          \* two residuals only

\* Dictionaries: rows <<10*range, 20*mean, 2*count>>, cells first.
D1 == << <<80, 320, 6>>, <<240, -320, 2>>, <<160, 0, 1>> >>
D2 == << <<400, 800, 2>>, <<160, -480, 1>>, <<240, -400, 1>> >>
Z1 == << <<80, 0, 4>>, <<480, 0, 2>>, <<160, 0, 1>> >>
Z2 == << <<320, 0, 2>>, <<320, 0, 1>> >>
LEG == <<4, 8, -5, 10>>   \* a dictionary without means is read with these

Pools == <<
  << FromSignal(SA, M("MPa", 0, "a", 0, B1)),
     FromSignal(SB, M("MPa", 1, "a", 0, B1)),
     FromSignal(SC, M("MPa", 2, "a", 0, B1)) >>,
  << Fresh(D1, <<0, 16, -8, 24>>, M("ksi", 0, "p", 3, B1)),
     Fresh(D2, <<-32, -16, -40>>, M("ksi", 0, "q", 5, B2)),
     FromSignal(SD, M("ksi", 3, "p", 0, B2)) >>,
  << FromSignal(SB, M("MPa", 0, "a", 0, B1)),
     FromSignal(SB, M("Pa", 1, "a", 0, B1)),
     FromSignal(SA, M("MPa", 2, "b", 0, B2)) >>,
  << Fresh(Z1, <<>>, M("N", 0, "z", 7, LEG)),
     Fresh(Z2, <<16, -16, 24>>, M("N", 1, "z", 0, LEG)),
     FromSignal(SE, M("N", 2, "z", 0, B1)) >>,
  << [Fresh(D2, <<-32, -16, -40>>, M("kPa", 0, "s", 1, B1)) EXCEPT !.solved = TRUE],
     [Fresh(D1, <<16, 0, 8>>, M("kPa", 1, "s", 2, B1)) EXCEPT !.corr = "own"],
     Fresh(D1, <<16, 0, 8>>, M("kPa", 1, "s", 2, B1)) >>
>>

Init == /\ cfg \in Configs
        /\ pool = Pools[cfg]
        /\ hist = <<>>
        /\ stop = FALSE

New(i) == i = Len(pool)
Allowed(i) == Len(hist) < Free \/ New(i)
Do(op, err, value) ==
  /\ hist' = Append(hist, op)
  /\ stop' = err
  /\ pool' = IF err THEN pool ELSE Append(pool, value)
  /\ UNCHANGED cfg

Next ==
  /\ ~stop
  /\ Len(hist) < MaxOps
  /\ \E i \in 1..Len(pool) :
     \/ \E j \in 1..Len(pool) :
          /\ Len(hist) < Free \/ New(i) \/ New(j)
          /\ IF AddError(pool[i], pool[j]) THEN Do(<<"add", i, j>>, TRUE, 0)
             ELSE Do(<<"add", i, j>>, FALSE, Add(pool[i], pool[j]))
     \/ /\ Allowed(i)
        /\ \E f \in {<<2, 1>>, <<3, 1>>, <<1, 2>>} :
             /\ Divisible(pool[i], f)
             /\ Do(<<"mul", i, f[1], f[2]>>, FALSE, Mul(pool[i], f))
     \/ /\ Allowed(i)
        /\ pool[i].corr # "?"
        /\ \E m \in {"res", "minmax"} :
             Do(<<"solve", i, m>>, FALSE, Solve(pool[i], m))
     \/ /\ Allowed(i)
        /\ pool[i].corr # "?"
        /\ \E p \in {3, 4}, e \in BOOLEAN :
             /\ p = 4 \/ ~e
             /\ IF CorrectError(pool[i], e) THEN Do(<<"correct", i, p, e>>, TRUE, 0)
                ELSE Do(<<"correct", i, p, e>>, FALSE, Correct(pool[i], p, e))
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ invariants
\* What must hold for every count, however it was made.
Derived == SubSeq(pool, Len(Pools[cfg]) + 1, Len(pool))
Sane ==
  \A k \in 1..Len(pool) :
    LET a == pool[k]
    IN /\ a.ts = Min(a.times)
       /\ a.unit \in {pool[i].unit : i \in 1..Len(Pools[cfg])}
       /\ \A i \in 1..Len(a.rows) : a.rows[i][3] >= 1 /\ a.rows[i][1] >= 0
       /\ \A x \in ToSet(MinMax(a)) : SeqMin(a.res) <= x \/ a.corr # "No" \/ a.mm # <<>>
\* Scaling commutes with all other operations.
F == <<3, 1>>
ScalingCommutes ==
  LET a == pool[Len(pool)]
      b == pool[1]
      core(x) == [rows |-> x.rows, res |-> x.res, mm |-> MinMax(x), rlb |-> x.rlb,
                  rbw |-> x.rbw, mlb |-> x.mlb, mbw |-> x.mbw]
  IN /\ ~AddError(b, a) => core(Add(Mul(b, F), Mul(a, F))) = core(Mul(Add(b, a), F))
     /\ a.corr = "No" =>
          \A m \in {"res", "minmax"} : core(Solve(Mul(a, F), m)) = core(Mul(Solve(a, m), F))
     /\ [Mul(Mul(a, <<2, 1>>), F) EXCEPT !.by = <<>>] = [Mul(a, <<6, 1>>) EXCEPT !.by = <<>>]
     /\ a.corr = "No" => core(Correct(Mul(a, F), 4, TRUE)) = core(Mul(Correct(a, 4, TRUE), F))
\* Adding is associative wherever it is allowed.
AddAssociates ==
  Len(pool) >= 3 =>
    \A i \in 1..3 : \A j \in 1..3 : \A k \in {Len(pool)} :
      LET a == pool[i]  b == pool[j]  c == pool[k]
      IN (~AddError(a, b) /\ ~AddError(b, c)) =>
           LET l == Add(Add(a, b), c)  r == Add(a, Add(b, c))
           IN \/ [l EXCEPT !.scf = 0, !.den = 0] = [r EXCEPT !.scf = 0, !.den = 0]
              \/ MinMax(a) = <<>> \/ MinMax(b) = <<>> \/ MinMax(c) = <<>>
\* Recovery and correction are idempotent and keep everything but the cycles.
Bookkeeping(x) == <<x.unit, x.ts, x.times, x.small, x.scf, x.den, x.name, x.by,
                    x.rlb, x.rbw, x.mlb, x.mbw>>
Idempotent ==
  LET a == pool[Len(pool)] IN
    /\ \A m \in {"res", "minmax"} :
         /\ Solve(Solve(a, m), m) = Solve(a, m)
         /\ Bookkeeping(Solve(a, m)) = Bookkeeping(a)
    /\ a.corr = "No" =>
         LET c == Correct(a, 4, TRUE)
         IN Correct(c, 3, TRUE) = c /\ Bookkeeping(c) = Bookkeeping(a)
\* Nothing in the pool is ever changed.
Immutable == [][SubSeq(pool', 1, Len(pool)) = pool]_vars
=============================================================================
