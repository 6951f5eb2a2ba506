----------------------------- MODULE HelpersMC ------------------------------
(***************************************************************************)
(* Calls of the helpers with all small arguments and what they give.        *)
(***************************************************************************)
EXTENDS Helpers
CONSTANTS Steps, Durations, Starts, MaxWhat, MaxBy, MaxLen, Numbers
VARIABLES call, result
vars == <<call, result>>

MinusOne == -1
Signed(S) == S \cup {MinusOne}
Releases == {"", "alpha", "rc", "dev-1"}
Versions == {[nums |-> <<a, b, c>>, release |-> r, num |-> n] :
               a \in Numbers, b \in Numbers, c \in Numbers, r \in Releases, n \in Numbers}
Upto(n) == [k \in 1..n |-> k]

Init == call = [op |-> "none"] /\ result = <<>>
Sample == \E s \in Signed(Steps), d \in Signed(Durations), t \in Signed(Starts) :
            /\ call' = [op |-> "times", step |-> s, duration |-> d, start |-> t]
            /\ result' = SampledTimes(s, d, t)
Divide == \E n \in 0..MaxWhat, k \in 1..MaxBy :
            /\ call' = [op |-> "share", what |-> n, by |-> k]
            /\ result' = Share(n, k)
Chunk == \E l \in 0..MaxLen, n \in 1..MaxLen + 1 :
            /\ call' = [op |-> "chunks", len |-> l, by |-> n]
            /\ result' = Chunks(Upto(l), n)
Parse == \E v \in Versions :
            /\ v.release = "" => v.num = 0
            /\ call' = [op |-> "version", text |-> VersionText(v)]
            /\ result' = v
Next == call.op = "none" /\ (Sample \/ Divide \/ Chunk \/ Parse)
Spec == Init /\ [][Next]_vars

Laws ==
  /\ call.op = "times" /\ ~result.refused =>
       LET ts == result.times
       IN /\ ts # <<>> /\ ts[1] = call.start
          /\ ts[Len(ts)] < call.start + call.duration
          /\ ts[Len(ts)] + call.step >= call.start + call.duration
  /\ call.op = "share" =>
       /\ Total(result) = call.what /\ Len(result) = call.by
       /\ \A x, y \in DOMAIN result : x < y => result[x] - result[y] \in {0, 1}
  /\ call.op = "chunks" =>
       /\ Joined(result) = Upto(call.len)
       /\ \A x \in DOMAIN result : /\ Len(result[x]) \in 1..call.by
                                   /\ x < Len(result) => Len(result[x]) = call.by
=============================================================================
