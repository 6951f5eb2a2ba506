------------------------------ MODULE Helpers -------------------------------
(* Sampled times, random signals, fair shares, chunks and version texts.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Times in ticks: from start on, one step apart, before start + duration.
Refused(step, duration, start) == start < 0 \/ duration < 0 \/ step <= 0 \/ duration < step
NTimes(step, duration) == (duration + step - 1) \div step
Times(step, duration, start) == [k \in 1..NTimes(step, duration) |-> start + (k - 1) * step]
\* A duration of some steps and a part of one is warned about.
Warned(step, duration) == duration % step # 0
SampledTimes(step, duration, start) ==
  IF Refused(step, duration, start) THEN [refused |-> TRUE, warned |-> FALSE, times |-> <<>>]
  ELSE [refused |-> FALSE, warned |-> Warned(step, duration),
        times |-> Times(step, duration, start)]

\* n things in k shares: as equal as can be, the larger ones first.
Share(n, k) == [x \in 1..k |-> (n \div k) + (IF x <= n % k THEN 1 ELSE 0)]
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))

\* A sequence in pieces of n, the last one with what is left.
RECURSIVE Chunks(_, _)
Chunks(s, n) == IF s = <<>> THEN <<>>
                ELSE IF Len(s) <= n THEN <<s>>
                ELSE <<SubSeq(s, 1, n)>> \o Chunks(SubSeq(s, n + 1, Len(s)), n)
RECURSIVE Joined(_)
Joined(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Joined(Tail(ss))

\* A version <<major, minor, patch>> with or without <<release, number>>.
VersionText(v) == ToString(v.nums[1]) \o "." \o ToString(v.nums[2]) \o "." \o ToString(v.nums[3])
                  \o (IF v.release = "" THEN "" ELSE "-" \o v.release \o "." \o ToString(v.num))
=============================================================================
