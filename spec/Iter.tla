-------------------------------- MODULE Iter --------------------------------
(* Reading the samples of one series: Next and Seek.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxTime, MaxSamples, MaxDepth

VARIABLES times,   \* the (ascending) timestamps of the series
          pos,     \* samples consumed or skipped so far; the current one is times[pos]
          hist
Init == /\ times \in {s \in UNION {[1..n -> 0..MaxTime] : n \in 1..MaxSamples} :
                        \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]}
        /\ pos = 0 /\ hist = <<>>

Result == IF pos' <= Len(times) THEN <<pos', times[pos']>> ELSE <<>>
Read == /\ pos' = IF pos <= Len(times) THEN pos + 1 ELSE pos
        /\ hist' = Append(hist, [op |-> "next", r |-> Result])
\* the first remaining sample (the current one included) at or after t
Seek(t) ==
  /\ pos' = LET from == IF pos = 0 THEN 1 ELSE pos
                c == {i \in from..Len(times) : times[i] >= t}
            IN IF c = {} THEN Len(times) + 1
               ELSE CHOOSE i \in c : \A j \in c : i <= j
  /\ hist' = Append(hist, [op |-> "seek", t |-> t, r |-> Result])
Next == /\ Len(hist) < MaxDepth
        /\ UNCHANGED times
        /\ Read \/ \E t \in 0..(MaxTime + 1) : Seek(t)
NeverBack == [][pos' >= pos]_<<times, pos>>
Emit == Len(hist') = MaxDepth => PrintT(ToJson([times |-> times, h |-> hist']))
=============================================================================
