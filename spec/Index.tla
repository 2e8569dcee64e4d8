-------------------------------- MODULE Index --------------------------------
(* The completion index of promq/prom (indexer): metric names, the label      *)
(* names seen with each metric and the values seen for each of those.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Json

CONSTANTS MaxDepth, Sim

LS == << [__name__ |-> "m", a |-> "x"],
         [__name__ |-> "m", a |-> "y"],
         [__name__ |-> "m", b |-> "x"],
         [__name__ |-> "m", a |-> "x", b |-> "y"],
         [__name__ |-> "n", a |-> "z"],
         [__name__ |-> "n"],
         [__name__ |-> "o", a |-> "x", b |-> "x", le |-> "1"],
         [a |-> "q"],
         [__name__ |-> "m"],
         [__name__ |-> "a", m |-> "n"],
         [__name__ |-> "n", a |-> "m", m |-> "a"],
         <<>> >>

NameOf(ls) == IF "__name__" \in DOMAIN ls THEN ls["__name__"] ELSE ""
Dims(ls) == DOMAIN ls \ {"__name__"}

\* what the index answers, as a function of the set of ingested label sets
Names(S) == {NameOf(s) : s \in S} \ {""}
Of(S, m) == {s \in S : m # "" /\ NameOf(s) = m}   \* nameless series count for nothing
DimsOf(S, m) == UNION {Dims(s) : s \in Of(S, m)}
ValuesOf(S, m, d) == {s[d] : s \in {s \in Of(S, m) : d \in Dims(s)}}

AllNames == {"m", "n", "o", "a", "", "unknown", "x"}
AllDims == {"a", "b", "le", "m", "__name__", "unknown"}

VARIABLES seen, hist
Init == seen = {} /\ hist = <<>>

Obs(S) == [names |-> Names(S),
           dims |-> {<<m, DimsOf(S, m)>> : m \in AllNames},
           values |-> {<<m, d, ValuesOf(S, m, d)>> : m \in AllNames, d \in AllDims}]
Log(e) == hist' = Append(hist, [e EXCEPT !.obs = IF Sim THEN Obs(seen') ELSE <<>>])

Ingest(i) == /\ seen' = seen \cup {LS[i]}
             /\ Log([op |-> "ingest", i |-> i, obs |-> <<>>])
\* a client changes a collection it was given
Scribble(k) == /\ UNCHANGED seen
               /\ Log([op |-> "scribble", i |-> k, obs |-> <<>>])

Next == /\ Len(hist) < MaxDepth
        /\ IF Sim
           THEN \E r \in {RandomElement(1..(Len(LS) + 3))} :
                   IF r <= Len(LS) THEN Ingest(r) ELSE Scribble(r - Len(LS))
           ELSE \/ \E i \in 1..Len(LS) : Ingest(i)
                \/ \E k \in 1..3 : Scribble(k)

\* nothing of one metric under another, nothing of nameless series
Sound == \A m \in AllNames : \A d \in AllDims : \A v \in ValuesOf(seen, m, d) :
           \E s \in seen : NameOf(s) = m /\ m # "" /\ d # "__name__" /\ d \in DOMAIN s /\ s[d] = v
Complete == \A s \in seen : NameOf(s) # "" =>
              /\ NameOf(s) \in Names(seen)
              /\ \A d \in Dims(s) : d \in DimsOf(seen, NameOf(s)) /\ s[d] \in ValuesOf(seen, NameOf(s), d)
Grows == [][Names(seen) \subseteq Names(seen')]_<<seen, hist>>

Emit == IF Sim THEN (Len(hist') = MaxDepth => PrintT(ToJson([h |-> hist'])))
        ELSE PrintT(ToJson([h |-> hist', obs |-> Obs(seen')]))
ASSUME PrintT(ToJson([meta |-> [ls |-> LS]]))
=============================================================================
