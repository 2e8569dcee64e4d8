------------------------------ MODULE IndexTrace ------------------------------
(* Validates the reads one reader of the real index recorded while writers    *)
(* were ingesting.  Writer w ingests Plan[w] in order.  A read carries, per   *)
(* writer, how many ingestions had finished before it began (lo) and how many *)
(* had begun before it ended (hi); some position vector between the two, not  *)
(* before that of the reader's previous read, must explain what was returned. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Trace == ndJsonDeserialize("recs.ndjson")
VARIABLES l, pos
Rng(s) == {s[i] : i \in 1..Len(s)}

NameOf(ls) == IF "__name__" \in DOMAIN ls THEN ls["__name__"] ELSE ""
Dims(ls) == DOMAIN ls \ {"__name__"}
Seen(plan, v) == UNION {{plan[w][k] : k \in 1..v[w]} : w \in 1..Len(plan)}
Answer(e, S) ==
  CASE e.kind = "names" -> {NameOf(s) : s \in S} \ {""}
    [] e.kind = "dims" -> UNION {Dims(s) : s \in {s \in S : NameOf(s) = e.m}}
    [] e.kind = "values" -> {s[e.d] : s \in {s \in S : NameOf(s) = e.m /\ e.d \in Dims(s)}}

\* all vectors between two vectors
Box(a, b) == {v \in [1..Len(a) -> 0..3] : \A w \in 1..Len(a) : a[w] <= v[w] /\ v[w] <= b[w]}
Max2(a, b) == [w \in 1..Len(a) |-> IF a[w] < b[w] THEN b[w] ELSE a[w]]

Plan(i) == LET s == {j \in 1..i : "plan" \in DOMAIN Trace[j]}
           IN Trace[CHOOSE j \in s : \A k \in s : k <= j].plan

VARIABLE plan
Init == l = 0 /\ pos = <<>> /\ plan = <<>>
Start == /\ l < Len(Trace) /\ "plan" \in DOMAIN Trace[l + 1]
         /\ plan' = Trace[l + 1].plan
         /\ pos' = [w \in 1..Len(plan') |-> 0]
         /\ l' = l + 1
Read == /\ l < Len(Trace) /\ "kind" \in DOMAIN Trace[l + 1]
        /\ LET e == Trace[l + 1]
           IN /\ Rng(e.later) = Rng(e.r)       \* what was returned did not change
              /\ Len(e.r) = Cardinality(Rng(e.r))
              /\ \E v \in Box(Max2(pos, e.lo), e.hi) :
                   Rng(e.r) = Answer(e, Seen(plan, v)) /\ pos' = v
        /\ UNCHANGED plan
        /\ l' = l + 1
Next == Start \/ Read
\* how far the trace can be explained
Track == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT(ToJson([reached |-> TLCGet(1), len |-> Len(Trace)]))
=============================================================================
