-------------------------------- MODULE Output --------------------------------
(* Rendering a query result (promq/prom/output.go).  Labels, timestamps and    *)
(* values are indices into the driver's tables; reading a rendering back must  *)
(* give the very samples rendered, whatever the format.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NLabels, NTimes, NValues, Walks

Formats == {"json", "yaml", "prometheus"}
BadFormats == {"", "xml", "JSON", "prom"}
Kinds == {"vector", "matrix", "scalar"}

\* a result: [kind, err, series: sequence of [l |-> label set, p |-> sequence of <<t, v>>]]
Outcome(r, f) == IF r.err \/ f \notin Formats THEN [ok |-> FALSE, series |-> <<>>]
                 ELSE [ok |-> TRUE, series |-> r.series]

VARIABLE n
Out(r, f, c) == PrintT(ToJson([r |-> r, f |-> f, c |-> c, exp |-> Outcome(r, f)]))
Single(l, t, v) == << [l |-> l, p |-> << <<t, v>> >>] >>
Pick(k) == RandomElement(1..k)
RandPoints(k) == [i \in 1..k |-> <<Pick(NTimes), Pick(NValues)>>]
RandResult(kind) ==
  [kind |-> kind, err |-> FALSE,
   series |-> CHOOSE s \in {[i \in 1..k |-> [l |-> Pick(NLabels),
                             p |-> CHOOSE q \in {RandPoints(IF kind = "vector" THEN 1 ELSE j) : j \in {Pick(5) - 1}} : TRUE]]
                            : k \in {Pick(5) - 1}} : TRUE]
Init == n = 0
Next == n < NLabels + Walks /\ n' = n + 1
Emit == IF n' <= NLabels
        THEN /\ \A t \in 1..NTimes : \A v \in 1..NValues : \A f \in Formats : \A c \in BOOLEAN :
                  \A k \in {"vector", "matrix"} :
                     Out([kind |-> k, err |-> FALSE, series |-> Single(n', t, v)], f, c)
             /\ n' = 1 =>
                  /\ \A t \in 1..NTimes : \A v \in 1..NValues : \A f \in Formats : \A c \in BOOLEAN :
                       Out([kind |-> "scalar", err |-> FALSE, series |-> Single(1, t, v)], f, c)
                  /\ \A f \in Formats \cup BadFormats : \A c \in BOOLEAN : \A k \in Kinds : \A e \in BOOLEAN :
                       Out([kind |-> k, err |-> e, series |-> IF k = "scalar" THEN Single(1, 1, 1) ELSE <<>>], f, c)
                  /\ \A f \in BadFormats : \A c \in BOOLEAN : \A k \in Kinds : \A e \in BOOLEAN :
                       Out([kind |-> k, err |-> e, series |-> Single(1, 2, 2)], f, c)
                  /\ \A f \in Formats : \A c \in BOOLEAN : \A k \in Kinds :
                       Out([kind |-> k, err |-> TRUE, series |-> Single(1, 2, 2)], f, c)
        ELSE \A k \in {"vector", "matrix"} : \A r \in {RandResult(k)} : \A f \in Formats : \A c \in BOOLEAN : Out(r, f, c)
=============================================================================
