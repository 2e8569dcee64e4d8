------------------------------- MODULE Convert -------------------------------
(* Turning successive query results into series to plot.  Label sets,            *)
(* timestamps and values are indices into tables of the harness; the title of a  *)
(* series is given by its label set, and its identity is some number that the     *)
(* label set determines.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NLabels, NTimes, NValues, Depth
Kinds == <<"matrix", "matrix", "matrix", "matrix", "vector", "scalar", "none", "string">>

VARIABLES shown,   \* the series shown so far, one sequence per result
          hist
vars == <<shown, hist>>

\* what a result becomes: an error, or its series one by one
Convert(r) == IF r.err \/ r.kind # "matrix" THEN [ok |-> FALSE, series |-> <<>>]
              ELSE [ok |-> TRUE, series |-> [i \in DOMAIN r.series |-> [l |-> r.series[i].l, p |-> r.series[i].p]]]

Pts(n) == [i \in 1..n |-> <<RandomElement(1..NTimes), RandomElement(1..NValues)>>]
RandResult(n) == [kind |-> Kinds[RandomElement(1..8)], err |-> RandomElement(1..8) = 1,
                  series |-> [i \in 1..n |-> [l |-> RandomElement(1..NLabels), p |-> Pts(RandomElement({0, 1, 2, 5}))]]]
\* the same series again with other points, in another order
Again(s) == [kind |-> "matrix", err |-> FALSE,
             series |-> [i \in DOMAIN s |-> [l |-> s[Len(s) + 1 - i].l, p |-> Pts(RandomElement(0..4))]]]
Init == shown = <<>> /\ hist = <<>>
Show(r) == /\ shown' = Append(shown, Convert(r).series)
           /\ hist' = Append(hist, [r |-> r, exp |-> Convert(r)])
Next == /\ Len(hist) < Depth
        /\ \E n \in {RandomElement(0..4)} : \E a \in BOOLEAN : \E r \in {IF a /\ hist # <<>> THEN Again(hist[Len(hist)].r.series) ELSE RandResult(n)} : Show(r)
Emit == IF Len(hist') = Depth THEN PrintT(ToJson(hist')) ELSE TRUE

Faithful == \A n \in DOMAIN hist : hist[n].exp.ok =>
              /\ Len(shown[n]) = Len(hist[n].r.series)
              /\ \A i \in DOMAIN shown[n] : shown[n][i].p = hist[n].r.series[i].p
==============================================================================
