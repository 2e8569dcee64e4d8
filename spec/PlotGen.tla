------------------------------- MODULE PlotGen -------------------------------
(* Random graphs: series of samples <<time, value>>, extents of the axes beyond *)
(* the data, sizes, tick spacings, label lengths, and which transformation the   *)
(* harness applies to the numbers.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Walks, MaxRows, MaxCols, NAff, NScale, MaxPts, Pad   \* Pad: room for labels

Odd == {1000, 1001, 1002}    \* NaN, plus and minus infinity
Clamp(v) == IF v < -20 THEN -20 ELSE IF v > 20 THEN 20 ELSE v
RECURSIVE Pts(_, _, _, _)
\* shapes: 1 anything, 2 walk, 3 flat, 4 rising, 5 falling, 6 spikes
Val(v, shape) == CASE shape = 1 -> RandomElement(-20..20)
                   [] shape = 2 -> Clamp(v + RandomElement(-3..3))
                   [] shape = 3 -> v
                   [] shape = 4 -> Clamp(v + RandomElement(0..5))
                   [] shape = 5 -> Clamp(v - RandomElement(0..5))
                   [] shape = 6 -> IF RandomElement(1..4) = 1 THEN 20 ELSE -1
Pts(t, v, n, shape) ==
  IF n = 0 THEN <<>>
  ELSE \* the odd value does not continue the walk
       LET o == RandomElement(1..14) = 1
           w == Val(v, shape % 10)
       IN  <<<<t, IF o /\ shape > 10 THEN RandomElement(Odd) ELSE w>>>>
           \o Pts(t + (IF shape % 2 = 0 THEN RandomElement(1..3) ELSE RandomElement({1, 1, 2, 5, 12})), w, n - 1, shape)
RandSeries(dummy) == Pts(RandomElement(0..25), RandomElement(-20..20), RandomElement({0, 1, 2, 3, 5, 8, MaxPts}),
                         RandomElement(1..6) + RandomElement({0, 10}))
RandGraph(n) == [i \in 1..n |-> RandSeries(i)]

\* many samples on few columns
Dense(n) == [i \in 1..n |-> Pts(RandomElement(0..25), RandomElement(-20..20), RandomElement({80, 200}), 2 + 10 * RandomElement(0..1))]
\* enough samples and columns for many ticks
Busy(n) == [i \in 1..n |-> Pts(RandomElement(0..25), RandomElement(-20..20), RandomElement({20, 35}), RandomElement(1..4))]

\* graphs beyond the usual sizes: many samples side by side, few on a very wide screen, many series
Long(n) == [i \in 1..n |-> Pts(RandomElement(0..25), RandomElement(-20..20), RandomElement({230, 260}), 2)]
Far(n) == [i \in 1..n |-> Pts(RandomElement(0..25), RandomElement(-20..20), RandomElement(3..5), RandomElement(1..4))]
Many(n) == [i \in 1..n |-> Pts(RandomElement(0..25), RandomElement(-20..20), RandomElement({1, 2, 3}), RandomElement(1..6))]
Bigs == <<"long", "far", "many">>
Big(big, n) == CASE big = "long" -> Long(1) [] big = "far" -> Far(1) [] big = "many" -> Many(135) [] OTHER -> RandGraph(n)
BigRows(big) == CASE big = "long" -> 4 [] big = "far" -> 3 [] OTHER -> 16
BigCols(big) == CASE big = "long" -> RandomElement({130, 260}) [] big = "far" -> RandomElement({300, 600}) [] OTHER -> 45

VARIABLE case
Init == case = <<>>
Next == /\ case = <<>>
        /\ \E i \in 1..Walks : \E n \in {RandomElement({0, 1, 1, 1, 2, 3, 5})} : \E dense \in {i % 40 = 0 /\ n > 0 /\ n < 3} :
             \E busy \in {i % 25 = 1 /\ n > 0 /\ n < 3} :
             \E big \in {IF i % 400 < 3 THEN Bigs[(i % 400) + 1] ELSE ""} :
             case' = [g |-> IF big # "" THEN Big(big, n) ELSE IF dense THEN Dense(n) ELSE IF busy THEN Busy(n) ELSE RandGraph(n),
                      dense |-> dense /\ big = "", busy |-> busy /\ big = "", big |-> big,
                      ext |-> [j \in 1..4 |-> RandomElement({0, 0, 0, 1, 4, 15})],
                      rows |-> IF big # "" THEN BigRows(big) ELSE IF dense THEN RandomElement(1..2) ELSE IF busy THEN RandomElement(12..24) ELSE RandomElement(0..MaxRows) + RandomElement({0, Pad}),
                      cols |-> IF big # "" THEN BigCols(big) ELSE IF dense THEN RandomElement(1..3) ELSE IF busy THEN RandomElement(20..70) ELSE RandomElement(0..MaxCols) + RandomElement({0, Pad}),
                      dd |-> IF busy THEN RandomElement(1..3) ELSE RandomElement({1, 2, 3, 5, 10, 40}), rd |-> RandomElement({1, 2, 3, 5, 10, 40}),
                      \* label lengths: the same padding for all; growing, or shrinking, with the value
                      lbl |-> RandomElement({0, 1, 2, 3, 4, 5, 6, 7}), line |-> RandomElement({1, 1, 1, 2}),
                      aff |-> RandomElement(1..NAff), sc |-> RandomElement(1..NScale),
                      r0 |-> RandomElement(0..3), c0 |-> RandomElement(0..3)]
Emit == PrintT(ToJson(case'))
=============================================================================
