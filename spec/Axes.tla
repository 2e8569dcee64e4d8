-------------------------------- MODULE Axes --------------------------------
(* The axes of successive graphs: each is computed for a set of series from   *)
(* base axes that are automatic, given, or carry over the range of a previous  *)
(* graph.  Timestamps and values are ranks in ascending tables of the harness. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NT, NV,   \* timestamps 1..NT, finite values 1..NV
          Depth

\* a value that is not finite: NaN, plus and minus infinity
Odd == {NV + 1, NV + 2, NV + 3}
None == 0           \* an extent without any point
VARIABLES axes,     \* of the graphs so far, as <<dmin, dmax, rmin, rmax>>
          hist
vars == <<axes, hist>>

Min2(a, b) == IF a = None THEN b ELSE IF b = None THEN a ELSE IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a       \* None is below everything
RECURSIVE MinOf(_)
MinOf(S) == IF S = {} THEN None ELSE CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE MaxOf(_)
MaxOf(S) == IF S = {} THEN None ELSE CHOOSE x \in S : \A y \in S : x >= y

Times(g) == UNION {{g[i][k][1] : k \in DOMAIN g[i]} : i \in DOMAIN g}
Finite(g) == UNION {{g[i][k][2] : k \in DOMAIN g[i]} : i \in DOMAIN g} \ Odd
Auto == <<None, None, None, None>>
AxesOf(g, b) == <<Min2(b[1], MinOf(Times(g))), Max2(b[2], MaxOf(Times(g))),
                  Min2(b[3], MinOf(Finite(g))), Max2(b[4], MaxOf(Finite(g)))>>

\* what a graph may start from: automatic axes, axes given, all of the k-th
\* previous graph, or automatic ones with the range of the k-th
Base(kind, k, given) == CASE kind = "auto" -> Auto
                          [] kind = "given" -> given
                          [] kind = "axes" -> axes[k]
                          [] kind = "range" -> <<None, None, axes[k][3], axes[k][4]>>

Plot(g, kind, k, given) ==
  LET a == AxesOf(g, Base(kind, k, given))
  IN  /\ axes' = Append(axes, a)
      /\ hist' = Append(hist, [g |-> g, kind |-> kind, k |-> k, given |-> given, exp |-> a])

\* random series: ascending timestamps, values with an odd one now and then
RECURSIVE Pts(_, _, _)
Pts(t, n, odd) == IF n = 0 \/ t > NT THEN <<>>
                  ELSE <<<<t, IF RandomElement(1..10) <= odd THEN RandomElement(Odd) ELSE RandomElement(1..NV)>>>>
                       \o Pts(t + RandomElement(1..3), n - 1, odd)
RandSeries(dummy) == Pts(RandomElement(1..NT), RandomElement({0, 1, 1, 2, 3, 6}), RandomElement({0, 0, 3, 10}))
RandGraph(n) == [i \in 1..n |-> RandSeries(i)]

Init == axes = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E n \in {RandomElement({0, 1, 1, 2, 3})} : \E g \in {RandGraph(n)} :
           \E t1 \in {RandomElement(1..NT)} : \E t2 \in {RandomElement(t1..NT)} :
           \E v1 \in {RandomElement(1..NV)} : \E v2 \in {RandomElement(v1..NV)} :
           \E kind \in {IF axes = <<>> THEN RandomElement({"auto", "given"})
                        ELSE <<"auto", "given", "axes", "range", "range", "range">>[RandomElement(1..6)]} :
           \E k \in {IF axes = <<>> THEN 0 ELSE IF RandomElement(1..3) = 1 THEN RandomElement(DOMAIN axes) ELSE Len(axes)} :
             Plot(g, kind, k, <<t1, t2, v1, v2>>)
Emit == IF Len(hist') = Depth THEN PrintT(ToJson(hist')) ELSE TRUE

\* every plottable point lies within the axes of its graph, and a carried over
\* range never shrinks
Covers == \A n \in DOMAIN hist : LET h == hist[n] IN
            /\ \A t \in Times(h.g) : h.exp[1] # None /\ h.exp[1] <= t /\ t <= h.exp[2]
            /\ \A v \in Finite(h.g) : h.exp[3] # None /\ h.exp[3] <= v /\ v <= h.exp[4]
            /\ h.kind = "range" /\ axes[h.k][3] # None => h.exp[3] <= axes[h.k][3] /\ h.exp[4] >= axes[h.k][4]
\* and the axes are not wider than needed
Tight == \A n \in DOMAIN hist : LET h == hist[n] IN
            h.kind = "auto" => /\ h.exp[1] # None => h.exp[1] \in Times(h.g) /\ h.exp[2] \in Times(h.g)
                               /\ h.exp[3] # None => h.exp[3] \in Finite(h.g) /\ h.exp[4] \in Finite(h.g)
=============================================================================
