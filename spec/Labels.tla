------------------------------- MODULE Labels -------------------------------
(* Label sets and label matchers.  A label set is a function from label names *)
(* to non-empty values; a label it does not have counts as the empty value.   *)
(* Regular expressions are given by the values (of the universe used by the   *)
(* checks) that they match as a whole.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Value(ls, n) == IF n \in DOMAIN ls THEN ls[n] ELSE ""

\* every label value used anywhere, and the empty value of absent labels
Vals == {"", "x", "y", "xx", "xy", "yx", "m", "mm", "n", "metric", "value", "l6CQ5y", "v7uDlF"}

\* pattern :> values of Vals matched completely
ReTable ==
     (".*" :> Vals)
  @@ (".+" :> Vals \ {""})
  @@ ("" :> {""})
  @@ ("x" :> {"x"})
  @@ ("x.*" :> {"x", "xx", "xy"})
  @@ (".*x" :> {"x", "xx", "yx"})
  @@ (".*x.*" :> {"x", "xx", "xy", "yx"})
  @@ ("x?" :> {"", "x"})
  @@ ("x|y" :> {"x", "y"})
  @@ ("y|" :> {"", "y"})
  @@ ("xx|x" :> {"x", "xx"})
  @@ ("m.*" :> {"m", "mm", "metric"})
  @@ ("m|n" :> {"m", "n"})
  @@ ("(m|me).+" :> {"mm", "metric"})
  @@ ("[^x]" :> {"y", "m", "n"})
  @@ ("z" :> {})

Patterns == DOMAIN ReTable

\* a matcher: [n: label name, t: "=", "!=", "=~" or "!~", v: value or pattern]
MatchesVal(m, v) ==
  CASE m.t = "="  -> v = m.v
    [] m.t = "!=" -> v # m.v
    [] m.t = "=~" -> v \in ReTable[m.v]
    [] m.t = "!~" -> v \notin ReTable[m.v]

Accepts(ls, m) == MatchesVal(m, Value(ls, m.n))

AcceptsAll(ls, ms) == \A i \in 1..Len(ms) : Accepts(ls, ms[i])

M(n, t, v) == [n |-> n, t |-> t, v |-> v]
=============================================================================
