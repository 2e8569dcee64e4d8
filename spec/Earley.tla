------------------------------- MODULE Earley -------------------------------
(* The PromQL grammar that completion supports, and what may come next.

   The grammar is context free; Chart(k) is the usual set of Earley items: an
   item <<rule, dot, origin>> belongs to the set of position k iff the part of
   the rule before the dot derives the tokens origin+1..k and the rule itself
   is reachable at origin.  A terminal is allowed next iff some item has its dot
   in front of it: that is exactly "some derivation of the grammar allows it
   there", because every non-terminal of the grammar derives something.

   Each behaviour is one query prefix, token by token; every prefix that some
   query can start with is reachable.  Context: the metric named last and the
   label named last, which decide what labels and values are offered.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxTok,      \* length of the longest prefix
          NPartials    \* partial words tried per prefix

(* ------------------------------------------------------------- grammar *)
Rule(l, r) == [l |-> l, r |-> r]
G == <<
  Rule("root", <<"expr", "EOF">>),
  Rule("expr", <<"scalar">>), Rule("expr", <<"vector">>), Rule("expr", <<"matrix">>), Rule("expr", <<"unary">>),
  Rule("scalar", <<"sbin">>), Rule("scalar", <<"NUM">>), Rule("scalar", <<"sfunc">>),
  Rule("vector", <<"vsel">>), Rule("vector", <<"vbin">>), Rule("vector", <<"vfunc">>), Rule("vector", <<"aggr">>),
  Rule("matrix", <<"msel">>), Rule("matrix", <<"subq">>),
  \* selectors
  Rule("vsel", <<"METRIC">>), Rule("vsel", <<"METRIC", "match">>),
  Rule("vsel", <<"METRIC", "offs">>), Rule("vsel", <<"METRIC", "match", "offs">>),
  Rule("msel", <<"METRIC", "[", "DUR", "]">>), Rule("msel", <<"METRIC", "match", "[", "DUR", "]">>),
  Rule("msel", <<"METRIC", "[", "DUR", "]", "offs">>), Rule("msel", <<"METRIC", "match", "[", "DUR", "]", "offs">>),
  Rule("offs", <<"OFFSET", "DUR">>),
  \* aggregations
  Rule("aggr", <<"AGGR", "acall">>), Rule("aggr", <<"AGGR", "acall", "AGGRKW", "labels">>),
  Rule("aggr", <<"AGGR", "AGGRKW", "labels", "acall">>),
  Rule("acall", <<"(", "vector", ")">>),
  \* label lists and matchers
  Rule("labels", <<"(", "llist", ")">>), Rule("labels", <<"(", ")">>), Rule("labels", <<"(", "llist", ",", ")">>),
  Rule("llist", <<"llist", ",", "LABEL">>), Rule("llist", <<"LABEL">>),
  Rule("match", <<"{", "mlist", "}">>),
  Rule("mlist", <<"LABEL", "LMATCH", "STR">>), Rule("mlist", <<"mlist", ",", "LABEL", "LMATCH", "STR">>),
  \* binary expressions
  Rule("binop", <<"ARITH">>), Rule("binop", <<"CMP">>), Rule("binop", <<"CMP", "BOOL">>),
  Rule("group", <<"GKW", "labels">>), Rule("group", <<"GKW", "labels", "GSIDE">>),
  Rule("group", <<"GKW", "labels", "GSIDE", "labels">>),
  Rule("sbin", <<"scalar", "ARITH", "scalar">>), Rule("sbin", <<"scalar", "CMP", "BOOL", "scalar">>),
  Rule("vbin", <<"scalar", "binop", "vector">>), Rule("vbin", <<"vector", "binop", "scalar">>),
  Rule("vbin", <<"vector", "binop", "vector">>), Rule("vbin", <<"vector", "SET", "vector">>),
  Rule("vbin", <<"vector", "binop", "group", "vector">>),
  Rule("vbin", <<"vector", "SET", "GKW", "labels", "vector">>),
  Rule("sbin", <<"(", "sbin", ")">>), Rule("vbin", <<"(", "vbin", ")">>),
  Rule("sbin", <<"(", "UNARY", "scalar", ")">>), Rule("vbin", <<"(", "UNARY", "vector", ")">>),
  \* functions
  Rule("vfunc", <<"FVECTOR", "fbody">>),
  Rule("fbody", <<"(", ")">>), Rule("fbody", <<"(", "fargs", ")">>),
  Rule("fargs", <<"expr">>), Rule("fargs", <<"fargs", ",", "expr">>),
  Rule("sfunc", <<"FSCALAR", "(", ")">>), Rule("sfunc", <<"FSCALAR", "(", "vector", ")">>),
  Rule("sfunc", <<"FSCALAR", "(", "UNARY", "vector", ")">>),
  \* subqueries
  Rule("subq", <<"vector", "[", "DUR", ":", "]">>), Rule("subq", <<"vector", "[", "DUR", ":", "DUR", "]">>),
  Rule("subq", <<"vector", "[", "DUR", ":", "]", "offs">>), Rule("subq", <<"vector", "[", "DUR", ":", "DUR", "]", "offs">>),
  \* unary expressions
  Rule("unary", <<"UNARY", "scalar">>), Rule("unary", <<"UNARY", "vector">>) >>

NonTerms == {G[i].l : i \in DOMAIN G}
RulesOf == [n \in NonTerms |-> {i \in DOMAIN G : G[i].l = n}]
\* non-terminals reachable at the left edge of n, n included
RECURSIVE LeftClose(_)
LeftClose(S) == LET T == S \cup ({G[i].r[1] : i \in UNION {RulesOf[n] : n \in S}} \cap NonTerms)
                IN  IF T = S THEN S ELSE LeftClose(T)
LeftCorner == [n \in NonTerms |-> UNION {RulesOf[m] : m \in LeftClose({n})}]

Done(it) == it[2] = Len(G[it[1]].r)
NextSym(it) == IF Done(it) THEN "" ELSE G[it[1]].r[it[2] + 1]

\* completions (no rule is empty, so they only look at earlier positions)
RECURSIVE Completed(_, _, _)
Completed(S, front, ch) ==
  LET new == UNION {{<<i[1], i[2] + 1, i[3]>> : i \in {j \in ch[d[3] + 1] : NextSym(j) = G[d[1]].l}}
                    : d \in {x \in front : Done(x)}} \ S
  IN  IF new = {} THEN S ELSE Completed(S \cup new, new, ch)
Predicted(S, k) == S \cup {<<r, 0, k>> : r \in UNION {LeftCorner[n] : n \in {NextSym(i) : i \in S} \cap NonTerms}}
\* the item set after token kind t, ch being the sets of all positions before
Scan(ch, t) ==
  LET k == Len(ch)
      S == {<<i[1], i[2] + 1, i[3]>> : i \in {j \in ch[k] : NextSym(j) = t}}
  IN  Predicted(Completed(S, S, ch), k)
Chart0 == <<Predicted({<<1, 0, 0>>}, 0)>>
Allowed(ch) == {NextSym(i) : i \in ch[Len(ch)]} \ (NonTerms \cup {""})

(* -------------------------------------------------------- words by kind *)
Words == [
  AGGR    |-> {"sum", "max", "min", "avg", "stddev", "stdvar", "count", "count_values", "bottomk", "topk", "quantile"},
  AGGRKW  |-> {"by", "without"},
  OFFSET  |-> {"offset"},
  BOOL    |-> {"bool"},
  GKW     |-> {"ignoring", "on"},
  GSIDE   |-> {"group_left", "group_right"},
  ARITH   |-> {"+", "-", "*", "/", "%", "^"},
  UNARY   |-> {"+", "-"},
  CMP     |-> {"==", "!=", ">", "<", ">=", "<="},
  SET     |-> {"and", "or", "unless"},
  LMATCH  |-> {"=", "!=", "=~", "!~"},
  FSCALAR |-> {"time", "scalar"},
  FVECTOR |-> {"abs", "absent", "absent_over_time", "avg_over_time", "ceil", "changes", "clamp_max", "clamp_min",
               "count_over_time", "days_in_month", "day_of_month", "day_of_week", "delta", "deriv", "exp", "floor",
               "histogram_quantile", "holt_winters", "hour", "idelta", "increase", "irate", "label_replace",
               "label_join", "ln", "log10", "log2", "max_over_time", "min_over_time", "minute", "month",
               "predict_linear", "quantile_over_time", "rate", "resets", "round", "sort", "sort_desc", "sqrt",
               "stddev_over_time", "stdvar_over_time", "sum_over_time", "timestamp", "vector", "year"} ]
Units == {"s", "m", "h", "d", "w", "y"}

(* ---------------------------------------------------------------- index *)
\* metric -> label -> values, each value as it is written in a query
Index == [foo |-> [a |-> {"\"x\"", "\"x1\"", "\"y z\""}, ab |-> {"\"q\\\"uote\""}, le |-> {"\"+Inf\"", "\"0.5\""}],
          foobar |-> [b |-> {"\"x\"", "\"é\""}, instance |-> {"\"http://h:1/m\""}],
          sum_total |-> [a |-> {"\"other\""}, by_x |-> {"\"\""}]]
         @@ ("job:rate" :> [b |-> {"\"5\"", "\"55\""}])
         @@ [up |-> <<>>, off |-> [on |-> {"\"s\""}, o |-> {"\"t\\\\u\"", "\"n\\nl\"", "\"C:\\\\\""}]]
Metrics == DOMAIN Index
LabelsOf(m) == IF m \in Metrics THEN DOMAIN Index[m] ELSE {}
ValuesOf(m, l) == IF l \in LabelsOf(m) THEN Index[m][l] ELSE {}

(* --------------------------------------------------------------- offers *)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsNumber(p) == p # "" /\ \A i \in 1..Len(p) : SubSeq(p, i, i) \in Digits
OffersOf(kind, ctx, p) ==
  CASE kind = "METRIC" -> {w \in Metrics : StartsWith(w, p)}
    [] kind = "LABEL"  -> {w \in LabelsOf(ctx.metric) : StartsWith(w, p)}
    [] kind = "STR"    -> {w \in ValuesOf(ctx.metric, ctx.label) : StartsWith(w, p)}
    [] kind = "DUR"    -> IF IsNumber(p) THEN Units ELSE {}
    [] kind \in DOMAIN Words -> {w \in Words[kind] : StartsWith(w, p)}
    [] OTHER -> {}
Offers(allow, ctx, p) == UNION {OffersOf(k, ctx, p) : k \in allow}

(* ------------------------------------------------------------- generator *)
Texts == [METRIC |-> Metrics \cup {"nosuch", "abc_total"},
          LABEL |-> {"a", "ab", "b", "le", "o", "by_x", "nolabel", "instance"},
          NUM |-> {"1", "2.5", "0x1f", "1e3", ".5"}, DUR |-> {"5m", "1h", "90s", "2d"},
          STR |-> {"\"x\"", "\"\"", "'y'", "\"a,b}\""}] @@ Words
TextsOf(k) == IF k \in DOMAIN Texts THEN Texts[k] ELSE {k}
Partials == {"s", "su", "sum", "sum_", "f", "fo", "foo", "foob", "foobarx", "j", "job:", "job:rate", "b", "by", "bo", "o", "of", "on", "a",
             "ab", "abs", "l", "le", "g", "group_", "group_l", "count_", "\"", "\"x", "\"x1", "\"q", "'", "1", "42", "007", "5m", "1x", "m", "zz",
             "S", "Foo", "_", "u", "i", "ig", "t", "ti", "in", "\"é", "\"http:", "unless", "w"}

VARIABLES toks,   \* the prefix: a sequence of [k |-> kind, t |-> text]
          ch,     \* its item sets
          ctx     \* metric and label named last
vars == <<toks, ch, ctx>>

Init == /\ toks = <<>> /\ ch = Chart0 /\ ctx = [metric |-> "", label |-> ""]
Extend(k) ==
  /\ Len(toks) < MaxTok
  /\ \E t \in {RandomElement(TextsOf(k))} :
       /\ toks' = Append(toks, [k |-> k, t |-> t])
       /\ ctx' = [metric |-> IF k = "METRIC" THEN t ELSE ctx.metric,
                  label  |-> IF k = "LABEL" THEN t ELSE ctx.label]
       /\ ch' = Append(ch, Scan(ch, k))
Next == \E k \in Allowed(ch) \ {"EOF"} : Extend(k)
\* for long random walks, which would otherwise rarely leave label lists
NextRandom == \E k \in {RandomElement(Allowed(ch) \ {"EOF"})} : Extend(k)

Kinds == [i \in DOMAIN toks |-> toks[i].k]

(* ----------------------------------------------------------- properties *)
\* a viable prefix always allows something next
NeverStuck == Allowed(ch) # {}
\* an identifier is never a metric in one reading and a label in another, and
\* an operator never of two classes, so the context is unambiguous
Unambiguous == /\ ~({"METRIC", "LABEL"} \subseteq Allowed(ch))
               /\ ~({"ARITH", "UNARY"} \subseteq Allowed(ch))
               /\ ~({"CMP", "LMATCH"} \subseteq Allowed(ch))
\* brackets are balanced in every complete query
Count(S) == Cardinality({i \in DOMAIN toks : toks[i].k \in S})
Balanced == "EOF" \in Allowed(ch) => /\ Count({"("}) = Count({")"})
                                     /\ Count({"["}) = Count({"]"})
                                     /\ Count({"{"}) = Count({"}"})
\* closing brackets are only offered to be typed if one is open
Closable == /\ ")" \in Allowed(ch) => Count({"("}) > Count({")"})
            /\ "]" \in Allowed(ch) => Count({"["}) > Count({"]"})
            /\ "}" \in Allowed(ch) => Count({"{"}) > Count({"}"})

(* --------------------------------------------------------------- output *)
\* mostly words that something starts with, and words of any other kind
Hits == {p \in Partials : Offers(Allowed(ch), ctx, p) # {}}
Pick == IF NPartials = 0 THEN {} ELSE
        {RandomElement(Partials)} \cup {RandomElement(IF Hits = {} THEN Partials ELSE Hits) : i \in 2..NPartials}
Emit == \E P \in {Pick} :
  PrintT(ToJson([toks |-> [i \in DOMAIN toks |-> toks[i].t], kinds |-> Kinds,
                 allow |-> Allowed(ch), metric |-> ctx.metric, label |-> ctx.label,
                 offers |-> [p \in P |-> Offers(Allowed(ch), ctx, p)]]))
EmitTables == PrintT(ToJson([words |-> Words, index |-> Index, kinds |-> UNION {{G[i].r[j] : j \in DOMAIN G[i].r} : i \in DOMAIN G} \ NonTerms]))
ASSUME EmitTables
=============================================================================
