------------------------------- MODULE CmdLine -------------------------------
(* The command line (cmd/promq.go, promq.go) and the kubeconfig: which targets  *)
(* a run of the command asks, with whose credentials, and what it prints where. *)
(* Words are consumed one by one, as POSIX flags are; a run is then decided by   *)
(* what has been gathered.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANT MaxFlags

(* ---- targets ---- *)
Targets == 1..6                 \* 5, 6 speak TLS; the clusters' own are 7 and 8
\* @a answers with an error, @b hangs up, @c refuses, @d answers nonsense, @e cuts its answer short
Dead == {"@a", "@b", "@c", "@d", "@e"}
Url(t) == "@" \o ToString(t)    \* replaced by the harness
Tls(t) == t \in {5, 6}
\* target t serves m{t="<t>"} 10t and, if t is even, n{t="<t>"} 1

(* ---- flags ---- *)
Queries == <<"m", "sum(m)", "{t=\"2\"}", "nosuch", "m{", "-m", "n", "1 == bool 1", "count(m) or vector(0)">>
BadQuery == 5
Outputs == <<"json", "yaml", "prometheus", "xml", "">>
Formats == {"json", "yaml", "prometheus"}
Names == [l |-> "list", c |-> "continuous", q |-> "query", o |-> "output", t |-> "targets"]
Bool(f) == f \in {"l", "c"}

\* what has been gathered from the words
Fresh == [list |-> FALSE, cont |-> FALSE, q |-> "", o |-> "json", ts |-> <<>>, help |-> FALSE, bad |-> FALSE]
Set(g, f, v) ==
  CASE f = "q" -> [g EXCEPT !.q = v]
    [] f = "o" -> [g EXCEPT !.o = v]
    [] f = "t" -> [g EXCEPT !.ts = Append(@, v)]
SetBool(g, f, v) ==
  IF v \notin {"", "true", "1", "T", "false", "0", "F"} THEN [g EXCEPT !.bad = TRUE]
  ELSE LET b == v \in {"", "true", "1", "T"}
       IN IF f = "l" THEN [g EXCEPT !.list = b] ELSE [g EXCEPT !.cont = b]

\* one item of a command line: a flag in one of its spellings
\*   short: -q v   glued: -qv   eq: -q=v   long: --query v   longeq: --query=v
\*   after: -lq v (a boolean flag before it in the same word)
Spelled(i) ==
  LET L == Names[i.f]
  IN CASE i.how = "short" -> <<"-" \o i.f, i.v>>
       [] i.how = "glued" -> <<"-" \o i.f \o i.v>>
       [] i.how = "eq" -> <<"-" \o i.f \o "=" \o i.v>>
       [] i.how = "long" -> <<"--" \o L, i.v>>
       [] i.how = "longeq" -> <<"--" \o L \o "=" \o i.v>>
       [] i.how = "after" -> <<"-l" \o i.f, i.v>>
       [] i.how = "on" -> <<"-" \o i.f>>
       [] i.how = "longon" -> <<"--" \o L>>
       [] i.how = "booleq" -> <<"--" \o L \o "=" \o i.v>>
       [] i.how = "word" -> <<i.v>>       \* not a flag there is
       [] i.how = "help" -> <<i.v>>
Took(g, i) ==
  IF g.bad THEN g                 \* a word that is wrong decides
  ELSE CASE i.how \in {"short", "glued", "eq", "long", "longeq"} -> Set(g, i.f, i.v)
         [] i.how = "after" -> Set(SetBool(g, "l", ""), i.f, i.v)
         [] i.how \in {"on", "longon"} -> SetBool(g, i.f, "")
         [] i.how = "booleq" -> SetBool(g, i.f, i.v)
         [] i.how = "word" -> [g EXCEPT !.bad = TRUE]
         [] i.how = "help" -> [g EXCEPT !.help = TRUE]
Gathered(is) == FoldLeft(LAMBDA g, i : Took(g, i), Fresh, is)

(* ---- the kubeconfig ---- *)
\* where it is found: "env", "home", "two" files of which the first says which
\* context is current and wins, "none" at all, "broken" (no YAML), "dangling"
\* (the current context does not exist); two clusters, whose targets are 7 and 8;
\* tls: how the current cluster's certificate is to be verified
Usable(k) == k.where \in {"env", "home", "two", "none"}
Own(k) == 6 + k.current
\* client-go heeds certificates and credentials only of clusters that speak TLS
Verifies(k) == k.where # "none" /\ k.https /\ k.tls \in {"ca", "insecure"}
IsTls(k, t) == Tls(t) \/ (t \in {7, 8} /\ k.https)

(* ---- what a run does ---- *)
UrlsOf(g, k) == IF g.ts = <<>> THEN {Own(k)} ELSE {t \in Targets : \E j \in DOMAIN g.ts : g.ts[j] = Url(t)}
AllKnown(g) == \A j \in DOMAIN g.ts : \E t \in Targets : g.ts[j] = Url(t)
Reachable(g, k) == AllKnown(g) /\ \A t \in UrlsOf(g, k) : IsTls(k, t) => Verifies(k)

RECURSIVE Sum(_)
Sum(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN 10 * t + Sum(T \ {t})
\* n: a name; t: the target it is of (0: none); v: the value
Answer(q, T) ==
  CASE q = "" -> {[n |-> "m", t |-> t, v |-> 10 * t] : t \in T} \cup {[n |-> "n", t |-> t, v |-> 1] : t \in {t \in T : t % 2 = 0}}
    [] q = "m" -> {[n |-> "m", t |-> t, v |-> 10 * t] : t \in T}
    [] q = "sum(m)" -> {[n |-> "", t |-> 0, v |-> Sum(T)]}
    [] q = "{t=\"2\"}" -> {[n |-> x[1], t |-> 2, v |-> x[2]] : x \in {y \in {<<"m", 20>>, <<"n", 1>>} : 2 \in T}}
    [] q = "-m" -> {[n |-> "", t |-> t, v |-> -10 * t] : t \in T}
    [] q = "n" -> {[n |-> "n", t |-> t, v |-> 1] : t \in {t \in T : t % 2 = 0}}
    [] q = "1 == bool 1" -> {[n |-> "", t |-> 0, v |-> 1]}
    [] q = "count(m) or vector(0)" -> {[n |-> "", t |-> 0, v |-> Cardinality(T)]}
    [] OTHER -> {}
Listed(T) == {"m"} \cup (IF \E t \in T : t % 2 = 0 THEN {"n"} ELSE {})

Outcome(is, k) ==
  LET g == Gathered(is)
  IN IF g.help /\ ~g.bad THEN [kind |-> "help"]
     ELSE IF g.bad \/ ~Usable(k) THEN [kind |-> "error", asked |-> FALSE]
     ELSE IF ~Reachable(g, k) THEN [kind |-> "error", asked |-> TRUE]
     ELSE IF g.list THEN [kind |-> "list", targets |-> UrlsOf(g, k), names |-> Listed(UrlsOf(g, k))]
     ELSE IF g.q = Queries[BadQuery] \/ g.o \notin Formats THEN [kind |-> "error", asked |-> TRUE]
     ELSE [kind |-> "result", targets |-> UrlsOf(g, k), format |-> g.o, samples |-> Answer(g.q, UrlsOf(g, k))]

(* ---- generation ---- *)
Hows == <<"short", "glued", "eq", "long", "longeq", "after">>
Wrong == <<"--nosuch", "-x", "--list=maybe", "-lx", "--Query=m", "--query-file=x", "-l=2", "--target=@1", "--=x", "---list">>
Flag(f, v) == LET h == RandomElement(IF f = "t" /\ RandomElement(1..3) > 1 THEN {1, 4} ELSE DOMAIN Hows)
                  how == IF v = "" THEN "longeq" ELSE Hows[h]
              IN [f |-> f, how |-> how, v |-> v]
RandItem(free, odd) ==
  LET r == RandomElement(1..20)
  IN CASE r <= 4 -> Flag("q", Queries[RandomElement(IF odd THEN DOMAIN Queries ELSE DOMAIN Queries \ {BadQuery})])
       [] r <= 8 -> Flag("o", Outputs[RandomElement(IF odd THEN DOMAIN Outputs ELSE 1..3)])
       [] r <= 15 -> Flag("t", IF free = {} \/ (odd /\ RandomElement(1..10) = 1)
                               THEN RandomElement({"@1,@2", "", "@1 ", "nowhere://x"} \cup Dead)
                               ELSE Url(RandomElement(free)))
       [] r <= 16 -> [f |-> "l", how |-> RandomElement({"on", "longon"}), v |-> ""]
       [] r <= 18 -> [f |-> RandomElement({"l", "l", "c"}), how |-> "booleq", v |-> RandomElement({"false", "0", "F"})]
       [] r = 19 -> IF odd THEN [f |-> "l", how |-> "word", v |-> Wrong[RandomElement(DOMAIN Wrong)]]
                    ELSE [f |-> "l", how |-> "booleq", v |-> RandomElement({"true", "1", "T"})]
       [] OTHER -> IF odd THEN [f |-> "l", how |-> "help", v |-> RandomElement({"-h", "--help"})]
                   ELSE Flag("q", "m")
RandConfig(i) ==
  [where |-> RandomElement({"env", "env", "env", "home", "home", "two", "two", "none", "broken", "dangling"}),
   current |-> RandomElement(1..2), https |-> RandomElement(1..2) = 1,
   tls |-> RandomElement({"ca", "insecure", "unset"}),
   auth |-> RandomElement({"none", "token", "basic"})]

VARIABLES items, conf, free, odd, left
vars == <<items, conf, free, odd, left>>
Init == items = <<>> /\ conf = RandConfig(0) /\ free = Targets /\ odd = FALSE /\ left = -1
Begin == /\ left = -1
         /\ \E c \in {RandConfig(1)} : conf' = c
         /\ \E n \in {RandomElement(0..MaxFlags)} : left' = n
         /\ \E o \in {RandomElement(1..3) = 1} : odd' = o
         /\ UNCHANGED <<items, free>>
More == /\ left > 0 /\ left' = left - 1
        /\ \E i \in {RandItem(IF odd \/ Verifies(conf) THEN free ELSE free \ {5, 6}, odd)} :
             /\ items' = IF i.f = "c" /\ i.how # "booleq" THEN items ELSE Append(items, i)
             /\ free' = {t \in free : Url(t) # i.v}
        /\ UNCHANGED <<conf, odd>>
\* the last word may leave out the value that belongs to it
Done == /\ left = 0 /\ left' = -2 /\ UNCHANGED <<items, conf, free, odd>>
Next == Begin \/ More \/ Done

Words(is) == FoldLeft(LAMBDA w, i : w \o Spelled(i), <<>>, is)
\* without a kubeconfig the default cluster of client-go would be asked
Decided == ~(conf.where = "none" /\ LET g == Gathered(items) IN ~g.bad /\ ~g.help /\ g.ts = <<>>)
CutShort == Len(items) > 0 /\ items[Len(items)].how \in {"short", "long", "after"}
Emit == (left = 0 /\ left' = -2 /\ Decided) =>
  PrintT(ToJson([words |-> Words(items), hows |-> [k \in DOMAIN items |-> items[k].how],
                 conf |-> conf, own |-> Own(conf), out |-> Outcome(items, conf),
                 cut |-> IF CutShort THEN Outcome(Append(SubSeq(items, 1, Len(items) - 1),
                                            [f |-> "l", how |-> "word", v |-> ""]), conf) ELSE [kind |-> ""]]))

\* flags do not depend on each other's order, except that the last one of a kind
\* wins and that targets add up
Swap(is, k) == [j \in DOMAIN is |-> IF j = k THEN is[k + 1] ELSE IF j = k + 1 THEN is[k] ELSE is[j]]
Sets(i) == (IF i.how = "after" THEN {"l"} ELSE {}) \cup {i.f}
Commute == left = 0 => \A k \in 1..(Len(items) - 1) :
  (Sets(items[k]) \cap Sets(items[k + 1]) \subseteq {"t"} /\ {items[k].how, items[k + 1].how} \cap {"word", "help"} = {})
    => LET a == Outcome(items, conf)  b == Outcome(Swap(items, k), conf) IN a = b
\* whatever is asked for explicitly is all that is asked
OnlyAsked == left = 0 => LET o == Outcome(items, conf) g == Gathered(items)
  IN o.kind \in {"list", "result"} => (g.ts # <<>> => o.targets \cap {7, 8} = {}) /\ o.targets # {}
=============================================================================
