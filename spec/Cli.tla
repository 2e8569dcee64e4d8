--------------------------------- MODULE Cli ---------------------------------
(* One-shot and list runs of the command over several targets.  A target answers *)
(* its first request and the later ones with a document (a sequence of lines) and *)
(* a status.  Every sweep over the targets yields the samples of all of them,     *)
(* each with the URL of its target as its instance label, or fails.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Walks, Fails      \* Fails: how many of ten runs have targets that fail

Lines == <<
  [text |-> "m{a=\"x\"} 1",                  m |-> "m", ls |-> "a" :> "x", v |-> 1],
  [text |-> "m{a=\"y\"} 2",                  m |-> "m", ls |-> "a" :> "y", v |-> 2],
  [text |-> "m 3",                           m |-> "m", ls |-> <<>>, v |-> 3],
  [text |-> "m{a=\"z\",instance=\"own\"} 4", m |-> "m", ls |-> "a" :> "z", v |-> 4],
  [text |-> "n{b=\"1\",a=\"x\"} 5",          m |-> "n", ls |-> [a |-> "x", b |-> "1"], v |-> 5],
  [text |-> "n{instance=\"q\"} -6",          m |-> "n", ls |-> <<>>, v |-> -6],
  [text |-> "up 0",                          m |-> "up", ls |-> <<>>, v |-> 0],
  [text |-> "h_bucket{le=\"+Inf\"} 7",       m |-> "h_bucket", ls |-> "le" :> "+Inf", v |-> 7],
  [text |-> "o{b=\"\",c=\"d\"} 8",           m |-> "o", ls |-> "c" :> "d", v |-> 8],
  [text |-> "n{b=\"2\",a=\"x\"} 9",          m |-> "n", ls |-> [a |-> "x", b |-> "2"], v |-> 9],
  [text |-> "o{instance=\"@0\",e=\"% {}\"} 10", m |-> "o", ls |-> "e" :> "% {}", v |-> 10],
  [text |-> "n{a=\"x\",c=\"1\"} 12",          m |-> "n", ls |-> [a |-> "x", c |-> "1"], v |-> 12],
  [text |-> "n{d=\"x\",b=\"1\"} 13",          m |-> "n", ls |-> [d |-> "x", b |-> "1"], v |-> 13],
  [text |-> "m{job=\"j\",instance=\"own\"} 14", m |-> "m", ls |-> "job" :> "j", v |-> 14],
  [text |-> "n{A=\"x\",b=\"1\",a=\"y\"} 15",  m |-> "n", ls |-> [A |-> "x", b |-> "1", a |-> "y"], v |-> 15],
  [text |-> "n_m{b=\"1\"} 16",                m |-> "n_m", ls |-> "b" :> "1", v |-> 16],
  [text |-> "n_m 11",                        m |-> "n_m", ls |-> <<>>, v |-> 11],
  [text |-> "# HELP m something m 1",        m |-> "", ls |-> <<>>, v |-> 0],
  [text |-> "# TYPE m counter",              m |-> "", ls |-> <<>>, v |-> 0],
  [text |-> "",                              m |-> "", ls |-> <<>>, v |-> 0] >>
Good == {i \in DOMAIN Lines : Lines[i].m # ""}
Bads == <<"m{a=\"x\" 1", "m{a=x} 1", "m one", "m 1 2 3", "{", "m{a=\"y} 1">>
Text(i) == IF i < 0 THEN Bads[-i] ELSE Lines[i].text

\* the statuses; 0 refuses the connection, 1 hangs up, 2 cuts the body short
Refused == 0  HangUp == 1  Cut == 2
Others == <<201, 202, 203, 204, 206, 300, 304, 400, 401, 404, 418, 500, 502, 503>>

Url(t) == "@" \o ToString(t - 1)
Malformed(doc) == \E k \in DOMAIN doc : doc[k] < 0
Fails_(ans) == ans.status # 200 \/ Malformed(ans.doc)
\* the samples of all targets in sweep n (1: the first, 2: any later one)
Ans(targets, t, n) == IF n = 1 THEN targets[t].first ELSE targets[t].later
Samples(targets, n) ==
  UNION {{[m |-> Lines[k].m, ls |-> ("instance" :> Url(t)) @@ Lines[k].ls, v |-> Lines[k].v]
          : k \in {Ans(targets, t, n).doc[j] : j \in DOMAIN Ans(targets, t, n).doc} \cap Good} : t \in DOMAIN targets}

Get(ls, l) == IF l \in DOMAIN ls THEN ls[l] ELSE ""
Named(s) == [ls |-> ("__name__" :> s.m) @@ s.ls, v |-> s.v]
Sel(S, P(_)) == {Named(s) : s \in {x \in S : P(x)}}
Queries == <<"", "m", "m{a=\"x\"}", "{a=~\"x|z\"}", "n or up", "nosuch", "count(m)", "sum by (a) (m)", "m{instance=\"@0\"}",
             "m > 1", "1+1", "count by (instance) ({__name__=~\"..*\"})", "m{a!=\"x\"}",
             "m{", "sum(", "nosuchfn(m)", "m m", "foo{a=\"b\"} or">>
BadQueries == {14, 15, 16, 17, 18}
RECURSIVE SumV(_)
SumV(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x.v + SumV(S \ {x})
Answer(q, S) ==
  LET M == {s \in S : s.m = "m"}
  IN CASE q = 1 -> Sel(S, LAMBDA s : TRUE)
       [] q = 2 -> Sel(M, LAMBDA s : TRUE)
       [] q = 3 -> Sel(M, LAMBDA s : Get(s.ls, "a") = "x")
       [] q = 4 -> Sel(S, LAMBDA s : Get(s.ls, "a") \in {"x", "z"})
       [] q = 5 -> Sel(S, LAMBDA s : s.m = "n" \/ (s.m = "up" /\ ~\E n \in S : n.m = "n" /\ n.ls = s.ls))
       [] q = 6 -> {}
       [] q = 7 -> IF M = {} THEN {} ELSE {[ls |-> <<>>, v |-> Cardinality(M)]}
       [] q = 8 -> {[ls |-> IF a = "" THEN <<>> ELSE "a" :> a, v |-> SumV({s \in M : Get(s.ls, "a") = a})] : a \in {Get(s.ls, "a") : s \in M}}
       [] q = 9 -> Sel(M, LAMBDA s : s.ls["instance"] = "@0")
       [] q = 10 -> Sel(M, LAMBDA s : s.v > 1)
       [] q = 11 -> {[ls |-> "scalar" :> "scalar", v |-> 2]}
       [] q = 12 -> {[ls |-> "instance" :> i, v |-> Cardinality({s \in S : s.ls["instance"] = i})] : i \in {s.ls["instance"] : s \in S}}
       [] q = 13 -> Sel(M, LAMBDA s : Get(s.ls, "a") # "x")

\* a listing names metrics with the names of their labels; the harness sorts
Listing(S) == {<<s.m, DOMAIN s.ls \ {"instance"}>> : s \in S}

Formats == {"json", "yaml", "prometheus"}
BadRun(r) == ~r.list /\ (r.q \in BadQueries \/ r.f \notin Formats)
\* what is printed if the last sweep was the n-th, and none failed
Printed(r, n) == LET S == Samples(r.targets, n)
                 IN  IF r.list THEN [listing |-> {[m |-> x[1], ls |-> x[2]] : x \in Listing(S)}]
                     ELSE IF BadRun(r) THEN [samples |-> {}] ELSE [samples |-> Answer(r.q, S)]

VARIABLE run
RandDoc(n) == [i \in 1..n |-> RandomElement(DOMAIN Lines)]
Distinct(d) == [i \in 1..Cardinality({d[k] : k \in DOMAIN d}) |-> SetToSeq({d[k] : k \in DOMAIN d})[i]]
Shuffle(d) == IF Len(d) < 2 THEN d ELSE LET k == RandomElement(1..Len(d)) IN SubSeq(d, k, Len(d)) \o SubSeq(d, 1, k - 1)
Broken(d) == LET k == RandomElement(1..Len(d) + 1) IN SubSeq(d, 1, k - 1) \o <<-RandomElement(DOMAIN Bads)>> \o SubSeq(d, k, Len(d))
OK(d) == [doc |-> d, status |-> 200]
Failing(d) == LET k == RandomElement(1..8)
              IN CASE k <= 3 -> [doc |-> d, status |-> Others[RandomElement(DOMAIN Others)]]
                   [] k = 4 -> [doc |-> d, status |-> HangUp]
                   [] k = 5 -> [doc |-> d, status |-> Cut]
                   [] OTHER -> [doc |-> Broken(d), status |-> 200]
RandDocs(dummy) == Shuffle(Distinct(RandDoc(RandomElement({0, 1, 3, 6, 9, 14}))))
RandTarget(bad) ==
  LET d == RandDocs(0)  e == IF RandomElement(1..3) = 1 THEN RandDocs(1) ELSE d
  IN  CASE bad = 0 -> [first |-> OK(d), later |-> OK(e)]
        [] bad = 1 -> [first |-> Failing(d), later |-> Failing(d)]
        [] bad = 2 -> [first |-> OK(d), later |-> Failing(e)]
        [] bad = 3 -> \* a hang-up without any answer is retried by HTTP clients
                      LET f == Failing(d) IN [first |-> IF f.status = HangUp THEN [doc |-> d, status |-> 500] ELSE f, later |-> OK(e)]
        [] bad = 4 -> [first |-> [doc |-> <<>>, status |-> Refused], later |-> [doc |-> <<>>, status |-> Refused]]
RandRun(i) ==
  LET n == RandomElement({1, 1, 2, 2, 3})
      failing == IF RandomElement(1..10) <= Fails THEN RandomElement(1..n) ELSE 0
  IN  [targets |-> [t \in 1..n |-> RandTarget(IF t = failing THEN RandomElement(1..4) ELSE 0)],
       list |-> RandomElement(1..4) = 1,
       q |-> IF RandomElement(1..3) = 1 THEN RandomElement({1, 12}) ELSE RandomElement(DOMAIN Queries),
       f |-> IF RandomElement(1..12) = 1 THEN RandomElement({"xml", "", "JSON", "text"}) ELSE RandomElement(Formats),
       config |-> n = 1 /\ RandomElement(1..3) = 1,    \* the target is that of the kubeconfig
       color |-> RandomElement(1..4) = 1,
       rep |-> IF RandomElement(1..40) = 1 THEN RandomElement({2, 20, 300, 2500, 9000}) ELSE 1]   \* documents repeat, saying nothing new
Init == run = <<>>
Next == run = <<>> /\ \E i \in 1..Walks : \E r \in {RandRun(i)} : run' = r
Emit == PrintT(ToJson([
   list |-> run'.list, query |-> Queries[run'.q], f |-> run'.f, rep |-> run'.rep, config |-> run'.config, color |-> run'.color,
   targets |-> [t \in DOMAIN run'.targets |-> [
      first |-> [text |-> [k \in DOMAIN run'.targets[t].first.doc |-> Text(run'.targets[t].first.doc[k])], status |-> run'.targets[t].first.status],
      later |-> [text |-> [k \in DOMAIN run'.targets[t].later.doc |-> Text(run'.targets[t].later.doc[k])], status |-> run'.targets[t].later.status]]],
   bad |-> BadRun(run'),
   fails |-> [t \in DOMAIN run'.targets |-> <<Fails_(run'.targets[t].first), Fails_(run'.targets[t].later)>>],
   exp |-> <<Printed(run', 1), Printed(run', 2)>>]))

\* samples of several targets stay apart
Apart == run # <<>> => \A s \in Samples(run.targets, 1) : s.ls["instance"] \in {Url(t) : t \in DOMAIN run.targets}
Everything == run # <<>> =>
   Cardinality(Samples(run.targets, 2)) = FoldSeq(LAMBDA t, n : n + Cardinality({t.later.doc[k] : k \in DOMAIN t.later.doc} \cap Good), 0, run.targets)
=============================================================================
