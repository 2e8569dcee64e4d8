-------------------------------- MODULE Parse --------------------------------
(* Parsing an exposition (promq/prom/parse.go), line by line.  A document is a *)
(* sequence of lines of known meaning; the texts are chosen so that every      *)
(* lexical form occurs.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Walks, WalkLen

\* S: text, labels, value (as written), timestamp (<<>> if none)
S(x, ls, v, ts) == [k |-> "sample", x |-> x, ls |-> ls, v |-> v, ts |-> ts]
N(x) == [k |-> "none", x |-> x]
B(x) == [k |-> "bad", x |-> x]

\* a line of n labels
Wide(n) == LET name(i) == "l" \o ToString(100 + i)
               text[i \in 0..n] == IF i = 0 THEN "" ELSE text[i-1] \o (IF i > 1 THEN "," ELSE "") \o name(i) \o "=\"v" \o ToString(i) \o "\""
               names == [i \in 1..n |-> name(i)]
               ls == [x \in {names[i] : i \in 1..n} \cup {"__name__"} |->
                        IF x = "__name__" THEN "wide" ELSE "v" \o ToString(CHOOSE i \in 1..n : names[i] = x)]
           IN S("wide{" \o text[n] \o "} 5", ls, "5", <<>>)

Lines == <<
  Wide(20), Wide(90),
  S("m 1", [__name__ |-> "m"], "1", <<>>),
  S("m{a=\"x\"} 2 1234", [__name__ |-> "m", a |-> "x"], "2", <<"1234">>),
  S("m{a=\"x\",b=\"y\",} -3.5", [__name__ |-> "m", a |-> "x", b |-> "y"], "-3.5", <<>>),
  S("m{ b = \"y\" , a = \"x\" }\t4   0", [__name__ |-> "m", a |-> "x", b |-> "y"], "4", <<"0">>),
  S("n{a=\"q\\\"u\\\\o\\nte {b=\\\"\\\"} # 1\"} +Inf 77", [__name__ |-> "n", a |-> "q\"u\\o\nte {b=\"\"} # 1"], "+Inf", <<"77">>),
  S("n{} NaN", [__name__ |-> "n"], "NaN", <<>>),
  S("up{instance=\"own\",job=\"j\"} 0 1600000000", [__name__ |-> "up", instance |-> "own", job |-> "j"], "0", <<"1600000000">>),
  S("h_bucket{le=\"+Inf\"} 1e3", [__name__ |-> "h_bucket", le |-> "+Inf"], "1000", <<>>),
  S("m{a=\"x\"} 8 1235", [__name__ |-> "m", a |-> "x"], "8", <<"1235">>),
  S("n{a=\"x\"} 9 1600000000987", [__name__ |-> "n", a |-> "x"], "9", <<"1600000000987">>),
  S("mm{a=\"x\"} 10", [__name__ |-> "mm", a |-> "x"], "10", <<>>),
  S("mn{a=\"x\"} 1.25e-07", [__name__ |-> "mn", a |-> "x"], "1.25e-07", <<>>),
  S("m{a=\"y\",b=\"x\"} -Inf 9223372036854775807", [__name__ |-> "m", a |-> "y", b |-> "x"], "-Inf", <<"9223372036854775807">>),
  S("m{A=\"x\",_1y=\"y\",Z9=\"{}\"} 11", [__name__ |-> "m", A |-> "x", _1y |-> "y", Z9 |-> "{}"], "11", <<>>),
  S("r{job=\"k\",instance=\"T\",a=\"\"} 12", [__name__ |-> "r", job |-> "k", instance |-> "T"], "12", <<>>),
  S("a:b{_x=\"1\"} 7", [__name__ |-> "a:b", _x |-> "1"], "7", <<>>),
  N("# HELP m some text {a=\"x\"} 1"),
  N("# TYPE m counter"),
  N("# TYPE h histogram"),
  N("# just a comment"),
  N("#"),
  N(""),
  N("# HELP m "),
  B("m{a=\"x\" 1"),
  B("m{a=\"x\"}"),
  B("m"),
  B("m one"),
  B("m 1 2 3"),
  B("m 1 2.5"),
  B("m{a=x} 1"),
  B("m{a} 1"),
  B("{a=\"x\"} 1"),
  B("1m 2"),
  B("m{a=\"x} 1"),
  B("# TYPE m nonsense"),
  B("= 1") >>

Extras == << <<>>,
             [instance |-> "T"],
             [a |-> "new"],
             [a |-> ""],
             [instance |-> "T", job |-> "", zz |-> "z"],
             [__name__ |-> "renamed"],
             [nope |-> ""] >>

\* additional labels replace labels of the same name; an empty one removes it
With(ls, ex) ==
  LET d == {n \in DOMAIN ls \cup DOMAIN ex : IF n \in DOMAIN ex THEN ex[n] # "" ELSE TRUE}
  IN [n \in d |-> IF n \in DOMAIN ex THEN ex[n] ELSE ls[n]]

Good(doc) == \A i \in 1..Len(doc) : doc[i].k # "bad"
Samples(doc, ex) ==
  LET ss == SelectSeq(doc, LAMBDA l : l.k = "sample")
  IN [i \in 1..Len(ss) |-> [ls |-> With(ss[i].ls, ex), v |-> ss[i].v, ts |-> ss[i].ts]]
Expected(doc, ex) == IF Good(doc) THEN [ok |-> TRUE, samples |-> Samples(doc, ex)]
                     ELSE [ok |-> FALSE, samples |-> <<>>]

VARIABLES doc, done
Text(d) == [i \in 1..Len(d) |-> d[i].x]
Out(d, e) == PrintT(ToJson([text |-> Text(d), ex |-> Extras[e], exp |-> Expected(d, Extras[e])]))
Init == doc = <<>> /\ done = 0
Extend == /\ done = 0 /\ Len(doc) < MaxLen
          /\ \E i \in 1..Len(Lines) : doc' = Append(doc, Lines[i])
          /\ UNCHANGED done
Walk == /\ doc = <<>> /\ done < Walks /\ done' = done + 1 /\ UNCHANGED doc
Next == Extend \/ Walk
\* every document with every set of additional labels; and longer ones, sampled
Pick(n) == RandomElement(1..n)
RandDoc == CHOOSE d \in {[i \in 1..n |-> Lines[IF Pick(12) = 1 THEN Pick(Len(Lines)) ELSE Pick(25)]] : n \in {2 + Pick(WalkLen)}} : TRUE
Emit == IF done' # done
        THEN \A d \in {RandDoc} : \A e \in {Pick(Len(Extras))} : Out(d, e)
        ELSE \A e \in 1..Len(Extras) : Out(doc', e)

\* on the specification: one sample per sample line, labels of the additional set always win
OneEach == Good(doc) => \A e \in 1..Len(Extras) :
   LET r == Samples(doc, Extras[e])
   IN /\ Len(r) = Cardinality({i \in 1..Len(doc) : doc[i].k = "sample"})
      /\ \A i \in 1..Len(r) : \A n \in DOMAIN Extras[e] :
            IF Extras[e][n] = "" THEN n \notin DOMAIN r[i].ls ELSE r[i].ls[n] = Extras[e][n]
=============================================================================
