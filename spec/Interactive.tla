----------------------------- MODULE Interactive -----------------------------
(* A session of the command with a screen: its targets are scraped again and   *)
(* again, lines are entered, and the screen shows the key and the graph of the  *)
(* results of the query in force, above what was entered and answered.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json

CONSTANTS MaxOps

-------------------------------------------------------------------------------
(* What the targets serve: the value of each series, 0 if it is not there.      *)
Ids == 1..8
Target == <<0, 0, 1, 1, 1, 0, 1, 0>>
Name == <<"mem_used", "mem_used", "mem_used", "mem_used", "net_total", "zeta", "mem_free", "disk_used">>   \* (the last has its zone in another label)
Zone == <<"x", "y", "z", "w", "", "x", "y", "x">>
Values == <<{10, 14, 20}, {40, 44, 50}, {70, 80, 90}, {100, 110, 160}, {25, 30, 60, 90}, {5, 15}, {130, 200, 210}, {60, 125}>>
MemUsed == 1..4
None == [i \in Ids |-> 0]

(* Queries, and their results where st gives the last value of every series: a  *)
(* set of titles with values; the third tells apart those of the same title.                                                   *)
Q(n) == CASE n = 1 -> "sum by (zone) (mem_used)"
          [] n = 2 -> "sum(mem_used)"
          [] n = 3 -> "net_total"
          [] n = 4 -> "sum by (zone) (mem_used > 45)"
          [] n = 5 -> "sum by (zone)(zeta)"
          [] n = 6 -> "6 * 7"
          [] n = 7 -> "nosuch"
          [] n = 8 -> "mem_used{zone=\"x\"}"
          [] n = 9 -> "sum by (zone, __name__) ({zone=~\"x|y\",__name__!=\"zeta\"})"
          [] n = 10 -> "zeta"
          [] n = 11 -> "ze"
          [] n = 12 -> "quit"
          [] n = 13 -> "min(mem_used) - mem_free"     \* (has no result: the labels differ)
          [] n = 14 -> "mem_used[5m]"                  \* cannot be plotted
          [] n = 15 -> "'text'"                        \* neither
          [] n = 16 -> "max by (zone) ({__name__=~\"mem_.*\"})"
          [] n = 17 -> "q"
          [] n = 18 -> "-net_total"
          [] n = 20 -> "net_total > 45"
          [] n = 21 -> "sum by (zone) (mem_free)"
          [] n = 22 -> "sum by (kind) (disk_used)"
          [] n = 19 -> "sum by (zone) (mem_used) or sum by (kind) (disk_used)"
Plottable(n) == n \notin {14, 15}
Simple(sc) == ((1..9) \cup {13, 16, 17, 18, 19, 20, 21, 22}) \ (IF sc = 0 THEN {} ELSE {6}) \* (45 is scaled too, 42 is not)
Unplottable == {14, 15}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN p[2] + Sum(S \ {p})
There(st, ids) == {i \in ids : st[i] > 0}
Result(n, st) ==
  CASE n = 1 -> {<<Zone[i], st[i], 0>> : i \in There(st, MemUsed)}
    [] n = 2 -> IF There(st, MemUsed) = {} THEN {} ELSE {<<"", Sum({<<i, st[i]>> : i \in MemUsed}), 0>>}
    [] n = 3 -> {<<"net_total, @1", st[i], 0>> : i \in There(st, {5})}
    [] n = 4 -> {<<Zone[i], st[i], 0>> : i \in {j \in MemUsed : st[j] > 45}}
    [] n = 5 -> {<<"x", st[i], 0>> : i \in There(st, {6})}
    [] n = 6 -> {<<"", 42, 0>>}
    [] n = 8 -> {<<"mem_used, @0, x", st[i], 0>> : i \in There(st, {1})}
    [] n = 9 -> {<<Name[i] \o ", " \o Zone[i], st[i], 0>> : i \in There(st, {1, 2, 7})}
    [] n = 10 -> {<<"zeta, @0, x", st[i], 0>> : i \in There(st, {6})}
    [] n = 16 -> {<<z, Max({st[i] : i \in {j \in There(st, MemUsed \cup {7}) : Zone[j] = z}}), 0>> :
                    z \in {Zone[i] : i \in There(st, MemUsed \cup {7})}}
    [] n = 18 -> {<<"@1", -st[i], 0>> : i \in There(st, {5})}
    [] n = 21 -> {<<"y", st[7], 0>> : i \in There(st, {7})}
    [] n = 22 -> {<<"x", st[8], 0>> : i \in There(st, {8})}
    [] n = 20 -> {<<"net_total, @1", st[5], 0>> : i \in {j \in {5} : st[j] > 45}}
    [] n = 19 -> {<<Zone[i], st[i], IF i = 8 THEN 1 ELSE 0>> : i \in There(st, MemUsed \cup {8})}
    [] OTHER -> {}

-------------------------------------------------------------------------------
VARIABLES
  doc, bad,   \* what the targets serve, and those that fail
  last,       \* the last value scraped of every series
  past,       \* all that last has been
  window,     \* in seconds: shorter or longer than the session
  scale,      \* of the values
  entered,    \* the lines entered, for recalling them
  query,      \* in force, or 0
  lo, hi,     \* of what was plotted since the query was set; hi < lo if nothing was
  screen,     \* what is plotted
  rows, sure, \* what is known to be shown of the conversation
  size, done, hist
vars == <<doc, bad, last, past, window, scale, entered, query, lo, hi, screen, rows, sure, size, done, hist>>

Top == 9999
Nothing == [titles |-> {}, lo |-> Top, hi |-> -Top, plotted |-> FALSE, always |-> FALSE, kept |-> FALSE]

\* the states in the window
Window(st, all) == IF window' > 1 THEN {all[i] : i \in DOMAIN all} ELSE {st}
\* the results in the window are reported; from the axes so far. (Those of before
\* leave the window, but were in it at first.)
Report(n, st, all, before, l, h) ==
  LET R == UNION {Result(n, s) : s \in Window(st, all)}
      vs == {r[2] : r \in R \cup UNION {Result(n, s) : s \in before}}
      nl == IF vs = {} THEN l ELSE Min(vs \cup {l})
      nh == IF vs = {} THEN h ELSE Max(vs \cup {h})
  IN  IF n = 0 \/ ~Plottable(n) \/ all = <<>>
      THEN lo' = l /\ hi' = h /\ UNCHANGED screen
      ELSE lo' = nl /\ hi' = nh /\ screen' = [titles |-> {<<r[1], r[3]>> : r \in R}, lo |-> nl, hi |-> nh, plotted |-> TRUE, always |-> n = 6, kept |-> R # {} /\ LET now == {r[2] : r \in R} IN nl < Min(now) \/ nh > Max(now)]

\* how wide the key is: its longest title, but a fifth of the screen at most
Length(t) == CASE t = "net_total, @1" -> 41 [] t = "mem_used, @0, x" -> 43 [] t = "zeta, @0, x" -> 39 [] t = "@1" -> 30 [] OTHER -> Len(t)
KeyWidth(sc, cols) ==
  IF ~sc.plotted THEN 10
  ELSE LET want == IF sc.titles = {} THEN 1 ELSE Max({Length(t[1]) : t \in sc.titles}) + 3
       IN  Min({want, (cols * 20) \div 100})

Log(op) == hist' = Append(hist, op @@
  [stale |-> bad' # {} \/ (query' > 0 /\ ~Plottable(query')), rows |-> IF sure' /\ done' = "" THEN Append(rows', ">>>") ELSE rows', sure |-> sure', done |-> done',
   titles |-> SetToSeq({t[1] : t \in screen'.titles}), again |-> SetToSeq({t[1] : t \in {u \in screen'.titles : u[2] = 1 /\ <<u[1], 0>> \in screen'.titles}}), plotted |-> screen'.plotted, always |-> screen'.always, kept |-> screen'.kept,
   lo |-> IF screen'.titles = {} THEN 0 ELSE screen'.lo, hi |-> IF screen'.titles = {} THEN 0 ELSE screen'.hi,
   width |-> KeyWidth(screen', size'.cols), cols |-> size'.cols, lines |-> size'.rows])

\* a line is entered: what is said about it
Said(text, answers) == rows' = (IF sure THEN Append(rows, IF text = "" THEN ">>>" ELSE ">>> " \o text) ELSE rows) \o answers
Quoted(n) == CASE n = 8 -> "mem_used{zone=\\\"x\\\"}"
               [] n = 9 -> "sum by (zone, __name__) ({zone=~\\\"x|y\\\",__name__!=\\\"zeta\\\"})"
               [] n = 16 -> "max by (zone) ({__name__=~\\\"mem_.*\\\"})"
               [] OTHER -> Q(n)
SetQuery(n) ==
  /\ query' = n
  /\ UNCHANGED <<doc, bad, window, scale, size, done>>
  \* (results come with the next scrape that succeeds)
  /\ IF bad = {} THEN Report(n, last', past', {}, Top, -Top) ELSE lo' = Top /\ hi' = -Top /\ UNCHANGED screen
  /\ sure' = TRUE
Wrong == {"sum(", "mem_used{", "1 +", ")", "mem_used by", "sum by (zone", "é"}
Commands == {":help", ":", ":q!", ":Quit", ":quit now", ": quit"}
\* lines: of a query, and others
Line(n) == [n |-> n, text |-> Q(n)]
Other(t) == [n |-> 0, text |-> t]
Same == UNCHANGED <<doc, bad, last, past, window, scale, query, lo, hi, screen, size, done>> /\ sure' = TRUE
\* what entering a line does
Entered(l) ==
  /\ entered' = IF l.text = "" THEN entered ELSE Append(entered, l)
  /\ CASE l.n > 0 ->
           /\ UNCHANGED <<last, past>>
           /\ SetQuery(l.n)
           /\ Said(l.text, <<"Plotting \"" \o Quoted(l.n) \o "\"...">>
                         \o (IF l.n = 12 THEN <<"(hint: use \":quit\" to quit)">> ELSE <<>>))
       [] l.text \in Wrong -> Same /\ Said(l.text, <<"Unable to set query: *">>)
       [] l.text \in Commands -> Same /\ Said(l.text, <<"no known command \"" \o l.text \o "\" (hint: try \":quit\")">>)
       [] OTHER -> Same /\ Said("", <<>>)
Enter(l) == Entered(l) /\ Log([op |-> "enter", line |-> l.text])
\* a line is recalled, going back in all there were
Recall(k) ==
  /\ Entered(entered[Len(entered) + 1 - k])
  /\ Log([op |-> "recall", back |-> k, line |-> entered[Len(entered) + 1 - k].text])
\* a line is given up, and with it those to recall
Abort(t) == /\ Same /\ Said(t, <<>>) /\ entered' = <<>> /\ Log([op |-> "abort", line |-> t])
\* the beginning of a name is completed, if there is anything to complete it to
Complete ==
  LET n == IF \E i \in DOMAIN past : past[i][6] > 0 THEN 10 ELSE 11
  IN  /\ UNCHANGED <<last, past>> /\ SetQuery(n) /\ Said(Q(n), <<"Plotting \"" \o Q(n) \o "\"...">>)
      /\ entered' = Append(entered, Line(n))
      /\ Log([op |-> "complete", line |-> "ze", offer |-> IF n = 10 THEN "zeta" ELSE ""])
\* the targets serve something else; if all of them answer, it is scraped
Merge(d, st) == [i \in Ids |-> IF d[i] > 0 THEN d[i] ELSE st[i]]
Serve(d, b) ==
  /\ doc' = d /\ bad' = b
  /\ IF b = {} THEN last' = Merge(d, last) /\ past' = (IF past # <<>> /\ past[Len(past)] = Merge(d, last) THEN past ELSE Append(past, Merge(d, last)))
               ELSE UNCHANGED <<last, past>>
  /\ UNCHANGED <<window, scale, entered, query, rows, sure, size, done>>
  /\ IF b = {} THEN Report(query, last', past', {last}, lo, hi) ELSE UNCHANGED <<lo, hi, screen>>
  /\ Log([op |-> "serve", doc |-> d, bad |-> SetToSeq(b)])
Resize(s) ==
  /\ size' = s /\ s # size /\ rows' = <<>> /\ sure' = FALSE
  /\ UNCHANGED <<doc, bad, last, past, window, scale, entered, query, lo, hi, screen, done>>
  /\ Log([op |-> "resize"])
Quit(t) ==
  /\ done' = "ok" /\ rows' = <<>> /\ UNCHANGED <<doc, bad, last, past, window, scale, entered, query, lo, hi, screen, sure, size>>
  /\ Log([op |-> "quit", line |-> t])

\* the command is started with a query (0: none, -1: one that is wrong)
Start(d, b, s, w, c, n) ==
  /\ doc' = d /\ bad' = b /\ size' = s /\ window' = w /\ scale' = c
  /\ entered' = IF n = 0 THEN <<>> ELSE IF n > 0 THEN <<Line(n)>> ELSE <<Other("sum(")>>
  /\ IF b # {} THEN /\ done' = "error" /\ UNCHANGED <<last, past, query, lo, hi, screen, rows, sure>>
     ELSE /\ done' = "" /\ last' = d /\ past' = <<d>> /\ sure' = TRUE
          /\ query' = (IF n > 0 THEN n ELSE 0)
          /\ Report(query', d, <<d>>, {}, Top, -Top)
          /\ rows' = CASE n = 0 -> <<">>>">>
                       [] n > 0 -> <<">>> " \o Q(n), "Plotting \"" \o Quoted(n) \o "\"...">>
                       [] OTHER -> <<">>> sum(", "Unable to set query: *">>
  /\ Log([op |-> "start", doc |-> d, bad |-> SetToSeq(b), window |-> w, scale |-> c, line |-> IF n = 0 THEN "" ELSE IF n > 0 THEN Q(n) ELSE "sum("])

Init == /\ doc = None /\ bad = {} /\ last = None /\ past = <<>> /\ window = 1 /\ scale = 0 /\ entered = <<>> /\ query = 0 /\ lo = Top /\ hi = -Top
        /\ screen = Nothing /\ rows = <<>> /\ sure = FALSE /\ size = [cols |-> 0, rows |-> 0] /\ done = "new" /\ hist = <<>>

RandDoc(few) == [i \in Ids |-> IF RandomElement(1..5) <= (IF i = 6 THEN 1 ELSE few) THEN RandomElement(Values[i]) ELSE 0]
RandSize(x) == [cols |-> RandomElement({90, 110, 160}), rows |-> RandomElement({34, 44, 60})]
RandBad(x) == IF RandomElement(1..6) = 1 THEN RandomElement({{0}, {1}, {0, 1}}) ELSE {}
\* sessions with few queries, while much changes
Steady == scale = 6 /\ query \in {3, 20}
More == Len(hist) < MaxOps /\ done = ""
Next ==
  \/ /\ done = "new"
     /\ \E d \in {RandDoc(3)} : \E b \in {IF RandomElement(1..12) = 1 THEN {RandomElement({0, 1})} ELSE {}} : \E s \in {RandSize(1)} :
        \E c \in {RandomElement({-3, 0, 3, 5, 6})} : \E w \in {IF c = 6 THEN 1 ELSE RandomElement({1, 1, 1, 60, 60, 3600})} :
        \E n \in {IF c = 6 THEN RandomElement({3, 20}) ELSE RandomElement({0, 0, 1, 2, 3, 16, -1})} : Start(d, b, s, w, c, n)
  \/ /\ More
     /\ \E c \in {IF Len(hist) = MaxOps - 1 THEN 30 ELSE RandomElement(IF Steady THEN {4, 9, 10} \cup (31..40) ELSE 1..24)} :
        \/ c \in 1..4 /\ \E n \in {RandomElement(IF Steady THEN {3, 20} ELSE IF c = 4 THEN {5, 21, 22} ELSE Simple(scale))} : Enter(Line(n))
        \/ c = 5 /\ \E n \in {RandomElement(Unplottable \cup {12})} : Enter(Line(n))
        \/ c = 6 /\ query > 0 /\ Enter(Line(query))
        \/ c \in 7..8 /\ \E t \in {RandomElement(Wrong)} : Enter(Other(t))
        \/ c = 9 /\ \E t \in {RandomElement(Commands)} : Enter(Other(t))
        \/ c = 10 /\ Enter(Other(""))
        \/ c = 11 /\ Complete
        \/ c \in (12..18) \cup (31..40) /\ \E d \in {RandDoc(4)} : \E b \in {IF Steady THEN {} ELSE RandBad(c)} : Serve(d, b)
        \/ c = 19 /\ \E s \in {RandSize(1)} : Resize(s)
        \/ c \in {20, 30} /\ (Len(hist) > 3) /\ \E t \in {RandomElement({":quit", ":q"})} : Quit(t)
        \/ c \in 21..22 /\ entered # <<>> /\ \E k \in {RandomElement(1..Min({3, Len(entered)}))} : Recall(k)
        \/ c = 23 /\ \E t \in {RandomElement({"", "sum(", "mem_us", ":q", "net_total"})} : Abort(t)
        \/ UNCHANGED vars

Ended == done \in {"ok", "error"}
Emit == (done' \in {"ok", "error"}) /\ ~Ended => PrintT(ToJson([ops |-> hist', window |-> window', scale |-> scale']))

\* what is plotted is within the axes, which never shrink until a query is set
InAxes == screen.plotted /\ screen.titles # {} => screen.lo <= screen.hi /\ (Plottable(query) /\ bad = {} => lo <= screen.lo /\ screen.hi <= hi)
Grows == [][hist' # hist /\ hist'[Len(hist')].op = "serve" /\ lo < Top /\ lo' # Top => lo' <= lo /\ hi' >= hi]_vars
\* whatever goes wrong leaves the plot alone
FailuresAreSilent == [][bad' # {} /\ bad' # bad => UNCHANGED <<last, past, screen>>]_vars
Shown == \A i \in DOMAIN past : \A k \in Ids : past[i][k] > 0 => last[k] > 0
===============================================================================
