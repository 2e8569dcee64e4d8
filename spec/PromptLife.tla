------------------------------ MODULE PromptLife ------------------------------
(* The life of the interactive prompt: it is set up and placed in either order,
   asks for lines, hands every entered line to its handler, shows what the
   handler returns, and asks again, until it is told to stop or cancelled.
   Keys typed while it is not asking wait for it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Room       \* keys that may wait

VARIABLES ran,        \* set up
          placed,     \* given an area
          ctx,        \* "live" or "cancelled"
          ended,      \* the handler asked to stop
          held,       \* the handler is busy
          line, cur,  \* the line being edited, and the cursor in it
          waiting,    \* keys not yet seen by the prompt
          handled,    \* lines handed over
          shutdowns,  \* calls of the shutdown function
          rows,       \* the rows shown since the area was last changed, without the line being edited
          sure,       \* whether the place of the current line is known
          after,      \* what the busy handler will answer
          habit,      \* of who types: "any" line, or the "same" again and again
          hist
vars == <<ran, placed, ctx, ended, held, line, cur, waiting, handled, shutdowns, rows, sure, after, hist>>
allvars == <<vars, habit>>

Chars == {"a", "b", "z", "é", "(", "日"}
Edits == {"left", "right", "back", "home", "end"}
Prefix == ">"

(* What the prompt does when it gets the waiting keys, as a function on records. *)
S == [line |-> line, cur |-> cur, handled |-> handled, rows |-> rows, held |-> held, ended |-> ended, ask |-> TRUE,
      shutdowns |-> shutdowns, sure |-> sure, after |-> after]
RECURSIVE Cat(_)
Cat(l) == IF l = <<>> THEN "" ELSE Head(l) \o Cat(Tail(l))
Row(l) == Prefix \o (IF l = <<>> THEN "" ELSE " " \o Cat(l))

\* (more rows than any area has)
Last(rs) == SubSeq(rs, IF Len(rs) > 40 THEN Len(rs) - 39 ELSE 1, Len(rs))
\* the answer of the handler is shown, and the prompt asks again unless told to stop
Answer(s, a) == [s EXCEPT !.rows = Last(@ \o a.text), !.ended = a.stop, !.held = FALSE, !.line = <<>>, !.cur = 0,
                          !.sure = TRUE, !.shutdowns = @ + (IF a.stop THEN 1 ELSE 0)]
Key(s, k) ==
  CASE k.k \in Chars -> [s EXCEPT !.line = SubSeq(@, 1, s.cur) \o <<k.k>> \o SubSeq(@, s.cur + 1, Len(@)), !.cur = @ + 1]
    [] k.k = "left"  -> [s EXCEPT !.cur = IF @ > 0 THEN @ - 1 ELSE 0]
    [] k.k = "right" -> [s EXCEPT !.cur = IF @ < Len(s.line) THEN @ + 1 ELSE @]
    [] k.k = "home"  -> [s EXCEPT !.cur = 0]
    [] k.k = "end"   -> [s EXCEPT !.cur = Len(s.line)]
    [] k.k = "back"  -> IF s.cur = 0 THEN s
                        ELSE [s EXCEPT !.line = SubSeq(@, 1, s.cur - 1) \o SubSeq(@, s.cur + 1, Len(@)), !.cur = @ - 1]
    [] k.k = "enter" -> LET t == [s EXCEPT !.handled = Append(@, Cat(s.line)),
                                           !.rows = IF s.sure THEN Last(Append(@, Row(s.line))) ELSE @]
                        IN IF k.hold THEN [t EXCEPT !.held = TRUE, !.after = k] ELSE Answer(t, k)
RECURSIVE Feed(_, _)
Feed(s, ks) == IF ks = <<>> \/ s.held \/ s.ended THEN s ELSE Feed(Key(s, Head(ks)), Tail(ks))

Running == ran /\ placed /\ ctx = "live"
\* the prompt takes the keys it can get
Take(s, ks, live) ==
  LET t == IF live THEN Feed(s, ks) ELSE s IN
  /\ line' = t.line /\ cur' = t.cur /\ handled' = t.handled /\ rows' = t.rows /\ held' = t.held /\ ended' = t.ended
  /\ shutdowns' = t.shutdowns /\ sure' = t.sure /\ after' = t.after
  /\ waiting' = IF live /\ ~s.held /\ ~s.ended THEN <<>> ELSE ks
NoTake == UNCHANGED <<line, cur, handled, rows, held, ended, shutdowns, sure, after>>

Log(op) == hist' = Append(hist, op @@
  [handled |-> handled', shutdowns |-> shutdowns', ctx |-> ctx',
   \* what is shown, if it is known: the rows so far and the line being edited
   rows |-> IF ctx' # "live" THEN <<>>
            ELSE IF ran' /\ placed' /\ ~held' /\ ~ended' /\ sure' THEN Append(rows', Row(line')) ELSE rows',
   cur |-> IF ran' /\ placed' /\ ~held' /\ ~ended' /\ sure' /\ ctx' = "live" THEN cur' ELSE 0 - 1,
   curline |-> SubSeq(line', 1, cur')])

(* what a handler answers *)
Many == [i \in 1..600 |-> "answer " \o ToString(i)]
Texts == {<<>>, <<"ok">>, <<"one", "two">>, <<"no such thing">>}
Answers == {[k |-> "enter", text |-> t, stop |-> s, hold |-> h] : t \in Texts, s \in {FALSE, FALSE, TRUE}, h \in BOOLEAN}
RandAnswer(x) == LET a == RandomElement(Answers)
                     b == IF RandomElement(1..4) # 1 \/ habit = "same" THEN [a EXCEPT !.stop = FALSE] ELSE a
                 IN  IF RandomElement(1..25) = 1 THEN [b EXCEPT !.text = Many] ELSE b
RandKey(x) == [k |-> IF RandomElement(1..3) = 1 THEN RandomElement(Edits) ELSE RandomElement(Chars)]
RandChars(n) == [i \in 1..n |-> [k |-> RandomElement(Chars)]]
Long == [i \in 1..40 |-> [k |-> IF i % 3 = 0 THEN "a" ELSE "b"]]   \* (more than may wait)
RandKeys(n) == [i \in 1..n |-> RandKey(i)]
HasEnter == \E i \in DOMAIN waiting : waiting[i].k = "enter"

\* an area: at a column and row of the screen, with columns and rows
Place(b) ==
  LET s == [S EXCEPT !.rows = <<>>, !.sure = ~(ran /\ placed)]
  IN /\ placed' = TRUE /\ Take(s, waiting, ran /\ ctx = "live") /\ UNCHANGED <<ran, ctx>>
     /\ Log([op |-> "place", box |-> b])
Setup(ini) ==
  /\ ~ran /\ ctx = "live" /\ ran' = TRUE
  /\ Take(S, ini, placed) /\ UNCHANGED <<placed, ctx>>
  /\ Log([op |-> "run", initial |-> ini])
Type(ks) ==
  /\ ran /\ ctx = "live" /\ ~HasEnter
  /\ ~(Running /\ ~held /\ ~ended) => Len(waiting) + Len(ks) <= Room
  /\ Len(line) + Len(waiting) + Len(ks) <= 24
  /\ Take(S, waiting \o ks, Running) /\ UNCHANGED <<ran, placed, ctx>>
  /\ Log([op |-> "type", keys |-> ks])
Release ==
  /\ held /\ ctx = "live"
  /\ LET s == Answer(S, after) IN Take(s, waiting, TRUE)
  /\ UNCHANGED <<ran, placed, ctx>>
  /\ Log([op |-> "release"])
Cancel ==
  /\ ran /\ ctx = "live" /\ ~held /\ ctx' = "cancelled"
  /\ NoTake /\ UNCHANGED <<ran, placed, waiting>>
  /\ Log([op |-> "cancel"])

Init == /\ ran = FALSE /\ placed = FALSE /\ ctx = "live" /\ ended = FALSE /\ held = FALSE /\ line = <<>> /\ cur = 0
        /\ waiting = <<>> /\ handled = <<>> /\ shutdowns = 0 /\ rows = <<>> /\ sure = TRUE
        /\ after = [k |-> "none"] /\ hist = <<>> /\ habit = "none"
\* (a behaviour goes on for a step after it was cancelled)
Full(h) == Len(h) = MaxOps \/ (Len(h) > 1 /\ h[Len(h) - 1].op = "cancel")
More == ~Full(hist)
Offset(x) == RandomElement({0, 1, 2, 3, IF RandomElement(1..4) = 1 THEN RandomElement({40, x}) ELSE 1})
RandBox(x) == [col |-> Offset(300), row |-> Offset(1000), cols |-> RandomElement(56..70), rows |-> RandomElement({7, 9, 12})]
RandNext ==
  /\ More
  /\ \E h \in {IF habit = "none" THEN RandomElement({"any", "any", "same"}) ELSE habit} : habit' = h
  /\ \E d \in {RandomElement(1..12)} :
     \/ d = 1 /\ \E b \in {RandBox(d)} : Place(b)
     \/ ctx = "cancelled" /\ \E b \in {RandBox(d)} : Place(b)
     \/ ~placed /\ ran /\ d \in 2..3 /\ \E b \in {RandBox(d)} : Place(b)
     \/ ~ran /\ d > 3 /\ \E n \in {RandomElement({0, 0, 1, 5, 12, 40})} : \E a \in {RandAnswer(d)} :
          \E ini \in {IF n = 0 /\ d > 7 THEN <<>> ELSE (IF n = 40 THEN Long ELSE RandChars(n)) \o <<a>>} : Setup(ini)
     \/ ran /\ d \in 3..6 /\ habit # "same" /\ \E n \in {RandomElement(1..9)} : \E ks \in {RandKeys(n)} : Type(ks)
     \/ ran /\ d \in 7..10 /\ \E n \in {RandomElement(0..4)} : \E a \in {RandAnswer(d)} :
          \E ks \in {(IF habit = "same" THEN <<[k |-> "z"], [k |-> "é"]>> ELSE RandChars(n)) \o <<a>>} : Type(ks)
     \/ held /\ d > 7 /\ Release
     \/ d = 12 /\ (Len(hist) > 3 \/ ~placed) /\ Cancel
     \/ UNCHANGED vars

-------------------------------------------------------------------------------
\* lines are handled once, in order: what was handled never changes
Grows == [][Len(handled') >= Len(handled) /\ SubSeq(handled', 1, Len(handled)) = handled]_vars
StopsOnce == shutdowns = (IF ended THEN 1 ELSE 0)
NoneAfterStop == [][ended => handled' = handled]_vars
NoneBefore == handled # <<>> => ran /\ placed
NoneAfterCancel == [][ctx = "cancelled" => handled' = handled]_vars
Emit == Full(hist') /\ ~Full(hist) => PrintT(ToJson([ops |-> hist']))
===============================================================================
