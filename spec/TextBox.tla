------------------------------- MODULE TextBox -------------------------------
(* A text box: everything written to it, shown at its end wrapped to its width. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxCols, MaxRows, MaxOps
Narrow == {"a", "b", "c"}
Wide   == {"W", "V"}
Comb   == {"^", "~"}
Ctrl   == {"T", "E", "R"}
NL     == "N"
NStyles == 3
Styles == <<"0", "1", "2">>
Blank == " 0"

VARIABLES spans,      \* what was written: <<text, style>>
          cols, rows, drawn, hist
vars == <<spans, cols, rows, drawn, hist>>

-------------------------------------------------------------------------------
\* the content as a sequence of <<text of a cell, width>>, and newlines <<"N", 0>>
RECURSIVE Groups(_, _)
Groups(t, s) ==
  IF t = <<>> THEN <<>>
  ELSE LET x == t[Len(t)]
           G == Groups(SubSeq(t, 1, Len(t) - 1), s)
       IN  IF x \in Ctrl THEN G
           ELSE IF x = NL THEN Append(G, <<NL, 0, s>>)
           ELSE IF x \in Comb
                THEN IF G = <<>> \/ G[Len(G)][2] = 0 THEN Append(G, <<" " \o x, 1, s>>)
                     ELSE [G EXCEPT ![Len(G)] = <<@[1] \o x, @[2], s>>]
           ELSE Append(G, <<x, IF x \in Wide THEN 2 ELSE 1, s>>)
RECURSIVE Content(_)
Content(S) == IF S = <<>> THEN <<>> ELSE Groups(S[1][1], S[1][2]) \o Content(Tail(S))

\* lines of groups, none wider than n
RECURSIVE Width(_)
Width(l) == IF l = <<>> THEN 0 ELSE l[1][2] + Width(Tail(l))
RECURSIVE Wrap(_, _, _)
Wrap(G, n, line) ==
  IF G = <<>> THEN <<line>>
  ELSE IF G[1][2] = 0 THEN <<line>> \o Wrap(Tail(G), n, <<>>)
  ELSE IF Width(line) + G[1][2] > n THEN <<line>> \o Wrap(Tail(G), n, <<G[1]>>)
  ELSE Wrap(Tail(G), n, Append(line, G[1]))
RECURSIVE Cells(_)
Cells(l) == IF l = <<>> THEN <<>>
            ELSE (IF l[1][2] = 2 THEN <<l[1][1] \o Styles[l[1][3]], "?">> ELSE <<l[1][1] \o Styles[l[1][3]]>>) \o Cells(Tail(l))
Pad(l, n) == [c \in 1..n |-> IF c <= Len(l) THEN l[c] ELSE Blank]

\* what an area of n x m shows
Shown(S, n, m) ==
  IF n = 0 \/ m = 0 THEN <<>>
  ELSE LET L == Wrap(Content(S), n, <<>>)
           from == IF Len(L) > m THEN Len(L) - m ELSE 0
       IN  [r \in 1..m |-> IF from + r <= Len(L) THEN Pad(Cells(L[from + r]), n) ELSE Pad(<<>>, n)]

-------------------------------------------------------------------------------
Chars == Narrow \cup Wide \cup Comb \cup Ctrl \cup {NL}
RandChar(k) == IF RandomElement(1..2) = 1 THEN RandomElement(Narrow) ELSE RandomElement(Chars)
RandText(k) == [i \in 1..RandomElement(IF RandomElement(1..4) = 1 THEN 0..20 ELSE 0..6) |-> RandChar(i)]
\* (a wide character in a single column is left out)
HasWide(S) == \E i \in DOMAIN S : \E j \in DOMAIN S[i][1] : S[i][1][j] \in Wide

Write == \E t \in {RandText(drawn)} : \E s \in {RandomElement(1..NStyles)} :
  /\ cols = 1 => \A j \in DOMAIN t : t[j] \notin Wide
  /\ spans' = Append(spans, <<t, s>>) /\ UNCHANGED <<cols, rows, drawn>>
  /\ hist' = Append(hist, [op |-> "write", t |-> t, s |-> s])
Resize == \E n \in {RandomElement(0..MaxCols)} : \E m \in {RandomElement(0..MaxRows)} :
  /\ n = 1 => ~HasWide(spans)
  /\ cols' = n /\ rows' = m /\ UNCHANGED <<spans, drawn>>
  /\ hist' = Append(hist, [op |-> "resize", cols |-> n, rows |-> m])
Draw == /\ drawn' = drawn + 1 /\ UNCHANGED <<spans, cols, rows>>
        /\ hist' = Append(hist, [op |-> "draw", shown |-> Shown(spans, cols, rows), first |-> drawn = 0])

-------------------------------------------------------------------------------
(* The same, written many times over: an area of MaxRows rows shows nothing   *)
(* before the last MaxRows line breaks, so Enough copies with a line break in  *)
(* each stand for any larger number of them; copies without any visible       *)
(* character leave nothing to show; and a run of single characters is written *)
(* in full.                                                                   *)
Enough == MaxRows + 1
RECURSIVE Times(_, _)
Times(t, n) == IF n = 0 THEN <<>> ELSE <<t>> \o Times(t, n - 1)
Flood == \E kind \in {RandomElement({"lines", "hidden", "cells"})} : \E s \in {RandomElement(1..NStyles)} :
  \E t \in {CASE kind = "lines" -> <<RandomElement(Narrow), RandomElement(Narrow), NL>>
               [] kind = "hidden" -> RandomElement({<<>>, <<"T">>, <<"E", "R">>})
               [] OTHER -> <<RandomElement(Narrow)>>} :
  \E n \in {IF kind = "cells" THEN RandomElement(MaxRows * MaxCols - 20..MaxRows * MaxCols + 20) ELSE RandomElement({110, 1100, 5000})} :
  /\ spans' = spans \o Times(<<t, s>>, CASE kind = "lines" -> Enough [] kind = "hidden" -> 0 [] OTHER -> n)
  /\ UNCHANGED <<cols, rows, drawn>>
  /\ hist' = Append(hist, [op |-> "flood", kind |-> kind, t |-> t, s |-> s, n |-> n])
FloodNext == /\ Len(hist) < MaxOps
             /\ CASE Len(hist) = 0 -> \E n \in {RandomElement({MaxCols, MaxCols - 1})} :
                                         /\ cols' = n /\ rows' = MaxRows /\ UNCHANGED <<spans, drawn>>
                                         /\ hist' = Append(hist, [op |-> "resize", cols |-> n, rows |-> MaxRows])
                  [] Len(hist) % 3 = 0 -> Draw
                  [] Len(hist) = 4 -> Flood
                  [] OTHER -> Write
\* more copies than enough show the same
EnoughLaw == (hist # <<>> /\ hist[Len(hist)].op = "flood" /\ hist[Len(hist)].kind = "lines") =>
  LET h == hist[Len(hist)] IN Shown(spans, cols, rows) = Shown(Append(spans, <<h.t, h.s>>), cols, rows)

Init == spans = <<>> /\ cols = 0 /\ rows = 0 /\ drawn = 0 /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E k \in {RandomElement(1..9)} : CASE k <= 3 -> Write [] k <= 5 -> Resize [] OTHER -> Draw
Emit == Len(hist') = MaxOps => PrintT(ToJson([ops |-> hist']))

-------------------------------------------------------------------------------
\* laws of the wrapping
RECURSIVE Flat(_)
Flat(L) == IF L = <<>> THEN <<>> ELSE L[1] \o Flat(Tail(L))
NoBreak(G) == SelectSeq(G, LAMBDA g : g[2] # 0)
Laws == (cols > 1 \/ (cols = 1 /\ ~HasWide(spans))) =>
  LET G == Content(spans)
      L == Wrap(G, cols, <<>>)
  IN  /\ Flat(L) = NoBreak(G)                                  \* nothing lost or moved
      /\ \A i \in DOMAIN L : Width(L[i]) <= cols               \* nothing too wide
      \* a line is only broken when the next character does not fit, or at a newline
      /\ Len(L) <= 1 + Len(G)
===============================================================================
