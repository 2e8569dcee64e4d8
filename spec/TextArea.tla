------------------------------- MODULE TextArea -------------------------------
(* The prompt's text area: a small terminal of cols x rows cells with a cursor.
   A cell is the text of its character with its combining marks, followed by
   the number of its style; "?" is a cell whose content is unobservable (the
   right half of a wide character) and "_" one never written.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxCols, MaxRows, MaxOps, MinSize
Narrow == {"a", "b", "c"}     \* one column
Wide   == {"W", "V"}          \* two columns
Comb   == {"^", "~"}          \* combining marks
Ctrl   == {"T", "E", "R"}     \* control characters
NL     == "N"
Styles == <<"0", "1", "2">>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

VARIABLES cols, rows, buf, row, col, sty, lost, hist
\* the cursor is at 0-based (row, col); col = cols after writing up to the end of a line
vars == <<cols, rows, buf, row, col, sty, lost, hist>>

-------------------------------------------------------------------------------
\* the area as a value, so that texts can be folded over it
A == [cols |-> cols, rows |-> rows, buf |-> buf, row |-> row, col |-> col]

Blank == " 0"
BlankRow(n) == [c \in 1..n |-> Blank]
FreshRow(n) == [c \in 1..n |-> "_"]

\* the cells (0-based) of region(r, c) become blank
Clear(a, Region(_, _)) == [a EXCEPT !.buf = [r \in 1..a.rows |-> [c \in 1..a.cols |->
                             IF Region(r - 1, c - 1) THEN Blank ELSE a.buf[r][c]]]]
ShiftUp(a) == [a EXCEPT !.buf = [r \in 1..a.rows |-> IF r < a.rows THEN a.buf[r + 1] ELSE BlankRow(a.cols)]]
ShiftDown(a) == [a EXCEPT !.buf = [r \in 1..a.rows |-> IF r > 1 THEN a.buf[r - 1] ELSE BlankRow(a.cols)]]

NewLine(a) ==
  LET b == Clear(a, LAMBDA r, c : r = a.row /\ c >= a.col)
  IN  IF a.row + 1 < a.rows THEN [b EXCEPT !.row = a.row + 1, !.col = 0]
                            ELSE [ShiftUp(b) EXCEPT !.col = 0]

\* text t of width w in style s at the cursor
Put(a, t, w, s) ==
  LET b == IF a.cols - a.col < w THEN NewLine(a) ELSE a
  IN  [b EXCEPT !.buf[b.row + 1] = [c \in 1..b.cols |->
                  IF c = b.col + 1 THEN t \o s
                  ELSE IF w = 2 /\ c = b.col + 2 THEN "?" ELSE b.buf[b.row + 1][c]],
                !.col = b.col + w]

\* a text is a sequence of characters; a mark joins the character before it in
\* the same text, or gets a blank to sit on
RECURSIVE Groups(_)
Groups(t) ==   \* <<text, width>>, or <<"N", 0>> for a newline
  IF t = <<>> THEN <<>>
  ELSE LET pre == SubSeq(t, 1, Len(t) - 1)
           x == t[Len(t)]
           G == Groups(pre)
       IN  IF x \in Ctrl THEN G
           ELSE IF x = NL THEN Append(G, <<NL, 0>>)
           ELSE IF x \in Comb
                THEN IF G = <<>> \/ G[Len(G)][2] = 0 THEN Append(G, <<" " \o x, 1>>)
                     ELSE [G EXCEPT ![Len(G)] = <<@[1] \o x, @[2]>>]
           ELSE Append(G, <<x, IF x \in Wide THEN 2 ELSE 1>>)
RECURSIVE WriteGroups(_, _, _)
WriteGroups(a, G, s) ==
  IF G = <<>> THEN a
  ELSE WriteGroups(IF G[1][2] = 0 THEN NewLine(a) ELSE Put(a, G[1][1], G[1][2], s), Tail(G), s)
Write(a, t, s) == WriteGroups(a, Groups(t), s)

Move(a, r, c) == [a EXCEPT !.row = Max(0, Min(r, a.rows - 1)), !.col = Max(0, Min(c, a.cols - 1))]

-------------------------------------------------------------------------------
Set(a) == /\ cols' = a.cols /\ rows' = a.rows /\ buf' = a.buf /\ row' = a.row /\ col' = a.col
Log(op, x, y, t) == hist' = Append(hist, [op |-> op, x |-> x, y |-> y, t |-> t,
       buf |-> buf', row |-> row', col |-> col', lost |-> lost'])
Do(a, op, x, y, t) == Set(a) /\ UNCHANGED <<sty, lost>> /\ Log(op, x, y, t)

Chars == Narrow \cup Wide \cup Comb \cup Ctrl \cup {NL}
RandChar(k) == IF cols = 1 THEN RandomElement(Narrow \cup Comb \cup Ctrl \cup {NL})
               ELSE IF RandomElement(1..3) = 1 THEN RandomElement(Narrow) ELSE RandomElement(Chars)
RandText(k) == [i \in 1..RandomElement(IF RandomElement(1..5) = 1 THEN 0..18 ELSE 0..5) |-> RandChar(i)]

WriteText == \E t \in {RandText(col)} : Do(Write(A, t, Styles[sty]), "write", 0, 0, t)
RawNewline == Do(NewLine(A), "newline", 0, 0, <<>>)
SetStyle == \E s \in {RandomElement(1..Len(Styles))} :
              /\ sty' = s /\ UNCHANGED <<cols, rows, buf, row, col, lost>> /\ Log("style", s, 0, <<>>)
Pending == col = cols
Forward  == \E n \in {RandomElement(-2..4)} : (Pending => n # 0) /\
              Do([A EXCEPT !.col = IF n < 0 THEN Max(0, @ + n) ELSE Min(@ + n, cols - 1)], "forward", n, 0, <<>>)
Backward == \E n \in {RandomElement(-2..4)} : (Pending => n # 0) /\
              Do([A EXCEPT !.col = IF n < 0 THEN Min(@ - n, cols - 1) ELSE Max(0, @ - n)], "backward", n, 0, <<>>)
Up   == \E n \in {RandomElement(-2..4)} : Do([A EXCEPT !.row = Max(0, Min(@ - n, rows - 1))], "up", n, 0, <<>>)
Down == \E n \in {RandomElement(-2..4)} : Do([A EXCEPT !.row = Max(0, Min(@ + n, rows - 1))], "down", n, 0, <<>>)
GoTo == \E r \in {RandomElement(-1..rows)} : \E c \in {RandomElement(-1..cols)} :
          Do(Move(A, r, c), "goto", r, c, <<>>)
Erase == Do(Clear(A, LAMBDA r, c : TRUE), "erase", 0, 0, <<>>)
EraseUp == Do(Clear(A, LAMBDA r, c : r < row \/ (r = row /\ c <= col)), "eraseup", 0, 0, <<>>)
EraseDown == Do(Clear(A, LAMBDA r, c : r > row \/ (r = row /\ c >= col)), "erasedown", 0, 0, <<>>)
EraseStart == Do(Clear(A, LAMBDA r, c : r = row /\ c <= col), "erasestart", 0, 0, <<>>)
EraseEnd == Do(Clear(A, LAMBDA r, c : r = row /\ c >= col), "eraseend", 0, 0, <<>>)
EraseLine == Do(Clear(A, LAMBDA r, c : r = row), "eraseline", 0, 0, <<>>)
ScrollDown == Do(IF row < rows - 1 THEN [A EXCEPT !.row = @ + 1] ELSE ShiftUp(A), "scrolldown", 0, 0, <<>>)
ScrollUp == Do(IF row > 0 THEN [A EXCEPT !.row = @ - 1] ELSE ShiftDown(A), "scrollup", 0, 0, <<>>)

WideChar(x) == x # "?" /\ x # "_" /\ SubSeq(x, 1, 1) \in Wide
\* what is left of the old content stays where it is; if the cursor was outside
\* of the new size, it is somewhere inside until it is moved
Resize == \E c \in {RandomElement(MinSize..MaxCols)} : \E r \in {RandomElement(MinSize..MaxRows)} :
  /\ cols' = c /\ rows' = r
  /\ buf' = [i \in 1..r |-> [j \in 1..c |->
       IF i <= rows /\ j <= cols
       THEN IF j = c /\ j < cols /\ WideChar(buf[i][j]) THEN "?" ELSE buf[i][j]
       ELSE "_"]]
  /\ lost' = (lost \/ row >= r \/ col > c)
  /\ UNCHANGED <<row, col, sty>>
  /\ Log("resize", c, r, <<>>)
Recover == \E r \in {RandomElement(0..rows - 1)} : \E c \in {RandomElement(0..cols - 1)} :
  /\ lost' = FALSE /\ Set([A EXCEPT !.row = r, !.col = c]) /\ UNCHANGED sty /\ Log("goto", r, c, <<>>)

Init == /\ cols \in MinSize..MaxCols /\ rows \in MinSize..MaxRows
        /\ buf = [r \in 1..rows |-> FreshRow(cols)] /\ row = 0 /\ col = 0 /\ sty = 1 /\ lost = FALSE
        /\ hist = <<[op |-> "resize", x |-> cols, y |-> rows, t |-> <<>>, buf |-> buf, row |-> 0, col |-> 0, lost |-> FALSE]>>
Step(k) ==
  CASE k <= 4 -> WriteText [] k = 5 -> RawNewline [] k = 6 -> SetStyle [] k = 7 -> Forward [] k = 8 -> Backward
    [] k = 9 -> Up [] k = 10 -> Down [] k = 11 -> GoTo [] k = 12 -> Erase [] k = 13 -> EraseUp [] k = 14 -> EraseDown
    [] k = 15 -> EraseStart [] k = 16 -> EraseEnd [] k = 17 -> EraseLine [] k = 18 -> ScrollDown [] k = 19 -> ScrollUp
    [] OTHER -> Resize
Next == /\ Len(hist) < MaxOps
        /\ IF lost THEN Recover ELSE \E k \in {RandomElement(1..20)} : Step(k)

\* The same operations on areas down to no cell at all: here only the size is
\* known, and that whatever is drawn stays inside of it.
AnyOp(op) == \E x \in {RandomElement(-3..5)} : \E y \in {RandomElement(-3..5)} :
  /\ UNCHANGED <<cols, rows, buf, row, col, sty, lost>>
  /\ Log(op, x, y, IF op = "write" THEN [i \in 1..RandomElement(0..7) |-> RandomElement(Chars)] ELSE <<>>)
AnyStyle == \E s \in {RandomElement(1..Len(Styles))} : UNCHANGED <<cols, rows, buf, row, col, sty, lost>> /\ Log("style", s, 0, <<>>)
AnyResize == /\ cols' \in {RandomElement(MinSize..MaxCols)} /\ rows' \in {RandomElement(MinSize..MaxRows)}
             /\ UNCHANGED <<buf, row, col, sty, lost>> /\ Log("resize", cols', rows', <<>>)
Plain == {"newline", "forward", "backward", "up", "down", "goto", "erase", "eraseup", "erasedown", "erasestart", "eraseend",
          "eraseline", "scrolldown", "scrollup"}
AnyNext == /\ Len(hist) < MaxOps
           /\ \E k \in {RandomElement(1..28)} :
                CASE k <= 14 -> AnyOp(RandomElement(Plain)) [] k <= 22 -> AnyOp("write")
                  [] k <= 27 -> AnyResize [] OTHER -> AnyStyle

-------------------------------------------------------------------------------
InArea == lost \/ (row \in 0..rows - 1 /\ col \in 0..cols)
Shape == Len(buf) = rows /\ \A r \in 1..rows : Len(buf[r]) = cols
\* a wide character always has its right half's cell in the area
Whole == \A r \in 1..rows : cols > 1 => ~WideChar(buf[r][cols])
\* only an edge scrolls, and by one row
ScrollsByOne == [][\A i \in {Len(hist')} : hist'[i].op = "scrollup" =>
      \/ buf' = buf \/ (row = 0 /\ SubSeq(buf', 2, rows) = SubSeq(buf, 1, rows - 1))]_vars
Emit == Len(hist') = MaxOps => PrintT(ToJson([ops |-> hist']))
===============================================================================
