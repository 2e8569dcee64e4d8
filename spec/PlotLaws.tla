------------------------------ MODULE PlotLaws ------------------------------
(* What a graph drawn on the screen has to look like.  Each record holds a     *)
(* graph (samples as <<time, scaled value>>, in 1/16 and 1/1024 units) with its *)
(* axes, and what the real code made of it; records that break a law are        *)
(* reported.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Part        \* "ticks" or "draw"
Recs == ndJsonDeserialize("recs.ndjson")

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Ran(s) == {s[k] : k \in DOMAIN s}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))

\* position p of 0..n-1 is where x lies proportionally within lo..hi: within half
\* a position, give or take the precision of the numbers
At(p, n, x, lo, hi, unit) ==
  LET d == IF hi = lo THEN unit ELSE hi - lo
  IN  /\ lo - 1 <= x /\ x <= hi + 1 /\ d < 1000000   \* so that nothing overflows
      /\ Abs(2 * p * d - 2 * (x - lo) * (n - 1)) <= d + 4 * (n + 1)
\* the same for several positions whose mean is p, rounded either way
AtMean(p, n, xs, lo, hi, unit) ==
  LET d == IF hi = lo THEN unit ELSE hi - lo
      k == Len(xs)
      in == \A j \in DOMAIN xs : lo - 1 <= xs[j] /\ xs[j] <= hi + 1
      dev == 2 * p * d * k - 2 * (Sum(xs) - k * lo) * (n - 1)
  IN  IF k = 1 THEN At(p, n, xs[1], lo, hi, unit)
      ELSE in /\ d < 1000000 /\ Abs(dev) <= 3 * d * k + 4 * k * (n + 1)

UnitT == 16
UnitV == 1024
----------------------------------------------------------------------------
(* ticks *)
InnerOK(r) ==
  LET rows == r.rows - r.mrows  cols == r.cols - r.mcols
  IN  IF rows >= 0 /\ cols >= 0 THEN r.irows = rows /\ r.icols = cols
      ELSE r.irows >= 0 /\ r.icols >= 0 /\ (r.irows = 0 \/ r.icols = 0)
LongestShown(ts) == IF ts = <<>> THEN 0 ELSE CHOOSE m \in {t.len : t \in Ran(ts)} : \A t \in Ran(ts) : t.len <= m
MarginsOK(r) == /\ r.mrows >= LongestShown(r.dom) + r.line /\ r.mrows <= r.domcalled + r.line
                /\ r.mcols >= LongestShown(r.rng) + r.line /\ r.mcols <= r.rngcalled + r.line
Few(r) == Len(r.dom) <= r.cols \div r.dd + 3 /\ Len(r.rng) <= r.cols \div r.rd + 3
\* r.domranks: ranks of the minimum and the maximum of the axis among the tick values
Ordered(ts, lo, hi) == /\ ts # <<>> /\ ts[1].rank = lo
                       /\ \A k \in 1..Len(ts) - 1 : ts[k].rank < ts[k + 1].rank
                       /\ \A k \in DOMAIN ts : ts[k].rank <= hi
Labelled(r) == \A t \in Ran(r.dom) \cup Ran(r.rng) : t.own
Visible(r) == r.irows > 0 /\ r.icols > 0
DomAt(r) == \A t \in Ran(r.dom) : t.pos >= 0 /\ t.pos < r.icols /\ At(t.pos, r.icols, t.x, r.d[1], r.d[2], UnitT)
RngAt(r) == \A t \in Ran(r.rng) : t.pos >= 0 /\ t.pos < r.irows /\ At(r.irows - 1 - t.pos, r.irows, t.x, r.s[1], r.s[2], UnitV)
MaxLabelled(r) == \/ \E t \in Ran(r.dom) : t.rank = r.domranks[2]
                  \/ \E t \in Ran(r.dom) : At(t.pos, r.icols, r.d[2], r.d[1], r.d[2], UnitT)
\* the axes drawn: r.axes lists [row, col, kind, ch], each cell once (what was drawn last)
Cell(r, row, col) == {a \in Ran(r.axes) : a.row = row /\ a.col = col}
Is(r, row, col, kinds) == \E a \in Cell(r, row, col) : a.kind \in kinds
Shows(r, row, col, ch) == \E a \in Cell(r, row, col) : a.kind = "label" /\ a.ch = ch
AxesDrawn(r) ==
  LET yc == r.mcols - 1  xr == r.irows
      lone == {t \in Ran(r.rng) : \A u \in Ran(r.rng) : u.pos = t.pos => u = t}
      labelRow(t) == {<<t.pos, yc - t.len + k>> : k \in 0..t.len - 1}
      labelCol(t) == {<<xr + r.line + k, t.pos + yc>> : k \in 0..t.len - 1}
      known == {<<row, yc>> : row \in 0..r.irows} \cup {<<xr, yc + k>> : k \in 0..r.icols}
                 \cup UNION {labelRow(t) : t \in Ran(r.rng)} \cup UNION {labelCol(t) : t \in Ran(r.dom)}
  IN  /\ \A row \in 0..r.irows - 1 : IF \E t \in Ran(r.rng) : t.pos = row THEN Is(r, row, yc, {"rtick"}) ELSE Is(r, row, yc, {"y"})
      /\ \A k \in 1..r.icols : IF \E t \in Ran(r.dom) : t.pos = k THEN Is(r, xr, yc + k, {"dtick"}) ELSE Is(r, xr, yc + k, {"x"})
      /\ Is(r, xr, yc, {"corner"})
      /\ \A t \in lone : \A k \in 1..t.len : Shows(r, t.pos, yc - t.len + k - 1, t.lab[k])
      /\ \A t \in Ran(r.dom) : \A k \in 1..t.len : Shows(r, xr + r.line + k - 1, t.pos + yc, t.lab[k])
      /\ \A a \in Ran(r.axes) : <<a.row, a.col>> \in known
TickFaults(r) ==
  LET any == r.n > 0 \/ TRUE IN
  (IF InnerOK(r) THEN {} ELSE {"inner size"}) \cup
  (IF MarginsOK(r) THEN {} ELSE {"margins"}) \cup
  (IF Few(r) THEN {} ELSE {"number of ticks"}) \cup
  (IF ~r.data \/ Ordered(r.dom, r.domranks[1], r.domranks[2]) THEN {} ELSE {"order of domain ticks"}) \cup
  (IF ~r.data \/ ~r.values \/ Ordered(r.rng, r.rngranks[1], r.rngranks[2]) THEN {} ELSE {"order of range ticks"}) \cup
  (IF Labelled(r) THEN {} ELSE {"label of its own value"}) \cup
  (IF ~Visible(r) \/ ~r.data THEN {} ELSE
     (IF DomAt(r) THEN {} ELSE {"place of domain ticks"}) \cup
     (IF ~r.values \/ RngAt(r) THEN {} ELSE {"place of range ticks"}) \cup
     (IF MaxLabelled(r) THEN {} ELSE {"maximum of the domain"}) \cup
     (IF ~r.values \/ AxesDrawn(r) THEN {} ELSE {"drawing of the axes"}))
----------------------------------------------------------------------------
(* drawing: r.rows, r.cols count dots; r.series[i] = [id, smp, pts] with samples
   <<t, v>> or <<t>> if not finite, pts = [row, col, of] (of: the samples shown);
   r.lit = <<row, col>>, r.colours = <<cell row from the top, cell column, id>> *)
RECURSIVE Joined(_)
Joined(pts) == IF pts = <<>> THEN <<>> ELSE pts[1].of \o Joined(Tail(pts))
\* every finite sample is shown by exactly one point, in order, the others not
AllShown(s) == Joined(s.pts) = SelectSeq([k \in DOMAIN s.smp |-> k], LAMBDA k : Len(s.smp[k]) = 2)
Placed(r, s) == \A k \in DOMAIN s.pts : LET p == s.pts[k] IN
   /\ p.col >= 0 /\ p.col < r.cols /\ p.row >= 0 /\ p.row < r.rows
   /\ \A j \in Ran(p.of) : At(p.col, r.cols, s.smp[j][1], r.d[1], r.d[2], UnitT)
   /\ AtMean(p.row, r.rows, [j \in DOMAIN p.of |-> s.smp[p.of[j]][2]], r.s[1], r.s[2], UnitV)
   /\ k < Len(s.pts) => s.pts[k].col < s.pts[k + 1].col
Pairs(s) == {<<s.pts[k], s.pts[k + 1]>> : k \in 1..Len(s.pts) - 1}
InRect(d, p, q) == /\ Min(p.row, q.row) <= d[1] /\ d[1] <= Max(p.row, q.row)
                   /\ Min(p.col, q.col) <= d[2] /\ d[2] <= Max(p.col, q.col)
PointsLit(r, lit) == \A s \in Ran(r.series) : \A p \in Ran(s.pts) : <<p.row, p.col>> \in lit
\* dots are samples, or lie between two consecutive ones
OnlyBetween(r, lit) == \A d \in lit : \E s \in Ran(r.series) :
   (\E p \in Ran(s.pts) : <<p.row, p.col>> = d) \/ \E pq \in Pairs(s) : InRect(d, pq[1], pq[2])
\* colours: of a series with a sample in the cell, or with a line that may pass it
\* cell of a dot: rows are counted from the bottom in dots, from the top in cells
CellTop(r, c) == r.rows - 1 - 4 * c[1]
Overlaps(r, c, p, q) == /\ Min(p.row, q.row) <= CellTop(r, c) /\ Max(p.row, q.row) >= CellTop(r, c) - 3
                        /\ Min(p.col, q.col) <= 2 * c[2] + 1 /\ Max(p.col, q.col) >= 2 * c[2]
Passes(r, c, s) == \/ \E p \in Ran(s.pts) : Overlaps(r, c, p, p)
                   \/ \E pq \in Pairs(s) : Overlaps(r, c, pq[1], pq[2])
Coloured(r) == \A c \in Ran(r.colours) : \E s \in Ran(r.series) : s.id = c[3] /\ Passes(r, c, s)
\* a line of rising values is connected
Near(d) == {<<d[1] + a, d[2] + b>> : a \in {-1, 0, 1}, b \in {-1, 0, 1}}
RECURSIVE Grow(_, _)
Grow(S, L) == LET N == {d \in L \ S : \E e \in Near(d) : e \in S} IN IF N = {} THEN S ELSE Grow(S \cup N, L)
Rising(s, p, q) == q.row > p.row \/ (q.row = p.row /\ Len(p.of) = 1 /\ Len(q.of) = 1 /\ s.smp[q.of[1]][2] > s.smp[p.of[1]][2])
Connected(r, lit) == \A s \in Ran(r.series) : \A pq \in Pairs(s) :
   Rising(s, pq[1], pq[2]) =>
     LET L == {d \in lit : InRect(d, pq[1], pq[2])}
     IN  <<pq[2].row, pq[2].col>> \in Grow({<<pq[1].row, pq[1].col>>}, L)
DrawFaults(r) ==
  LET lit == Ran(r.lit) IN
  (IF \A s \in Ran(r.series) : AllShown(s) THEN {} ELSE {"samples shown"}) \cup
  (IF \A s \in Ran(r.series) : Placed(r, s) THEN {} ELSE {"place of samples"}) \cup
  (IF PointsLit(r, lit) THEN {} ELSE {"samples lit"}) \cup
  (IF OnlyBetween(r, lit) THEN {} ELSE {"dots between samples"}) \cup
  (IF Coloured(r) THEN {} ELSE {"colours"}) \cup
  (IF Connected(r, lit) THEN {} ELSE {"rising lines"})
----------------------------------------------------------------------------
VARIABLE i
Init == i = 1
Next == \/ /\ i <= Len(Recs) /\ i' = i + 1
           /\ \E f \in {IF Part = "ticks" THEN TickFaults(Recs[i]) ELSE DrawFaults(Recs[i])} :
                IF f = {} THEN TRUE ELSE PrintT(ToJson([bad |-> i, laws |-> f]))
        \/ i = Len(Recs) + 1 /\ PrintT(ToJson([done |-> Len(Recs)])) /\ i' = i + 1
=============================================================================
