-------------------------------- MODULE Split --------------------------------
(* Split views: a dock of some wanted size at one side of an area, something
   flexible in the rest; nested, the leaves partition the screen.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxArea, MaxSize, Pcts,   \* for the exhaustive part
          Walks, Depth, BigArea,    \* for random nested splits
          Kinds                     \* what leaves are made of
Docks == {"below", "above", "left", "right"}
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

\* size of the dock along a side of length area
Dock(size, pct, area) ==
  LET d == Max(0, Min(size, area - 1))
  IN  IF pct > 0 THEN Min(d, (area * pct) \div 100) ELSE d

\* a box is <<column, row, columns, rows>>
Docked(v, b) ==
  LET dc == Dock(v.size, v.pct, b[3])
      dr == Dock(v.size, v.pct, b[4])
  IN  CASE v.dock = "below" -> <<b[1], b[2] + b[4] - dr, b[3], dr>>
        [] v.dock = "above" -> <<b[1], b[2], b[3], dr>>
        [] v.dock = "left"  -> <<b[1], b[2], dc, b[4]>>
        [] v.dock = "right" -> <<b[1] + b[3] - dc, b[2], dc, b[4]>>
Flexed(v, b) ==
  LET dc == Dock(v.size, v.pct, b[3])
      dr == Dock(v.size, v.pct, b[4])
  IN  CASE v.dock = "below" -> <<b[1], b[2], b[3], b[4] - dr>>
        [] v.dock = "above" -> <<b[1], b[2] + dr, b[3], b[4] - dr>>
        [] v.dock = "left"  -> <<b[1] + dc, b[2], b[3] - dc, b[4]>>
        [] v.dock = "right" -> <<b[1], b[2], b[3] - dc, b[4]>>

\* leaves of a tree, each with its box
RECURSIVE Leaves(_, _)
Leaves(v, b) == IF v.kind = "split" THEN Leaves(v.docked, Docked(v, b)) \o Leaves(v.flexed, Flexed(v, b))
                ELSE <<[kind |-> v.kind, box |-> b]>>

-------------------------------------------------------------------------------
Leaf(k) == [kind |-> k]
RandSize(k) == IF BigArea >= 200 /\ RandomElement(1..5) = 1 THEN RandomElement(0..RandomElement({1000, 100000}))
               ELSE IF RandomElement(1..4) = 1 THEN RandomElement(-2..2 * BigArea) ELSE RandomElement(0..1 + BigArea \div 3)
RandPct(k) == IF RandomElement(1..2) = 1 THEN 0 ELSE RandomElement(1..110)
RECURSIVE RandTree(_)
RandTree(d) ==
  IF d = 0 \/ (d < Depth /\ RandomElement(1..3) = 1) THEN Leaf(RandomElement(Kinds))
  ELSE [kind |-> "split", dock |-> RandomElement(Docks), size |-> RandSize(d), pct |-> RandPct(d),
        docked |-> RandTree(d - 1), flexed |-> RandTree(d - 1)]
RandBox(k) == IF BigArea >= 200 /\ RandomElement(1..4) = 1      \* nothing is drawn: any area will do
              THEN <<RandomElement(0..3000), RandomElement(0..3000), RandomElement(0..RandomElement({300, 40000})), RandomElement(0..RandomElement({300, 3000, 50000}))>>
              ELSE <<RandomElement(0..4), RandomElement(0..4), RandomElement(0..BigArea), RandomElement(0..BigArea \div 2)>>

VARIABLES tree, boxes      \* a tree and the areas it is given, one after another
vars == <<tree, boxes>>
Init == tree = <<>> /\ boxes = <<>>
Next == /\ tree = <<>>
        /\ \/ \E k \in {"plain"} : \E d \in Docks : \E s \in -2..MaxSize : \E p \in Pcts :
                /\ tree' = [kind |-> "split", dock |-> d, size |-> s, pct |-> p, docked |-> Leaf(k), flexed |-> Leaf(k)]
                /\ \E w \in 0..MaxArea : boxes' = [h \in 1..MaxArea + 1 |-> <<h % 3, w % 2, w, h - 1>>]
           \/ \E i \in 1..Walks :
                /\ \E t \in {RandTree(Depth)} : tree' = t
                /\ \E n \in {RandomElement(1..4)} : \E b \in {[j \in 1..n |-> RandBox(j)]} : boxes' = b
Emit == PrintT(ToJson([tree |-> tree', boxes |-> boxes', leaves |-> [i \in DOMAIN boxes' |-> Leaves(tree', boxes'[i])]]))

-------------------------------------------------------------------------------
\* the panes cover the area exactly
Area(b) == b[3] * b[4]
Inside(a, b) == a[1] >= b[1] /\ a[2] >= b[2] /\ a[1] + a[3] <= b[1] + b[3] /\ a[2] + a[4] <= b[2] + b[4] /\ a[3] >= 0 /\ a[4] >= 0
Overlap(a, b) == /\ Area(a) > 0 /\ Area(b) > 0
                 /\ a[1] < b[1] + b[3] /\ b[1] < a[1] + a[3] /\ a[2] < b[2] + b[4] /\ b[2] < a[2] + a[4]
RECURSIVE Sum(_)
Sum(L) == IF L = <<>> THEN 0 ELSE Area(L[1].box) + Sum(Tail(L))
Partition == tree # <<>> => \A i \in DOMAIN boxes :
  LET L == Leaves(tree, boxes[i])
  IN  /\ \A j \in DOMAIN L : Inside(L[j].box, boxes[i])
      /\ \A j, k \in DOMAIN L : j # k => ~Overlap(L[j].box, L[k].box)
      /\ Sum(L) = Area(boxes[i])
===============================================================================
