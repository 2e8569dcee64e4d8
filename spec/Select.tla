------------------------------- MODULE Select -------------------------------
(* Which label sets each combination of matchers selects: the decision table  *)
(* behind the store's Select.  Selection from a store is the restriction of   *)
(* the accepted label sets to the stored ones.                                *)
EXTENDS Labels, Integers, Json

CONSTANTS Chunk, Chunks, Triples, Bunches   \* which part of the table to print

LS == << [__name__ |-> "m"],
         [__name__ |-> "m", a |-> "x"],
         [__name__ |-> "m", a |-> "y"],
         [__name__ |-> "m", a |-> "xx", b |-> "x"],
         [__name__ |-> "m", a |-> "x", b |-> "y"],
         [__name__ |-> "mm", a |-> "yx"],
         [__name__ |-> "mm", b |-> "xy"],
         [__name__ |-> "n", a |-> "x", b |-> "x"],
         [__name__ |-> "n"],
         [a |-> "x"],
         [b |-> "y"],
         [__name__ |-> "mm", a |-> "xx", b |-> "y"] >>

MNames == <<"__name__", "a", "b", "zz">>
LitVals == <<"", "x", "y", "xx", "m", "mm", "n">>
PatSeq == <<".*", ".+", "", "x", "x.*", ".*x", ".*x.*", "x?", "x|y", "y|", "xx|x", "m.*", "m|n", "(m|me).+", "[^x]", "z">>

Singles ==
  LET lit == {M(n, t, v) : n \in {MNames[i] : i \in 1..4}, t \in {"=", "!="}, v \in {LitVals[i] : i \in 1..7}}
      re == {M(n, t, v) : n \in {MNames[i] : i \in 1..4}, t \in {"=~", "!~"}, v \in {PatSeq[i] : i \in 1..16}}
  IN lit \cup re
\* enumerate them
NSingle == 4 * (2 * 7 + 2 * 16)
Single(k) ==   \* k in 0..NSingle-1
  LET n == MNames[(k % 4) + 1]
      r == k \div 4
  IN IF r < 14 THEN M(n, IF r % 2 = 0 THEN "=" ELSE "!=", LitVals[(r \div 2) + 1])
     ELSE M(n, IF r % 2 = 0 THEN "=~" ELSE "!~", PatSeq[((r - 14) \div 2) + 1])
ASSUME {Single(k) : k \in 0..(NSingle - 1)} = Singles

Accepted(ms) == {i \in 1..Len(LS) : AcceptsAll(LS[i], ms)}

VARIABLES k
\* one state per first matcher; its successors' combinations are printed with it
Init == k \in {j \in 0..(NSingle - 1) : j % Chunks = Chunk}
Row(j) == /\ PrintT(ToJson([ms |-> <<Single(j)>>, acc |-> Accepted(<<Single(j)>>)]))
          /\ \A l \in j..(NSingle - 1) :
               PrintT(ToJson([ms |-> <<Single(j), Single(l)>>, acc |-> Accepted(<<Single(j), Single(l)>>)]))
          /\ \A t \in 1..Triples :
               \A ms \in {<<Single(j), Single(RandomElement(0..(NSingle - 1))), Single(RandomElement(0..(NSingle - 1)))>>} :
                  PrintT(ToJson([ms |-> ms, acc |-> Accepted(ms)]))
\* long combinations, all but the last of which accept some label set
AccOf == [i \in 1..Len(LS) |-> {j \in 0..(NSingle - 1) : Accepts(LS[i], Single(j))}]
Long(i, n) == [p \in 1..n |-> Single(RandomElement(IF p < n THEN AccOf[i] ELSE 0..(NSingle - 1)))]
Bunch == \A t \in 1..Bunches :
   \A ms \in {Long(RandomElement(1..Len(LS)), RandomElement({4, 5, 6, 8, 12, 20}))} :
      PrintT(ToJson([ms |-> ms, acc |-> Accepted(ms)]))
Next == k >= 0 /\ Row(k) /\ Bunch /\ k' = -1 - k

(* properties of selection on the specification: complements and conjunction *)
Neg(t) == CASE t = "=" -> "!=" [] t = "!=" -> "=" [] t = "=~" -> "!~" [] t = "!~" -> "=~"
Complement == k < 0 \/ LET m == Single(k) IN
   Accepted(<<m>>) = (1..Len(LS)) \ Accepted(<<[m EXCEPT !.t = Neg(m.t)]>>)
ASSUME PrintT(ToJson([meta |-> [ls |-> LS]]))
=============================================================================
