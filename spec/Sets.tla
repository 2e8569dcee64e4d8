-------------------------------- MODULE Sets --------------------------------
(* The set collections: registers hold sets, operations mutate one of them,  *)
(* ask something about them, or build a new set.  Elements are ranks in the   *)
(* ascending table of values of the element type.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS NVals,   \* elements are 1..NVals
          NRegs,   \* registers
          Types,   \* number of element types
          Depth

Vals == 1..NVals
Regs == 1..NRegs
Nil == "nil"

VARIABLES regs,   \* sequence of sets; register r is the r-th
          isnil,  \* registers holding a nil set, which can only be read
          hist, typ
vars == <<regs, isnil, hist, typ>>

Sorted(S) == SetToSortSeq(S, <)
Ran(s) == {s[i] : i \in DOMAIN s}
RandSet(d) == {v \in Vals : RandomElement(1..4) <= d}
RandSeq(n) == [i \in 1..n |-> RandomElement(Vals)]

\* what an operation answers, and the set it builds
BinOps == {"union", "intersection", "difference"}
Build(op, S, T) == CASE op = "union" -> S \cup T
                     [] op = "intersection" -> S \cap T
                     [] op = "difference" -> S \ T
Ask(op, S, T, xs) == CASE op = "superset" -> T \subseteq S
                       [] op = "equal" -> S = T
                       [] op = "has" -> xs[1] \in S
                       [] op = "hasall" -> Ran(xs) \subseteq S
                       [] op = "hasany" -> Ran(xs) \cap S # {}
                       [] op = "len" -> Cardinality(S)
                       [] op = "list" -> Sorted(S)
                       [] op = "unsorted" -> Sorted(S)

Log(op, r, a, b, xs, ans) ==
  hist' = Append(hist, [op |-> op, r |-> r, a |-> a, b |-> b, xs |-> xs, ans |-> ans,
                        regs |-> [i \in Regs |-> Sorted(regs'[i])]])

New(r, xs, how) == /\ regs' = [regs EXCEPT ![r] = Ran(xs)]
                   /\ isnil' = isnil \ {r}
                   /\ Log(how, r, 0, 0, xs, 0)
MakeNil(r) == /\ regs' = [regs EXCEPT ![r] = {}]
              /\ isnil' = isnil \cup {r}
              /\ Log("nil", r, 0, 0, <<>>, 0)
Insert(r, xs) == /\ r \notin isnil
                 /\ regs' = [regs EXCEPT ![r] = @ \cup Ran(xs)]
                 /\ UNCHANGED isnil
                 /\ Log("insert", r, 0, 0, xs, 0)
Delete(r, xs) == /\ regs' = [regs EXCEPT ![r] = @ \ Ran(xs)]
                 /\ UNCHANGED isnil
                 /\ Log("delete", r, 0, 0, xs, 0)
Bin(op, r, a, b) == /\ regs' = [regs EXCEPT ![r] = Build(op, regs[a], regs[b])]
                    /\ isnil' = isnil \ {r}
                    /\ Log(op, r, a, b, <<>>, 0)
Query(op, a, b, xs) == /\ UNCHANGED <<regs, isnil>>
                       /\ Log(op, 0, a, b, xs, Ask(op, regs[a], regs[b], xs))
\* k elements are taken, whichever they are, and put back: those taken and the
\* rest make up the set, and taking from the empty set yields nothing
Pop(r, k) == /\ r \notin isnil
             /\ UNCHANGED <<regs, isnil>>
             /\ Log("pop", r, k, 0, <<>>, [all |-> Sorted(regs[r]), taken |-> IF k <= Cardinality(regs[r]) THEN k ELSE Cardinality(regs[r])])

Reads == <<"superset", "equal", "has", "hasall", "hasany", "len", "list", "unsorted">>
Init == /\ regs = [r \in Regs |-> {}] /\ isnil = {} /\ hist = <<>>
        /\ typ = 0
Next == /\ Len(hist) < Depth
        /\ IF typ = 0 THEN \E t \in {RandomElement(1..Types)} : typ' = t ELSE UNCHANGED typ
        /\ \E k \in {RandomElement(1..18)} : \E r \in {RandomElement(Regs)} : \E a \in {RandomElement(Regs)} : \E b \in {RandomElement(Regs)} :
           \E n \in {RandomElement(0..6)} : \E xs \in {IF RandomElement(1..3) = 1 THEN Sorted({v \in regs[a] : RandomElement(1..3) > 1}) ELSE RandSeq(n)} : \E x1 \in {RandSeq(1)} :
             CASE k <= 2 -> New(r, xs, IF k = 1 THEN "new" ELSE "keyset")
               [] k = 3 -> IF n = 0 THEN MakeNil(r) ELSE New(r, Sorted(Vals \ Ran(xs)), "new")
               [] k <= 5 -> IF r \in isnil THEN New(r, xs, "new") ELSE Insert(r, xs)
               [] k <= 7 -> Delete(r, xs)
               [] k <= 10 -> Bin(<<"union", "intersection", "difference">>[k - 7], r, a, b)
               [] k <= 16 -> \E q \in {Reads[RandomElement(1..8)]} : Query(q, a, b, IF q = "has" THEN x1 ELSE xs)
               [] OTHER -> IF r \in isnil THEN Query("len", r, r, <<>>) ELSE Pop(r, n)

Done == Len(hist) = Depth
Emit == IF Len(hist') = Depth THEN PrintT(ToJson([typ |-> typ', ops |-> hist'])) ELSE TRUE

\* set algebra on every state
Laws == \A a \in Regs, b \in Regs :
  LET S == regs[a]  T == regs[b]
  IN /\ Build("union", S, T) = Build("union", T, S)
     /\ Build("intersection", S, T) = Build("intersection", T, S)
     /\ Build("difference", S, T) \cap T = {}
     /\ Build("union", Build("difference", S, T), Build("intersection", S, T)) = S
     /\ Ask("equal", S, T, <<>>) <=> (Ask("superset", S, T, <<>>) /\ Ask("superset", T, S, <<>>))
     /\ Cardinality(S \cup T) + Cardinality(S \cap T) = Cardinality(S) + Cardinality(T)
     /\ Len(Sorted(S)) = Cardinality(S)
     /\ \A i \in 1..Len(Sorted(S)) - 1 : Sorted(S)[i] < Sorted(S)[i + 1]

\* ---- every pair of small sets under every operation, one step each ----
SmallVals == 1..4
PairInit == /\ \E S \in SUBSET SmallVals, T \in SUBSET SmallVals : regs = <<S, T, {}>>
            /\ isnil = {} /\ hist = <<>> /\ typ \in 1..Types
PairNext == /\ hist = <<>> /\ UNCHANGED typ
            /\ \/ \E op \in BinOps, r \in 1..3 : Bin(op, r, 1, 2)
               \/ \E op \in BinOps : Bin(op, 3, 1, 1)
               \/ \E op \in {"superset", "equal"} : Query(op, 1, 2, <<>>)
               \/ \E op \in {"superset", "equal"} : Query(op, 1, 1, <<>>)
               \/ \E op \in {"hasall", "hasany"} : Query(op, 1, 1, Sorted(regs[2]))
               \/ Insert(1, Sorted(regs[2])) \/ Delete(1, Sorted(regs[2]))
PairEmit == PrintT(ToJson([typ |-> typ, ops |-> <<
    [op |-> "new", r |-> 1, a |-> 0, b |-> 0, xs |-> Sorted(regs[1]), ans |-> 0, regs |-> <<Sorted(regs[1]), <<>>, <<>>>>],
    [op |-> "new", r |-> 2, a |-> 0, b |-> 0, xs |-> Sorted(regs[2]), ans |-> 0, regs |-> <<Sorted(regs[1]), Sorted(regs[2]), <<>>>>]>> \o hist']))
=============================================================================
