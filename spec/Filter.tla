------------------------------- MODULE Filter -------------------------------
(* Filtering collections of texts by prefix, or by characters in order.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NAtoms, Walks
\* characters are 1..NAtoms; Lower and Quoted are given by the harness
Tab == JsonDeserialize("chars.json")
Lower(a) == Tab.lower[a]
Quoted(a) == Tab.quoted[a]

Atoms == 1..NAtoms
Items == UNION {[1..n -> Atoms] : n \in 0..2}

LowerSeq(s) == [i \in DOMAIN s |-> Lower(s[i])]
Fold(s, ic) == IF ic THEN LowerSeq(s) ELSE s
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE InOrder(_, _)
InOrder(s, p) == IF p = <<>> THEN TRUE ELSE IF s = <<>> THEN FALSE
                 ELSE IF s[1] = p[1] THEN InOrder(Tail(s), Tail(p)) ELSE InOrder(Tail(s), p)
Match(fn, s, p) == IF fn = "prefix" THEN StartsWith(s, p) ELSE InOrder(s, p)
Filter(fn, S, p, ic) == {s \in S : Match(fn, Fold(s, ic), Fold(p, ic))}
RECURSIVE QuotedSeq(_)
QuotedSeq(s) == IF s = <<>> THEN "" ELSE Quoted(s[1]) \o QuotedSeq(Tail(s))

VARIABLE case
Rand(n) == [i \in 1..n |-> RandomElement(Atoms)]
RandSet(n) == {Rand(RandomElement(0..5)) : i \in 1..n}
Init == case = <<>>
Next == /\ case = <<>>
        /\ \E fn \in {"prefix", "fuzzy"} : \E ic \in BOOLEAN :
             \/ \E p \in Items : case' = <<fn, Items, p, ic>>
             \/ \E i \in 1..Walks : \E S \in {RandSet(RandomElement(0..8))} :
                \E p \in {IF S = {} THEN Rand(2) ELSE RandomElement({Rand(RandomElement(0..4)), RandomElement(S)})} :
                  case' = <<fn, S, p, ic>>

\* laws of filtering, on every case
Laws == case # <<>> =>
  LET R == Filter(case[1], case[2], case[3], case[4])
  IN  /\ R \subseteq case[2]
      /\ case[3] = <<>> => R = case[2]
      /\ Filter("prefix", case[2], case[3], case[4]) \subseteq Filter("fuzzy", case[2], case[3], case[4])
      /\ Filter(case[1], case[2], case[3], FALSE) \subseteq Filter(case[1], case[2], case[3], TRUE)
      /\ case[3] \in case[2] => case[3] \in R
Emit == PrintT(ToJson([fn |-> case'[1], items |-> case'[2], p |-> case'[3], ic |-> case'[4],
                       exp |-> Filter(case'[1], case'[2], case'[3], case'[4]),
                       quoted |-> {"\"" \o QuotedSeq(s) \o "\"" : s \in case'[2]}]))
=============================================================================
