------------------------------- MODULE Total -------------------------------
(* Arbitrary texts with a cursor: sequences of atoms (characters, single bytes
   of characters, whole words), some of which separate words.  The partial word
   is what stands between the last separator before the cursor and the cursor.
   An answer must exist, must not depend on what follows the cursor, and offers
   (time units apart) must start with the partial word.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NAtoms, Seps,   \* atoms are 1..NAtoms, those in Seps separate words
          MaxLen, Walks, WalkLen

\* queries, given by the harness
Queries == JsonDeserialize("queries.json")

VARIABLES text, cur, phase
vars == <<text, cur, phase>>

Atoms == 1..NAtoms
Init == text = <<>> /\ cur = 0 /\ phase = "all"
Grow == /\ phase = "all" /\ Len(text) < MaxLen
        /\ \E a \in Atoms : \E c \in 0..(Len(text) + 1) : text' = Append(text, a) /\ cur' = c
        /\ UNCHANGED phase
Rand(n) == [i \in 1..n |-> RandomElement(Atoms)]
Walk == /\ phase = "all" /\ text = <<>>
        /\ phase' = "walk"
        /\ \E i \in 1..Walks : \E n \in {RandomElement(1..WalkLen)} : \E t \in {Rand(n)} :
             /\ text' = t
             /\ \E c \in {RandomElement({n, n, n - 1, RandomElement(0..n)})} : cur' = c
\* whole queries, with the cursor everywhere
Given == /\ phase = "all" /\ text = <<>>
         /\ phase' = "given"
         /\ \E i \in DOMAIN Queries : /\ text' = Queries[i]
                                     /\ \E c \in 0..Len(Queries[i]) : cur' = c
Next == Grow \/ Walk \/ Given

RECURSIVE WordLen(_, _)
WordLen(t, c) == IF c = 0 \/ t[c] \in Seps THEN 0 ELSE 1 + WordLen(t, c - 1)

\* the partial word ends at the cursor and holds no separator
WordOK == LET w == WordLen(text, cur)
          IN  /\ w <= cur
              /\ \A i \in (cur - w + 1)..cur : text[i] \notin Seps
              /\ cur - w > 0 => text[cur - w] \in Seps
Emit == PrintT(ToJson([text |-> text', cur |-> cur', word |-> WordLen(text', cur')]))
=============================================================================
