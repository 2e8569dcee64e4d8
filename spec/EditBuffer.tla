----------------------------- MODULE EditBuffer -----------------------------
(* The prompt's input line: characters and a cursor.  Completion is asked for
   the text before the cursor; an offer accepted replaces the partial word, the
   characters between the last separator before the cursor and the cursor, by a
   text that starts with it, so that the line only ever grows by the suffix.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NAtoms, Seps,     \* characters 1..NAtoms, those in Seps separate words
          Units,            \* characters that are time units
          MaxOps

VARIABLES text, cur, hist
vars == <<text, cur, hist>>

Atoms == 1..NAtoms
Before == SubSeq(text, 1, cur)
After == SubSeq(text, cur + 1, Len(text))
RECURSIVE WordLen(_)
WordLen(s) == IF s = <<>> \/ s[Len(s)] \in Seps THEN 0 ELSE 1 + WordLen(SubSeq(s, 1, Len(s) - 1))
Word == SubSeq(Before, cur - WordLen(Before) + 1, cur)

Log(op) == hist' = Append(hist, op @@ [text |-> text', cur |-> cur'])

Init == text = <<>> /\ cur = 0 /\ hist = <<>>
Insert == \E a \in {RandomElement(Atoms)} :
            /\ text' = Before \o <<a>> \o After /\ cur' = cur + 1
            /\ Log([op |-> "insert", a |-> a])
Left  == /\ cur > 0 /\ cur' = cur - 1 /\ UNCHANGED text /\ Log([op |-> "left"])
Right == /\ cur < Len(text) /\ cur' = cur + 1 /\ UNCHANGED text /\ Log([op |-> "right"])
Backspace == /\ cur > 0 /\ text' = SubSeq(text, 1, cur - 1) \o After /\ cur' = cur - 1
             /\ Log([op |-> "backspace"])

\* (with parameters, for TLC evaluates constant definitions only once)
\* offers: suffixes of the partial word (any characters), or time units
Suffix(k) == [i \in 1..RandomElement(0..3) |-> RandomElement(Atoms)]
Offer(k) == IF RandomElement(1..4) = 1 THEN [unit |-> TRUE, suffix |-> <<RandomElement(Units)>>]
                                    ELSE [unit |-> FALSE, suffix |-> Suffix(k)]
RandOffers(k) == [i \in 1..RandomElement(0..4) |-> Offer(i)]
\* ask for completions, look at all of them and accept one (0: none)
Complete ==
  \E os \in {RandOffers(cur)} : \E j \in {IF Before = <<>> \/ os = <<>> THEN 0 ELSE RandomElement(0..Len(os))} :
     /\ text' = IF j = 0 THEN text ELSE Before \o os[j].suffix \o After
     /\ cur' = IF j = 0 THEN cur ELSE cur + Len(os[j].suffix)
     /\ Log([op |-> "complete", offers |-> os, accept |-> j,
             asked |-> IF Before = <<>> THEN <<>> ELSE Before,
             word |-> Word,
             shown |-> IF Before = <<>> THEN <<>> ELSE [i \in DOMAIN os |-> Word \o os[i].suffix]])

Next == Len(hist) < MaxOps /\ (Insert \/ Left \/ Right \/ Backspace \/ Complete)

TypeOK == cur \in 0..Len(text)
\* accepting keeps everything typed so far, before and after the cursor
OnlyExtends == [][hist'[Len(hist')].op = "complete" =>
                    /\ SubSeq(text', 1, cur) = Before
                    /\ SubSeq(text', cur' + 1, Len(text')) = After]_vars
Emit == Len(hist') = MaxOps => PrintT(ToJson([ops |-> hist']))
=============================================================================
